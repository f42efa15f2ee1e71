# What decides each property, for DESIGN.md: (harness and what it makes symbolic, oracle, seconds of the quick check here)
DES = {
"P01": ("VerifParse / VerifParseAbs: an arbitrary byte string over the alphabet of path metacharacters, unqualified, with a module, or below the module's directory, goes through Parse of both backends. VerifSpelling: every operation of a backend (or a stack) with the spelled and, on an equal tree, with the canonical path.", "vlib.Canon (replace backslashes, clean below the root), a fixed point under a second Parse, containment in the module; for operations, the same result, error class and tree as for the canonical path", 38),
"P02": ("VerifMemContent: contents, their split into writes, the read sizes and a second generation are symbolic; the caller's buffer is overwritten after each write. VerifMemBig: sizes around the powers of two up to 65537, of two interleaved writers, plain or unpacked.", "the written bytes", 6),
"P03": ("VerifMemHandles: two handles (one may come through an open directory, or from an unpacked pack), symbolic contents, a symbolic sequence of reads and seeks with symbolic offsets, and a change of the path at a symbolic moment.", "an offset and a byte slice per handle", 12),
"P04": ("VerifMemMkdirAll, VerifMemCreate: a symbolic tree over two modules (number of entries, kinds, name bytes, contents) and a symbolic path.", "vlib.Model (existence, kind, mode, content of everything afterwards)", 35),
"P05": ("VerifMemRemove, VerifMemRemoveAll over symbolic trees.", "vlib.Model", 19),
"P06": ("VerifMemWalk: symbolic tree and root, and a function that returns SkipDir or another error, or removes an entry, at a symbolic visit. VerifMemWide: up to 300 siblings.", "vlib.Model, and the reference walk written over it", 36),
"P07": ("VerifMemReaddir: symbolic tree, directory and sizes of the pieces, also reopened. VerifMemWide.", "vlib.Model.Children", 36),
"P08": ("VerifSubtree, VerifDir: an arbitrary name opened through an open directory or pkger.Dir, memory, unpacked and disk, with secrets outside of the directory.", "the entry at Canon(name) below the directory, os.IsNotExist otherwise, descriptors counted", 60),
"P09": ("VerifPackJSON, VerifPackFields, VerifUnmarshalEmbed: symbolic trees, contents and info fields through MarshalJSON / UnmarshalJSON and the embedded form, changed and packed again, unpacked onto a used Pkger; truncated forms.", "identity", 45),
"P10": ("VerifEmbed, VerifEmbedBroken, VerifEmbedBig: arbitrary contents through Encode and Decode; every cut and every altered byte of the form.", "identity, or an error", 17),
"P11": ("VerifDiskOps: an arbitrary path and operation on a directory with a twin. VerifDiskDep: the same in dependencies, through the go command. VerifDiskNone: the same without a module.", "package os on the twin directory; both trees compared as a whole afterwards", 40),
"P12": ("VerifDiskOps with deny=1: the permissions of each entry are symbolic. VerifMemWalk on disk, entries removed during the walk.", "package os on the twin directory: results, classes of errors, visits of the walk", 7),
"P13": ("VerifLayers, VerifLayersWrite: two or three symbolic layers (memory, disk, applied), an arbitrary path and operation, writes and removals through the stack.", "the models of the layers", 21),
"P14": ("VerifConc*: two or three goroutines with symbolically chosen operations. See below.", "the results of a sequential execution; no race, deadlock or panic", 34),
"P15": ("VerifParserCalls: source code from a grammar of places, spellings and kinds of arguments, chosen symbolically.", "the generator's own list of calls", 20),
"P16": ("VerifFileInfo: name, size, mode bits and time fields symbolic, copied and through JSON.", "identity of each field", 16),
"P17": ("VerifParserSearch: symbolic names of two levels of folders and of the file, unreadable or invalid files.", "the rule of the statement", 7),
"P18": ("VerifParserFiles: symbolic trees with nested modules, declared paths from calls and from -include, paths made by the program.", "the set computed from the generated tree", 16),
"P19": ("VerifPackFaults: which file is unreadable or vanishes, where the disk is full (a limit at any byte), which function declares it.", "an error and no file, or a complete file; descriptors counted", 9),
"P20": ("VerifPipeline: a program and its dependency from a symbolic tree, packed by the library or the command, decoded again from the generated Go file.", "the disk backend on the same tree, operation by operation", 27),
"P21": ("VerifAdd: symbolic sets of files and directories of the own, a nested or another module, opened by absolute or relative names, unreadable ones, links, added again after a change.", "the disk's tree and vlib.Model of the rest", 13),
"P22": ("VerifList, VerifReports: list, path, info, stat and parse with symbolic arguments, os.Stdout captured. VerifDump: a symbolic tree, and a writer or a walk that fails.", "the library's answers for the same arguments; the output parsed again", 20),
"P23": ("VerifServe: http.FileServer (executed from source) over pkger.Dir or an open directory, disk or unpacked, with an arbitrary request path, ranges, conditions, methods.", "http.FileServer over http.Dir of the same directory: status, headers, body", 18),
"P24": ("VerifHistory: a symbolic sequence of create, make, remove, open, pack and unpack with handles that stay open, in memory and on disk.", "vlib.Model after each operation and at the end", 36),
}
