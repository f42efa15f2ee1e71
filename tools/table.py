NOTES = ("All checks share one engine (/verif/engine): a symbolic executor for the Go SSA of /repo's current source with z3 as the deciding solver. "
         "The harnesses are overlay packages of the module and use its exported API only. DESIGN.md explains the method, the bounds and what lies outside.")

COMMON = [
    "The code is executed from its SSA form (golang.org/x/tools/go/ssa) as loaded from /repo at the start of the run; package os, the go command, compress/gzip, regexp, encoding/json reflection, fmt and sync are replaced by models (engine/*.go, harness/internal/vmodel), which the native replay of path witnesses compares with the real ones on every run.",
    "The deciding solver (z3) and the symbolic executor are trusted; a counterexample counts only if it fails on the natively compiled code.",
]

D = dict
P = [
 D(id="P01", title="Every spelling of a path names the same one thing",
   statement="Any spelling of a path (dots, doubled or trailing slashes, backslashes, \"..\" elements, with or without its module, or as a location on disk) resolves to one canonical path inside the module it names, resolving that again changes nothing, and no spelling leaves its module. Every operation of every backend does for a spelled path exactly what it does for the canonical one.",
   over=["inputs"], quant="For all paths of up to the bound's length over an alphabet with every character that has a meaning in paths, all ways to name the module, all operations, both backends and their layering.",
   why="The tests parse about ten fixed spellings and use clean paths for the operations; escapes need particular combinations of separators and dots.",
   files=["pkging/mem/mem.go", "pkging/stdos/stdos.go", "here/here.go", "pkging/wrap.go"],
   mech=[("path parsing of both backends", "(*mem.Pkger).Parse, (*stdos.Pkger).Parse and what they call"), ("calls of Parse at the start of every operation", "pkging/mem/mem.go, pkging/stdos/stdos.go")],
   pkgs=["vpath"],
   runs=[("VerifParse", "quick", 60, {"n": 5}), ("VerifParse", "thorough", 300, {"n": 7}), ("VerifParseAbs", "quick", 30, {"n": 5}), ("VerifParseAbs", "thorough", 200, {"n": 8}),
         ("VerifSpelling", "quick", 60, {"n": 4, "disk": 0}), ("VerifSpelling", "quick", 60, {"n": 4, "disk": 1}),
         ("VerifSpelling", "thorough", 400, {"n": 6, "disk": 0}), ("VerifSpelling", "thorough", 400, {"n": 6, "disk": 1}),
         ("VerifParse", "quick", 60, {"n": 3, "base": 5}), ("VerifParseAbs", "quick", 60, {"n": 4, "base": 5}), ("VerifSpelling", "quick", 60, {"n": 3, "disk": 0, "base": 5}), ("VerifParse", "thorough", 200, {"n": 5, "base": 5}), ("VerifParseAbs", "thorough", 200, {"n": 6, "base": 5}), ("VerifSpelling", "thorough", 200, {"n": 4, "disk": 0, "base": 5}),
         ("VerifParse", "both", 60, {"odd": 2}), ("VerifParseAbs", "both", 60, {"odd": 2}), ("VerifSpelling", "both", 60, {"odd": 1, "odds": 17, "disk": 0}), ("VerifSpelling", "quick", 60, {"odd": 1, "odds": 17, "disk": 1}), ("VerifSpelling", "thorough", 200, {"odd": 1, "disk": 1}), ("VerifSpelling", "thorough", 400, {"odd": 2, "odds": 8, "disk": 0})],
   bounds=["odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved), one or two of them in a path", "quick: paths of up to 5 bytes after the leading slash over the alphabet / . a \\ (and : when qualified) for parsing, 4 bytes over / . a d \\ for operations; thorough: 7, 8 and 6; one or two bytes less where the module's folder is one of five that such paths can begin with, the root of the disk among them", "outside: unqualified paths with ':', white space at the ends, names without a leading slash that mean packages (the external path grammar of gobuffalo/here)"],
   note="Exhaustive over all spellings within the stated length and alphabet, on the code of both backends."),
 D(id="P02", title="What is written to a file is what is read from it",
   statement="A file of a pack, once written and closed, reads back exactly the written bytes in order, however they were split into writes and reads, with the matching size; the caller's buffers are not retained. Overwriting replaces the whole content and touches no other file.",
   over=["inputs", "histories"], quant="For all byte contents, all splits into writes, all read buffer sizes, one or two generations of the file.",
   why="The tests write one literal string in one piece and read it with ReadAll.",
   files=["pkging/mem/file.go", "pkging/mem/mem.go"],
   mech=[("Write, Close, Read of the in-memory file", "pkging/mem/file.go"), ("Create replaces the entry", "(*mem.Pkger).Create")],
   pkgs=["vmem"],
   runs=[("VerifMemContent", "quick", 60, {"size": 3, "chunks": 2}, {"covers": ["overwritten"]}), ("VerifMemContent", "thorough", 400, {"size": 5, "chunks": 3}, {"covers": ["overwritten"]}),
         ("VerifMemBig", "both", 60, {}), ("VerifMemBig", "quick", 60, {"packed": 1, "sizes": 3}), ("VerifMemBig", "thorough", 100, {"packed": 1, "sizes": 6})],
   bounds=["sizes up to 300001 around the powers of two, with symbolic bytes at the ends, written in pieces of two interleaved writers and read by several methods", "quick: up to 2 writes of up to 3 arbitrary bytes each, per generation, read buffers of 1..3 bytes; thorough: 3 writes of up to 5 bytes"],
   note="All contents and splits within the bound, decided symbolically; larger contents are outside."),
 D(id="P03", title="Open files are independent, and read and seek as files do",
   statement="Every open file of a pack has its own position: reads and seeks on one do not move another, and each follows the contract of an ordinary file (offsets from start, current position and end, an error for a negative one, end of file past the end). An open file keeps the content it was opened with when its path is overwritten or removed.",
   over=["histories", "inputs"], quant="For all contents, all sequences of reads and seeks over several handles, with a change of the path at any point.",
   why="The tests read one handle once, and seek only to the start.",
   files=["pkging/mem/file.go", "pkging/mem/mem.go"],
   mech=[("a fresh File per Open", "(*mem.Pkger).Open"), ("Read and Seek over the content", "pkging/mem/file.go")],
   pkgs=["vmem"],
   runs=[("VerifMemHandles", "quick", 120, {"ops": 2}, {"covers": ["changed while open"]}), ("VerifMemHandles", "thorough", 600, {"ops": 3}, {"covers": ["changed while open"]}), ("VerifMemHandles", "thorough", 200, {"ops": 4, "change": 0, "size": 2}),
         ("VerifMemHandles", "both", 60, {"packed": 1, "size": 1, "ops": 2}), ("VerifMemHandles", "both", 60, {"sub": 1, "ops": 2}), ("VerifMemHandles", "thorough", 300, {"packed": 1, "size": 2, "ops": 3}), ("VerifMemBigSeek", "both", 60, {"sizes": 5})],
   bounds=["also of a pack that was unpacked, and with one handle opened through its directory", "quick: 2 handles, 2 operations, contents of up to 3 bytes, offsets -2..4; thorough: 3 and 4 operations; contents of up to 140000 bytes: a seek to the powers of two, the middle and the end, and up to two bytes beside them"],
   note="All histories within the bound."),
 D(id="P04", title="Creating files and directories adds exactly what was asked for",
   statement="Making a directory path creates the missing directories with the given mode and leaves everything that exists as it was; it fails, changing nothing, where a file is in the way. Creating a file works where its parent exists and fails otherwise, and the rest of the tree, in this and in other modules, is untouched.",
   over=["inputs", "histories"], quant="For all trees and all paths within the bound, in the own and another module.",
   why="The tests create fixed paths in an otherwise empty Pkger.",
   files=["pkging/mem/mem.go"], mech=[("MkdirAll and Create of the memory backend", "(*mem.Pkger).MkdirAll, (*mem.Pkger).Create")],
   pkgs=["vmem"],
   runs=[("VerifMemMkdirAll", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["a file is in the way", "there already"]}),
         ("VerifMemMkdirAll", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemMkdirAll", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemMkdirAll", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemMkdirAll", "thorough", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemMkdirAll", "thorough", 200, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemMkdirAll", "thorough", 300, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemCreate", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["refused", "replaced"]}),
         ("VerifMemCreate", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemCreate", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemCreate", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemCreate", "thorough", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemCreate", "thorough", 200, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemCreate", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemMkdirAll", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemCreate", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemMany", "quick", 60, {"op": 4, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 4, "entries": 5})],
   bounds=["many entries: fixed trees of 20 to 130 (thorough 300) entries, a flat one, one of up to 65 (150) levels and one with names of up to 130 (250) bytes, used at any of four places", "odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: trees of 2 arbitrary entries (one byte names with two modules, two bytes with one), 3 entries with one byte names, a chain of three directories; names of any printable bytes except / \\ : and space; arguments of up to 2-3 elements; thorough: 3 entries with two byte names, 2 in two modules"],
   note="All trees and arguments within the bound."),
 D(id="P05", title="Removing removes the named tree and nothing else",
   statement="Removing a path recursively removes that entry and everything below it in the named module, whatever else has a similar name or the same path in another module, and succeeds where there is nothing. Removing a single path removes one file or empty directory, and refuses, changing nothing, a directory that is not empty and what does not exist.",
   over=["inputs", "histories"], quant="For all trees and all paths within the bound, in the own and another module.",
   why="The tests remove one fixed tree that has no sibling whose name begins alike and no second module.",
   files=["pkging/mem/mem.go"], mech=[("RemoveAll and Remove of the memory backend", "(*mem.Pkger).RemoveAll, (*mem.Pkger).Remove")],
   pkgs=["vmem"],
   runs=[("VerifMemRemoveAll", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["something removed"]}),
         ("VerifMemRemoveAll", "both", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemoveAll", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemoveAll", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemoveAll", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemRemoveAll", "quick", 60, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 0, "wide": 0}), ("VerifMemRemoveAll", "thorough", 200, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 1}), ("VerifMemRemoveAll", "thorough", 200, {"loose": 1, "n": 3, "max": 1, "data": 0, "pkgs": 1, "wide": 0}),
         ("VerifMemRemoveAll", "thorough", 60, {"shape": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemoveAll", "thorough", 100, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemRemoveAll", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemRemoveAll", "thorough", 300, {"n": 4, "max": 2, "data": 0, "pkgs": 0}),
         ("VerifMemRemove", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["removed", "refused"]}),
         ("VerifMemRemove", "both", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemove", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemove", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemove", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemRemove", "quick", 60, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 0, "wide": 0}), ("VerifMemRemove", "thorough", 200, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 1}), ("VerifMemRemove", "thorough", 200, {"loose": 1, "n": 3, "max": 1, "data": 0, "pkgs": 1, "wide": 0}),
         ("VerifMemRemove", "thorough", 60, {"shape": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemRemove", "thorough", 100, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemRemove", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemRemoveAll", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemRemove", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemMany", "quick", 60, {"op": 0, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 0, "entries": 5}),
         ("VerifMemMany", "quick", 60, {"op": 5, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 5, "entries": 5})],
   bounds=["many entries: fixed trees of 20 to 130 (thorough 300) entries, a flat one, one of up to 65 (150) levels and one with names of up to 130 (250) bytes, used at any of four places", "odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: trees of 2 entries in two modules (names of one byte) or one (two bytes), 3 entries with one byte names, a directory with a file and a sibling with two byte names, a chain of three directories, two entries without their directories; names of any printable bytes except / \\ : and space; thorough: 3 and 4 entries with two byte names, two directories with an entry each"],
   note="All trees and arguments within the bound."),
 D(id="P06", title="A walk visits everything below a path once, in order",
   statement="Walking a path visits that entry and every entry below it exactly once, parents before children and siblings in lexical order, with its module-qualified name and true info, and visits nothing else; what is removed before its turn does not by itself end the walk. A function that skips a directory skips that subtree (or the remaining siblings of a file) and no more, and any other error it returns stops the walk and is returned.",
   over=["inputs", "histories"], quant="For all trees within the bound, all roots in them, any answer of the function at any visit; in memory and on disk.",
   why="The tests walk fixed trees without siblings that share a prefix and never skip or fail.",
   files=["pkging/mem/mem.go", "pkging/stdos/stdos.go"], mech=[("Walk of the memory backend", "(*mem.Pkger).Walk"), ("Walk of the disk backend", "(*stdos.Pkger).Walk")],
   pkgs=["vmem"],
   runs=[("VerifMemWalk", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["SkipDir", "error"]}),
         ("VerifMemWalk", "both", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemWalk", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemWalk", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemWalk", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemWalk", "quick", 60, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 0, "wide": 0}), ("VerifMemWalk", "thorough", 200, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 1}), ("VerifMemWalk", "thorough", 200, {"loose": 1, "n": 3, "max": 1, "data": 0, "pkgs": 1, "wide": 0}),
         ("VerifMemWalk", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "disk": 1}), ("VerifMemWalk", "both", 60, {"n": 2, "max": 1, "data": 0, "pkgs": 0, "use": 1}, {"covers": ["removed", "removed another"]}), ("VerifMemWalk", "both", 60, {"n": 2, "max": 1, "data": 0, "pkgs": 0, "use": 1, "disk": 1}),
         ("VerifMemWalk", "thorough", 60, {"shape": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemWalk", "thorough", 100, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemWalk", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemWalk", "thorough", 300, {"n": 4, "max": 2, "data": 0, "pkgs": 0}),
         ("VerifMemWalk", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "disk": 1}),
         ("VerifMemWalk", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemWalk", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0, "disk": 1}), ("VerifMemWide", "both", 60, {}), ("VerifMemWide", "both", 60, {"disk": 1}), ("VerifMemWide", "both", 60, {"packed": 1}), ("VerifMemMany", "quick", 60, {"op": 1, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 1, "entries": 5}),
         ("VerifMemMany", "quick", 60, {"op": 1, "entries": 4, "disk": 1}), ("VerifMemMany", "thorough", 200, {"op": 1, "entries": 5, "disk": 1})],
   bounds=["many entries: fixed trees of 20 to 130 (thorough 300) entries, a flat one, one of up to 65 (150) levels and one with names of up to 130 (250) bytes, used at any of four places", "odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "a directory of 12 and more entries and a deep one, in memory, on disk and unpacked", "quick: trees of 2 entries in two modules (names of one byte) or one (two bytes), 3 entries with one byte names, a directory with a file and a sibling with two byte names, a chain of three directories, two entries without their directories; names of any printable bytes except / \\ : and space; one skip or error at any visit; on disk 2 entries; thorough: 3 and 4 entries with two byte names, two directories with an entry each"],
   note="All trees, roots and answers within the bound."),
 D(id="P07", title="Reading a directory gives exactly its direct children",
   statement="Reading an open directory gives each direct child exactly once, sorted by name in a pack, with its base name and true info, and nothing deeper, beside or from another module; in pieces of any size it continues where it stopped and ends with the end-of-file error. A directory opened again starts over.",
   over=["inputs", "histories"], quant="For all trees within the bound, all directories in them, all sequences of piece sizes; in memory and on disk.",
   why="The tests read one directory of two files in one piece.",
   files=["pkging/mem/file.go", "pkging/stdos/file.go"], mech=[("Readdir of the memory backend", "(*mem.File).Readdir"), ("Readdir of the disk backend", "(*stdos.File).Readdir")],
   pkgs=["vmem"],
   runs=[("VerifMemReaddir", "both", 60, {"n": 2, "max": 1, "data": 1, "pkgs": 1, "depth": 2}, {"covers": ["EOF"]}),
         ("VerifMemReaddir", "both", 60, {"shape": 1, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemReaddir", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemReaddir", "both", 60, {"n": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemReaddir", "both", 60, {"shape": 3, "max": 1, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemReaddir", "quick", 60, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 0, "wide": 0, "calls": 2}), ("VerifMemReaddir", "thorough", 200, {"loose": 1, "n": 2, "max": 1, "data": 0, "pkgs": 1, "calls": 2}), ("VerifMemReaddir", "thorough", 200, {"loose": 1, "n": 3, "max": 1, "data": 0, "pkgs": 1, "wide": 0, "calls": 2}),
         ("VerifMemReaddir", "both", 60, {"n": 2, "max": 2, "data": 0, "pkgs": 0, "disk": 1}),
         ("VerifMemReaddir", "thorough", 60, {"shape": 2, "max": 2, "data": 0, "pkgs": 0, "depth": 2}),
         ("VerifMemReaddir", "thorough", 100, {"n": 2, "max": 2, "data": 1, "pkgs": 1, "depth": 2}),
         ("VerifMemReaddir", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "depth": 3}),
         ("VerifMemReaddir", "thorough", 300, {"n": 4, "max": 2, "data": 0, "pkgs": 0}),
         ("VerifMemReaddir", "thorough", 200, {"n": 3, "max": 2, "data": 0, "pkgs": 0, "disk": 1, "calls": 4}),
         ("VerifMemReaddir", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0}), ("VerifMemReaddir", "both", 60, {"odd": 1, "n": 2, "depth": 2, "data": 0, "pkgs": 0, "disk": 1}), ("VerifMemWide", "both", 60, {}), ("VerifMemWide", "both", 60, {"disk": 1}), ("VerifMemWide", "both", 60, {"packed": 1}), ("VerifMemMany", "quick", 60, {"op": 2, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 2, "entries": 5}),
         ("VerifMemMany", "quick", 60, {"op": 2, "entries": 4, "disk": 1}), ("VerifMemMany", "thorough", 200, {"op": 2, "entries": 5, "disk": 1})],
   bounds=["many entries: fixed trees of 20 to 130 (thorough 300) entries, a flat one, one of up to 65 (150) levels and one with names of up to 130 (250) bytes, used at any of four places", "odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "a directory of 12 and more entries and a deep one, in memory, on disk and unpacked", "quick: trees of 2 entries in two modules (names of one byte) or one (two bytes), 3 entries with one byte names, a directory with a file and a sibling with two byte names, a chain of three directories, two entries without their directories; names of any printable bytes except / \\ : and space; 3 calls with arbitrary counts; on disk 2 entries; thorough: 3 and 4 entries with two byte names, two directories with an entry each"],
   note="All trees and call sequences within the bound."),
 D(id="P08", title="A served directory serves its subtree and nothing outside of it",
   statement="Opening a name through an open directory, or through a directory served over HTTP, gives the entry at that name below the directory, for any spelling of the name, and the not-exist error where there is none; no name reaches anything outside of the directory. What was opened on the way is closed again.",
   over=["inputs", "histories"], quant="For all names within the bound over an alphabet with all characters that have a meaning, nested directories, both backends.",
   why="The tests serve one directory with well-formed URLs.",
   files=["pkging/mem/file.go", "pkging/stdos/file.go", "pkger.go"], mech=[("Open of an open file", "(*mem.File).Open, (*stdos.File).Open"), ("Dir", "pkger.go")],
   pkgs=["vhttp"],
   runs=[("VerifSubtree", "quick", 60, {"n": 3, "disk": 0}, {"covers": ["found", "nothing there"]}), ("VerifSubtree", "quick", 60, {"n": 3, "disk": 1}),
         ("VerifDir", "quick", 60, {"n": 3, "disk": 0}, {"isolate": True, "covers": ["found"]}), ("VerifDir", "quick", 60, {"n": 3, "disk": 1}, {"isolate": True}),
         ("VerifSubtree", "quick", 60, {"n": 3, "packed": 1}), ("VerifDir", "quick", 60, {"n": 2, "packed": 1}, {"isolate": True}),
         ("VerifSubtree", "thorough", 300, {"n": 5, "packed": 1}), ("VerifDir", "thorough", 300, {"n": 4, "packed": 1}, {"isolate": True}),
         ("VerifSubtree", "thorough", 300, {"n": 5, "disk": 0}), ("VerifSubtree", "thorough", 300, {"n": 5, "disk": 1}), ("VerifDir", "thorough", 300, {"n": 5, "disk": 0}, {"isolate": True}), ("VerifDir", "thorough", 300, {"n": 5, "disk": 1}, {"isolate": True}),
         ("VerifSubtree", "both", 60, {"odd": 2, "twice": 0, "disk": 0}), ("VerifSubtree", "both", 60, {"odd": 2, "twice": 0, "disk": 1}), ("VerifSubtree", "both", 60, {"odd": 2, "twice": 0, "packed": 1}), ("VerifDir", "both", 60, {"odd": 2, "twice": 0, "disk": 0}, {"isolate": True, "samples": 24}), ("VerifDir", "both", 60, {"odd": 2, "twice": 0, "disk": 1}, {"isolate": True, "samples": 24})],
   bounds=["odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: names of up to 3 bytes over / . a b \\ and :, two levels of directories; thorough: 5 bytes"],
   note="All names within the bound, on both backends."),
 D(id="P09", title="Packing and unpacking keeps every file as it was",
   statement="Serializing a Pkger and reading it back gives one with exactly the same paths, contents, infos, directory entries and modules; it can be used, changed and serialized again like the original, which serializing does not change. This also holds all the way through the embedded form, and a truncated one is refused.",
   over=["inputs", "histories"], quant="For all trees within the bound with any printable names, any content bytes, one or two modules, once or twice.",
   why="The tests pack one reference application with plain names and compare its HTTP view.",
   files=["pkging/mem/mem.go", "pkging/mem/file.go", "pkging/mem/embed.go", "internal/maps/files.go", "internal/maps/infos.go", "pkging/embed/embed.go"],
   mech=[("JSON of the Pkger and its files", "pkging/mem/mem.go, pkging/mem/file.go"), ("map keys as JSON", "internal/maps"), ("UnmarshalEmbed", "pkging/mem/embed.go")],
   pkgs=["vpack", "vmem"],
   runs=[("VerifPackJSON", "quick", 60, {"wide": 1, "data": 1, "twice": 0}), ("VerifPackJSON", "quick", 30, {"n": 1, "data": 3, "wide": 0, "pkgs": 0}), ("VerifPackJSON", "quick", 30, {"n": 3, "data": 0, "wide": 0, "pkgs": 0}), ("VerifPackJSON", "quick", 30, {"loose": 1, "n": 1, "data": 1, "wide": 0}), ("VerifPackJSON", "thorough", 200, {"loose": 1, "n": 2, "data": 1, "wide": 0}),
         ("VerifUnmarshalEmbed", "quick", 60, {"n": 1, "data": 1, "wide": 0, "pkgs": 0}),
         ("VerifPackJSON", "thorough", 400, {"wide": 1, "data": 2, "twice": 1}), ("VerifPackJSON", "thorough", 300, {"n": 3, "data": 1, "wide": 1}), ("VerifUnmarshalEmbed", "thorough", 400, {"n": 2, "data": 1, "wide": 0}),
         ("VerifPackJSON", "both", 60, {"odd": 1, "n": 2, "data": 0}), ("VerifPackJSON", "both", 60, {"used": 1, "n": 2, "data": 0, "wide": 0, "twice": 0}), ("VerifPackFields", "both", 90, {}), ("VerifMemBig", "both", 60, {"packed": 1, "sizes": 3}), ("VerifMemMany", "quick", 60, {"op": 3, "entries": 4}), ("VerifMemMany", "thorough", 200, {"op": 3, "entries": 5})],
   bounds=["many entries: fixed trees of 20 to 130 (thorough 300) entries, a flat one, one of up to 65 (150) levels and one with names of up to 130 (250) bytes, used at any of four places", "odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: 2 entries (3 without content), names of one arbitrary printable byte, contents of up to 1 (3 for one file) arbitrary bytes, two modules; thorough: contents of 2 bytes, packed twice"],
   note="All trees and contents within the bound; gzip itself is a contract model, compared with the real one natively."),
 D(id="P10", title="The embedded form decodes to the original, or not at all",
   statement="Decoding the embedded form of any content gives that content, and the form is plain text that fits a raw string literal. A truncated or altered form gives an error or the original, never other content.",
   over=["inputs", "fault_sequences"], quant="For all contents within the bound, every truncation and every change of a byte within the bound.",
   why="The tests encode one short string and decode it unharmed.",
   files=["pkging/embed/embed.go"], mech=[("Encode and Decode", "pkging/embed/embed.go")],
   pkgs=["vpack"],
   runs=[("VerifEmbed", "quick", 30, {"len": 4}), ("VerifEmbedBroken", "quick", 90, {"len": 2}, {"covers": ["truncated", "altered", "refused"]}),
         ("VerifEmbed", "thorough", 200, {"len": 24}), ("VerifEmbedBroken", "thorough", 500, {"len": 4, "maxcut": 80, "maxat": 80}),
         ("VerifEmbedBig", "both", 60, {})],
   bounds=["sizes up to 300001 around the powers of two", "quick: contents of up to 4 bytes, any of the last 60 bytes of the form cut off or altered (all of it for short contents); thorough: 24 bytes, the last 80"],
   assume=["The checksum of gzip is idealised: any change of the data is detected."],
   note="All contents and damages within the bound, relative to gzip's contract."),
 D(id="P11", title="On disk, a path means that file of its module, and no other",
   statement="Every operation of the disk backend on any path has the result and the effect that the same operation of the operating system has on the file of that path in the directory of the named module, the current one or one it depends on. Where no module is known nothing succeeds. It touches nothing outside of that directory, reports that file's info, path and module, and leaves no file open.",
   over=["inputs"], quant="For all operations and all paths within the bound, for the own module and for a dependency in another directory.",
   why="The tests use clean paths in the module of the test itself, whose neighbours they do not look at.",
   files=["pkging/stdos/stdos.go", "pkging/stdos/file.go"], mech=[("operations of the disk backend", "pkging/stdos/stdos.go"), ("mapping of a path to a location", "(*stdos.File).Abs, (*stdos.Pkger).Info")],
   pkgs=["vdisk"],
   runs=[("VerifDiskNone", "both", 30, {}), ("VerifDiskOps", "quick", 90, {"n": 3}), ("VerifDiskDep", "quick", 60, {"n": 3}, {"isolate": True, "samples": 16}),
         ("VerifDiskOps", "thorough", 400, {"n": 5}), ("VerifDiskDep", "thorough", 300, {"n": 4}, {"isolate": True}),
         ("VerifDiskOps", "quick", 90, {"n": 3, "link": 1}), ("VerifDiskOps", "thorough", 400, {"n": 4, "link": 1}), ("VerifDiskOps", "both", 90, {"odd": 2, "odds": 17}), ("VerifDiskDep", "both", 60, {"odd": 2, "odds": 17}, {"isolate": True, "samples": 16})],
   bounds=["odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: paths of up to 3 bytes over / . a b \\ after the leading slash, one operation in a fixed tree with neighbours, with or without one of 8 symbolic links in it (to a file, a directory, nothing, itself, in or out of the module) and a link to that; thorough: 5 and 4 bytes"],
   note="Differential against package os on a twin directory, for all paths within the bound."),
 D(id="P12", title="On disk, no error of the file system is lost",
   statement="When a file or directory cannot be read or changed, every operation of the disk backend fails as the operating system's does, with an error of the same class, and a walk hands the error to the function with the entry it belongs to. Nothing is changed and no file stays open.",
   over=["inputs", "fault_sequences"], quant="For all operations and paths within the bound, with permission withdrawn from any one of the entries.",
   why="No test withdraws permissions or makes an operation of the file system fail.",
   files=["pkging/stdos/stdos.go", "pkging/stdos/file.go"], mech=[("error returns of the disk backend", "pkging/stdos/stdos.go, pkging/stdos/file.go")],
   pkgs=["vdisk", "vmem"],
   runs=[("VerifDiskOps", "quick", 90, {"n": 3, "deny": 1}), ("VerifDiskOps", "thorough", 400, {"n": 4, "deny": 1}), ("VerifMemWalk", "both", 60, {"n": 2, "max": 1, "data": 0, "pkgs": 0, "use": 1, "disk": 1}, {"covers": ["removed another"]})],
   bounds=["walks of trees of two entries, of which any that was not visited yet is removed at any visit", "quick: one of three entries denied, paths of up to 3 bytes over / . a b \\; thorough: 4 bytes"],
   note="Differential against package os on a twin directory with the same fault."),
 D(id="P13", title="Layers answer from the topmost one that has the path",
   statement="A stack of Pkgers, wrapped by hand or applied to the package, answers opens and stats from the topmost layer that has the path, falls back to the lower ones otherwise, and fails only where no layer has it; a walk shows the entries of every layer. What is created through the stack is seen through it and leaves the files of lower layers as they were; what is removed is gone from all.",
   over=["inputs", "histories", "configurations"], quant="For all pairs of trees within the bound, in memory over memory or over disk, by Wrap or Apply, all paths.",
   why="The tests apply a single layer with one file.",
   files=["pkging/wrap.go", "apply.go", "pkger.go"], mech=[("Wrap", "pkging/wrap.go"), ("Apply", "apply.go")],
   pkgs=["vlayer"],
   runs=[("VerifLayers", "quick", 60, {"n": 1, "how": 0, "disk": 0}), ("VerifLayers", "quick", 60, {"n": 1, "how": 1, "disk": 1}, {"isolate": True, "samples": 24}),
         ("VerifLayersWrite", "quick", 60, {"n": 1, "how": 0, "disk": 0}), ("VerifLayersWrite", "quick", 60, {"n": 1, "how": 1, "disk": 1}, {"isolate": True, "samples": 24}),
         ("VerifLayers", "quick", 60, {"n": 1, "how": 0, "disk": 1}), ("VerifLayers", "both", 60, {"n": 2, "how": 0, "disk": 1, "flip": 1, "data": 0}), ("VerifLayersWrite", "both", 60, {"n": 2, "how": 0, "disk": 1, "flip": 1, "data": 0}), ("VerifLayers", "both", 60, {"n": 2, "how": 0, "disk": 0, "data": 0}), ("VerifLayersWrite", "both", 60, {"n": 2, "how": 0, "disk": 0, "data": 0}), ("VerifLayers", "thorough", 200, {"n": 3, "how": 0, "disk": 1, "flip": 1}),
         ("VerifLayers", "quick", 60, {"n": 1, "how": 2, "disk": 0}), ("VerifLayersWrite", "quick", 60, {"n": 1, "how": 2, "disk": 0}), ("VerifLayersWrite", "thorough", 200, {"n": 1, "how": 3, "disk": 1}, {"isolate": True}), ("VerifLayers", "thorough", 200, {"n": 1, "how": 3, "disk": 1}, {"isolate": True}), ("VerifLayers", "thorough", 300, {"n": 2, "how": 2, "disk": 0}),
         ("VerifLayers", "thorough", 400, {"n": 2, "how": 0, "disk": 0}, {"covers": ["from the lower layer"]}), ("VerifLayersWrite", "thorough", 400, {"n": 2, "how": 0, "disk": 1}), ("VerifLayers", "thorough", 300, {"n": 2, "how": 1, "disk": 1}, {"isolate": True}),
         ("VerifLayers", "both", 60, {"odd": 1, "n": 1, "how": 0, "disk": 0}), ("VerifLayersWrite", "both", 60, {"odd": 1, "n": 1, "how": 0, "disk": 0})],
   bounds=["odd names: 50 fixed ones with every kind of character, form and length that something treats specially (escapes, unicode, dots, spaces inside, very long, reserved)", "quick: 1 entry in each of two or three layers, nested either way; thorough: 2 entries"],
   note="All pairs of trees within the bound."),
 D(id="P14", title="One pack may be used by many at once",
   statement="Concurrent readers of a pack see what a single reader sees, from the first use on; concurrent changes of different parts of the tree are all kept and do not disturb readers of others; layers applied while others read are neither lost nor seen half. There is no data race, deadlock or crash in any interleaving.",
   over=["schedules", "inputs"], quant="For all pairs of operations and all their interleavings (quick: pairs and triples of readers; thorough: triples).",
   why="The tests are sequential; a race needs a particular interleaving.",
   files=["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go", "internal/maps/infos.go", "pkger.go", "apply.go"],
   mech=[("maps that are safe for concurrent use", "internal/maps"), ("the lock of the current stack", "pkger.go, apply.go"), ("locks of a file", "pkging/mem/file.go")],
   pkgs=["vconc"],
   runs=[("VerifConcReaders", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "repeat": 5}), ("VerifConcReaders", "both", 90, {"third": 1}, {"preempt": -2, "race": True, "samples": 8, "repeat": 3}),
         ("VerifConcReaders", "both", 60, {"unpacked": 0}, {"preempt": -2, "race": True, "samples": 8, "repeat": 5}),
         ("VerifConcFirstUse", "both", 90, {}, {"preempt": -2, "race": True, "samples": 8, "repeat": 5}), ("VerifConcMix", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "repeat": 5}),
         ("VerifConcApply", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "isolate": True}), ("VerifConcFresh", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "isolate": True}),
         ("VerifConcMix", "thorough", 300, {"third": 1}, {"preempt": -2, "race": True, "samples": 16, "repeat": 5}), ("VerifConcFirstUse", "thorough", 800, {"third": 1}, {"preempt": -2, "race": True, "samples": 16, "repeat": 5}),
         ("VerifConcWriters", "both", 90, {}, {"preempt": -2, "race": True, "samples": 8, "repeat": 3}), ("VerifConcLayers", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "repeat": 3}), ("VerifConcDisk", "both", 60, {}, {"preempt": -2, "race": True, "samples": 8, "isolate": True})],
   bounds=["two writers of different subtrees with two operations each, two users of a stack of layers, two users of the disk backend with a dependency", "quick: two goroutines (readers also three), one operation each (7 readers, 5 writers, 6 first uses); thorough: three goroutines", "every schedule of these, with any number of switches: the solver decides over the orders of the memory accesses and synchronisation operations of each trace which other reads-from classes exist, each is executed, until it finds no further one; in each class it is asked for two unordered conflicting accesses and for a deadlock", "outside: a reader of the very file that is being written or removed"],
   note="All schedules of the stated goroutines and operations, sequentially consistent, with race detection."),
 D(id="P15", title="Every static use of a file is found, and nothing else is",
   statement="Each call of a declaring function (open, stat, walk, dir, include, create, mkdir) whose path is a string literal, or a constant of the file that is declared as one, is found exactly once, with its path, location and line, in its JSON too, wherever the call stands in the source. Comments, strings, other packages' functions and paths that are not constant declare nothing, and no valid source makes the parser panic.",
   over=["programs"], quant="For all programs within a grammar of call sites: 7 functions, 12 forms of the argument, 15 places, 6 kinds of noise, symbolic paths.",
   why="The tests parse one reference application with a handful of forms.",
   files=["parser/source.go", "parser/parser.go"], mech=[("walk over the syntax tree", "(*ParsedSource).parse"), ("resolution of constants", "(*ParsedSource).valueIdent")],
   pkgs=["vparse"],
   runs=[("VerifParserCalls", "quick", 120, {"sites": 1}, {"isolate": True, "samples": 24}), ("VerifParserCalls", "both", 120, {"sites": 1, "spell": 4, "forms": 2, "places": 1, "noises": 1, "json": 1}, {"isolate": True, "samples": 24}), ("VerifParserCalls", "both", 60, {"sites": 1, "forms": 2, "places": 1, "noises": 1, "json": 1, "loc": 1}, {"isolate": True, "samples": 24}), ("VerifParserCalls", "thorough", 700, {"sites": 2, "max": 1}, {"isolate": True}),
         ("VerifParserMany", "quick", 60, {"entries": 4}, {"isolate": True, "samples": 8}), ("VerifParserMany", "thorough", 200, {"entries": 5}, {"isolate": True})],
   bounds=["20 to 130 (thorough 300) calls in one file, one function, 20 lines apart, or in as many files or folders", "spellings: every path of up to 4 symbolic bytes below the root (any byte but quotes), with or without the module qualifier; paths that are, or look like, locations of the module or of the package with the call", "quick: one call site of every combination, with or without one more at package level; thorough: two sites as far as the time goes", "outside: aliased imports, concatenated or parenthesised arguments, constants of other files"],
   note="All programs of the grammar; go/parser itself is executed symbolically."),
 D(id="P16", title="File infos keep name, size, mode and time",
   statement="A copied file info, and one that went through serialization, reports the name, size, mode, kind and modification time, to the nanosecond, of the original.",
   over=["inputs"], quant="For all names, sizes, modes and times within the bound.",
   why="The tests use one time without a fraction and one mode.",
   files=["pkging/file_info.go", "pkging/mod_time.go"], mech=[("NewFileInfo and its JSON", "pkging/file_info.go"), ("the time format", "pkging/mod_time.go")],
   pkgs=["vpack"],
   runs=[("VerifFileInfo", "quick", 30, {"field": 0}), ("VerifFileInfo", "quick", 30, {"field": 1}), ("VerifFileInfo", "quick", 60, {"field": 2}), ("VerifFileInfo", "quick", 60, {"field": 3}),
         ("VerifFileInfo", "thorough", 60, {"field": 0}), ("VerifFileInfo", "thorough", 200, {"field": 1, "maxsize": 1000}), ("VerifFileInfo", "thorough", 200, {"field": 2}), ("VerifFileInfo", "thorough", 300, {"field": 3, "maxns": 99})],
   bounds=["names of 2 printable bytes; 600 sizes around the powers of two; all permission bits with 6 kinds; times in 4 eras with the first or last digits of the nanoseconds, two zones"],
   note="All values within the bound."),
 D(id="P17", title="Every source file of the module is searched",
   statement="The packing tool looks for declarations in every Go file of every folder of a module, however its name resembles an ignored one; it passes over exactly the folders that start with a dot or an underscore or are called vendor, node_modules or testdata, with all below. A source file it cannot read or parse is an error, never left out silently.",
   over=["inputs", "programs", "fault_sequences"], quant="For all folder names within the bound, nested or side by side, with a broken or unreadable file in any of them.",
   why="The tests search one fixed application without such folders or broken files.",
   files=["parser/parser.go"], mech=[("walk over the folders and the names it ignores", "(*Parser).parse"), ("parsing of one folder", "(*Parser).ParseDir")],
   pkgs=["vparse"],
   runs=[("VerifParserSearch", "both", 60, {"max": 2, "two": 0}, {"isolate": True, "samples": 24, "covers": ["ignored", "searched", "refused"]}), ("VerifParserSearch", "quick", 60, {"max": 1, "innerspecial": 0}, {"isolate": True, "samples": 24}), ("VerifParserSearch", "quick", 60, {"max": 1, "outerspecial": 0}, {"isolate": True, "samples": 24}),
         ("VerifParserSearch", "thorough", 400, {"max": 2}, {"isolate": True}),
         ("VerifParserMany", "quick", 60, {"entries": 4}, {"isolate": True, "samples": 8}), ("VerifParserMany", "thorough", 200, {"entries": 5}, {"isolate": True})],
   bounds=["up to 130 (thorough 300) folders, 65 (150) levels", "two folders with Go files, nested or side by side; names of up to 2 bytes over letters, digits, _ . -, the three ignored names, and those with one arbitrary byte added at either end or replaced in three places; quick: the inner or the outer folder of arbitrary one byte names"],
   note="All folder names within the bound."),
 D(id="P18", title="What is packed is exactly what is declared",
   statement="The files to pack are the declared ones with everything below declared directories, from the program or the command line, each exactly once, in order of their paths, each with its own module, location and path, also inside of nested modules. Paths the program creates itself are left out and need not exist; any other declared path that does not exist is an error.",
   over=["programs", "inputs"], quant="For all pairs of calls of the seven functions with files, directories, the root and a missing path, all names within the bound, with or without a nested module.",
   why="The tests list the files of one fixed application.",
   files=["parser/decl.go", "parser/open.go", "parser/walk.go", "parser/include.go", "parser/http.go", "parser/stat.go", "parser/create.go", "parser/mkdir.go"],
   mech=[("union of the declarations", "(Decls).Files"), ("files of a declaration", "(WalkDecl).Files, (OpenDecl).Files"), ("paths a program creates", "VirtualPaths")],
   pkgs=["vparse"],
   runs=[("VerifParserFiles", "both", 60, {"max": 1, "free": 0, "calls": 2}, {"isolate": True, "samples": 16, "covers": ["missing", "nested"]}), ("VerifParserFiles", "both", 60, {"max": 1, "calls": 1}, {"isolate": True, "samples": 16}),
         ("VerifParserFiles", "both", 60, {"max": 1, "free": 0, "calls": 1, "odd": 1}, {"isolate": True, "samples": 16}),
         ("VerifParserFiles", "thorough", 300, {"max": 2, "calls": 1}, {"isolate": True}), ("VerifParserFiles", "thorough", 400, {"max": 1, "calls": 2}, {"isolate": True}),
         ("VerifParserFilesMany", "quick", 60, {"entries": 3}, {"isolate": True, "samples": 8}), ("VerifParserFilesMany", "thorough", 200, {"entries": 5}, {"isolate": True})],
   bounds=["trees of 20 to 70 (thorough 300) entries, flat, deep or with long names", "a tree of two directories and three files with arbitrary names of one letter or digit (thorough: two), two calls (one where the names may collide); a file name that is one of 50 odd ones", "outside: symbolic links, module dependencies (P20 has one)"],
   note="All programs and names within the bound."),
 D(id="P19", title="Packing that cannot be completed fails and leaves nothing broken",
   statement="When a declared file or directory cannot be read or has vanished, or the output cannot be written completely, packing reports an error, leaves no incomplete generated file behind and no file open. When it reports success the generated file is complete.",
   over=["fault_sequences", "inputs"], quant="For each kind of fault at each place within the bound: unreadable, vanished and dangling inputs, unwritable output, a full disk at every step of 50 bytes from the start and at each of the last bytes, a failing writer.",
   why="No test makes packing fail.",
   files=["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go", "pkging/mem/add.go"], mech=[("writing of the generated file", "cmds.Package"), ("collecting the files", "pkgutil.Stuff, (*mem.Pkger).Add")],
   pkgs=["vpipe"],
   runs=[("VerifPackFaults", "quick", 60, {"size": 0, "fns": 2, "maxlimit": 4}, {"isolate": True, "samples": 24, "covers": ["failed", "packed"]}), ("VerifPackFaults", "thorough", 400, {"size": 1, "fns": 5, "maxlimit": 6}, {"isolate": True, "covers": ["failed", "packed"]})],
   bounds=["one declaration of 7 paths in a program of two modules, one fault; contents of up to 1 byte (thorough)"],
   note="All faults of the list, for all programs within the bound."),
 D(id="P20", title="A packed program sees the files it saw on disk",
   statement="Packing a program produces one valid Go file of the package of its directory that holds a pack of the declared files, of the own module, of modules nested in it (which have a path in both) and of dependencies, and of nothing else. Every operation on that pack (stat, open, read, list, walk) gives for every packed path the content, info, path and module that the disk gives.",
   over=["programs", "inputs"], quant="For all contents, all declared paths and functions, with or without flags and an earlier generated file.",
   why="The tests pack one application and compare a few texts.",
   files=["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go", "pkging/mem/add.go", "parser/parser.go", "parser/source.go", "pkging/mem/mem.go"], mech=[("the command", "(*packCmd).Exec, Package"), ("copying files into a pack", "(*mem.Pkger).Add"), ("reading them again", "mem.UnmarshalEmbed")],
   pkgs=["vpipe"],
   runs=[("VerifPipeline", "quick", 60, {"size": 1, "cmd": 1, "fns": 5}, {"isolate": True, "samples": 16}), ("VerifPipeline", "quick", 60, {"size": 2, "fns": 1}, {"isolate": True, "samples": 16}), ("VerifPipeline", "quick", 60, {"size": 0, "cmd": 1, "calls": 2, "fns": 0}, {"isolate": True, "samples": 16}),
         ("VerifPipeline", "both", 60, {"size": 0, "fns": 1, "flag": 0, "odd": 1}, {"isolate": True, "samples": 16}), ("VerifPipeline", "thorough", 200, {"size": 0, "fns": 0, "cmd": 1, "odd": 1}, {"isolate": True}),
         ("VerifPipeline", "both", 60, {"size": 0, "fns": 1, "cmd": 1, "layout": 1}, {"isolate": True, "samples": 16}), ("VerifPipeline", "both", 60, {"size": 0, "fns": 1, "layout": 2}, {"isolate": True, "samples": 16}), ("VerifPipeline", "both", 60, {"size": 0, "fns": 2, "layout": 3}, {"isolate": True, "samples": 16}), ("VerifPipeline", "thorough", 200, {"size": 1, "fns": 5, "cmd": 1, "layout": 3}, {"isolate": True}),
         ("VerifPipeline", "thorough", 200, {"size": 1, "fns": 5, "layout": 1}, {"isolate": True}), ("VerifPipeline", "thorough", 200, {"size": 1, "fns": 5, "cmd": 1, "layout": 2}, {"isolate": True}),
         ("VerifPipeline", "thorough", 300, {"size": 2, "cmd": 1}, {"isolate": True}), ("VerifPipeline", "thorough", 300, {"size": 0, "calls": 2, "fns": 2}, {"isolate": True}), ("VerifPipeline", "thorough", 300, {"size": 1, "size2": 1, "fns": 1}, {"isolate": True}),
         ("VerifPipeline", "quick", 60, {"size": 0, "fns": 1, "many": 1, "entries": 3}, {"isolate": True, "samples": 8}), ("VerifPipeline", "quick", 60, {"size": 0, "fns": 1, "flag": 0, "big": 3}, {"isolate": True, "samples": 8}),
         ("VerifPipeline", "thorough", 200, {"size": 0, "fns": 1, "many": 1, "entries": 5}, {"isolate": True}), ("VerifPipeline", "thorough", 300, {"size": 0, "fns": 1, "cmd": 1, "big": 14}, {"isolate": True})],
   bounds=["trees of 20 to 70 (thorough 300) entries, flat, deep or with long names; files of up to 65537 (thorough 300001) bytes, three of them any", "a program of two modules with 9 files and directories, one declaration (thorough: two) of 7 paths by 5 functions; a file of up to 2 arbitrary bytes; file names that are one of 50 odd ones; a root without Go files, in folders of five names of which four are no names in Go; paths in both modules that look like locations; the second module beside or in a folder of the first"],
   note="All contents and declarations within the bound, through the whole tool."),
 D(id="P21", title="Adding files to a pack copies them",
   statement="Adding open files and directories to a pack stores each, with everything below a directory, under its module and its path in that module, with its content and info, however it was opened; adding again replaces. A link to a file is added as that file, and one of a module nested in the program's also under its path there. What was in the pack otherwise stays as it was, the disk is left alone, the files can still be closed, and an entry that cannot be read is an error.",
   over=["inputs", "histories", "fault_sequences"], quant="For all names within the bound, all pairs of files and directories of a program, a module in it and one it depends on, opened by absolute or relative names, added at once or one by one, to an empty or a filled pack, with or without an unreadable directory.",
   why="The tests add one file and one directory, opened through the disk backend.",
   files=["pkging/mem/add.go", "pkging/mem/mem.go"], mech=[("copying into the pack", "(*mem.Pkger).Add"), ("the module of a file", "(*mem.Pkger).Add, pkging/mem/mem.go")],
   pkgs=["vadd"],
   runs=[("VerifAdd", "both", 60, {"files": 1, "max": 1}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 2, "max": 0}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 1, "rel": 1, "max": 0}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 2, "max": 0, "deny": 1}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 1, "max": 0, "odd": 1}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 1, "max": 0, "again": 1}, {"samples": 16}), ("VerifAdd", "both", 60, {"files": 2, "max": 0, "gone": 1}, {"samples": 16}), ("VerifAdd", "both", 60, {"files": 1, "max": 0, "like": 1}, {"samples": 16}), ("VerifAdd", "both", 60, {"files": 1, "max": 1, "link": 1}, {"samples": 24}), ("VerifAdd", "both", 60, {"files": 1, "max": 1, "nested": 1}, {"samples": 24}), ("VerifAdd", "thorough", 100, {"files": 2, "max": 0, "nested": 1}), ("VerifAdd", "thorough", 100, {"files": 2, "max": 1, "link": 1}),
         ("VerifAdd", "thorough", 200, {"files": 3, "max": 0}), ("VerifAdd", "thorough", 200, {"files": 2, "max": 2}), ("VerifAdd", "thorough", 200, {"files": 2, "rel": 1, "max": 1}),
         ("VerifAdd", "quick", 60, {"files": 1, "max": 0, "many": 1, "entries": 3}, {"samples": 8}), ("VerifAdd", "quick", 60, {"files": 1, "max": 0, "big": 4}, {"samples": 8}),
         ("VerifAdd", "thorough", 300, {"files": 1, "max": 0, "many": 1, "entries": 5}), ("VerifAdd", "thorough", 200, {"files": 1, "max": 0, "big": 14})],
   bounds=["trees of 20 to 70 (thorough 300) entries, flat, deep or with long names; files of up to 131073 (thorough 300001) bytes, three of them any", "two modules with 12 files and directories, one file name of one arbitrary byte or an odd one, or paths in the modules that look like locations; contents of up to one byte; one or two added files (thorough: three, names of two bytes)", "outside: files at another offset than the start"],
   note="All names and arguments within the bound."),
 D(id="P22", title="The command line reports what the library sees",
   statement="The commands that list the files to pack and that report parsed paths, modules, infos and declarations print exactly what the library answers for their arguments, from the disk or from a pack, in the order of the arguments, and as valid JSON where it is JSON. They fail, printing nothing false, where the library fails, and change nothing. A dump of a Pkger prints every path with its info, and fails when it is cut short.",
   over=["inputs", "programs"], quant="For all arguments within the bound to all five reporting commands, in all programs of the grammar.",
   why="No test runs the reporting commands.",
   files=["cmd/pkger/cmds/list.go", "cmd/pkger/cmds/path.go", "cmd/pkger/cmds/info.go", "cmd/pkger/cmds/stat.go", "cmd/pkger/cmds/parse.go", "cmd/pkger/cmds/pack.go", "pkging/pkgutil/dump.go"],
   mech=[("the reporting commands", "cmd/pkger/cmds/*.go"), ("choice of the command", "(*packCmd).Route, Exec")],
   pkgs=["vpipe", "vpack"],
   runs=[("VerifList", "both", 60, {"calls": 1, "size": 0}, {"isolate": True, "samples": 24, "covers": ["missing"]}), ("VerifList", "both", 60, {"calls": 2, "size": 0, "fns": 1}, {"isolate": True, "samples": 16}),("VerifList", "both", 60, {"calls": 1, "size": 0, "fns": 1, "layout": 1}, {"isolate": True, "samples": 16}), ("VerifList", "thorough", 60, {"calls": 1, "size": 0, "layout": 2}, {"isolate": True}), 
         ("VerifReports", "both", 60, {"calls": 0, "n": 2, "size": 1}, {"isolate": True, "samples": 24}), ("VerifReports", "both", 60, {"calls": 0, "n": 2, "size": 1, "packed": 1}, {"isolate": True, "samples": 24}), ("VerifReports", "both", 60, {"calls": 1, "n": 0, "size": 0, "fns": 5}, {"isolate": True, "samples": 24}),
         ("VerifReports", "thorough", 300, {"calls": 0, "n": 4, "size": 0}, {"isolate": True}), ("VerifReports", "thorough", 300, {"calls": 2, "n": 0, "size": 0, "fns": 3}, {"isolate": True}),
         ("VerifDump", "both", 60, {"n": 2, "data": 1, "pkgs": 0}), ("VerifDump", "both", 60, {"n": 2, "data": 0, "pkgs": 0, "odd": 1}), ("VerifDump", "both", 60, {"n": 2, "data": 0, "pkgs": 0, "disk": 1}), ("VerifDump", "both", 60, {"n": 2, "data": 0, "pkgs": 0, "disk": 1, "deny": 1}),
         ("VerifList", "quick", 60, {"calls": 1, "size": 0, "fns": 1, "many": 1, "entries": 3}, {"isolate": True, "samples": 8}), ("VerifList", "thorough", 200, {"calls": 1, "size": 0, "many": 1, "entries": 5}, {"isolate": True}),
         ("VerifDump", "quick", 60, {"many": 1, "entries": 4}), ("VerifDump", "both", 60, {"many": 1, "entries": 4, "disk": 1}), ("VerifDump", "thorough", 200, {"many": 1, "entries": 5})],
   bounds=["trees of 20 to 70 entries for list, 130 for the dump (thorough 300)", "dumps of trees of two entries", "up to two arguments: paths of up to 3 bytes over / . a and backslash, 3 modules, 6 files; one declaration (thorough: two) of 7 paths by 5 functions"],
   note="All arguments within the bound, through the whole tool."),
 D(id="P23", title="Over HTTP, a pack is served as its directory would be",
   statement="The standard file server gives, for a directory of a Pkger, on disk or packed, the same answer as for that directory itself: status, headers, listing, index page, content, ranges and conditions, for every path and its odd names. Nothing outside of it is served and no file stays open.",
   over=["inputs"], quant="For all paths within the bound, two methods, ten kinds of headers, all contents within the bound, with and without index pages, with unreadable entries on disk, through the package, a Pkger's open directory, before and after packing.",
   why="The tests ask for two well-formed URLs.",
   files=["pkger.go", "pkging/stdos/file.go", "pkging/mem/file.go", "pkging/mem/add.go", "pkging/file_info.go", "pkging/mod_time.go"], mech=[("Dir", "pkger.go"), ("files as http.File", "pkging/stdos/file.go, pkging/mem/file.go")],
   pkgs=["vserve"],
   runs=[("VerifServe", "both", 60, {"n": 3}, {"isolate": True, "samples": 24}), ("VerifServe", "both", 60, {"n": 2, "packed": 1}, {"isolate": True, "samples": 24}), ("VerifServe", "both", 60, {"n": 3, "len": 1, "packed": 2}, {"isolate": True, "samples": 24}),
         ("VerifServe", "both", 60, {"n": 1, "big": 1, "packed": 2, "len": 1}, {"isolate": True, "samples": 16}), ("VerifServe", "both", 60, {"n": 1, "big": 1, "len": 1}, {"isolate": True, "samples": 16}), ("VerifServe", "both", 60, {"n": 2, "len": 0, "deny": 1}, {"isolate": True, "samples": 24}),
         ("VerifServe", "both", 60, {"odd": 1, "len": 0}, {"isolate": True, "samples": 24}), ("VerifServe", "both", 60, {"odd": 1, "len": 0, "packed": 2}, {"isolate": True, "samples": 24}), ("VerifServe", "both", 60, {"n": 1, "len": 0, "times": 1}, {"isolate": True, "samples": 16}), ("VerifServe", "both", 60, {"n": 1, "len": 0, "times": 1, "packed": 2}, {"isolate": True, "samples": 16}),
         ("VerifServe", "thorough", 300, {"n": 5}, {"isolate": True}), ("VerifServe", "thorough", 300, {"n": 5, "packed": 2}, {"isolate": True}),
         ("VerifServe", "both", 60, {"len": 0, "long": 4}, {"samples": 16}), ("VerifServe", "quick", 60, {"len": 0, "long": 2, "packed": 2}, {"samples": 16}), ("VerifServe", "thorough", 300, {"len": 0, "long": 14, "packed": 2}),
         ("VerifServe", "both", 60, {"len": 0, "many": 1, "entries": 3}, {"samples": 16}), ("VerifServe", "both", 60, {"len": 0, "many": 1, "entries": 3, "packed": 2}, {"samples": 16}), ("VerifServe", "thorough", 300, {"len": 0, "many": 1, "entries": 5})],
   bounds=["directories of 20 to 70 (thorough 300) entries; files of up to 131073 (thorough 300001) bytes", "a directory with 6 files and directories; paths of up to 3 bytes (thorough: 5) over / . a b, eight fixed and the odd ones; a file of up to 2 arbitrary bytes, or of 514", "outside: several ranges at once (the boundary between them is random)"],
   note="net/http itself is executed symbolically; the oracle is http.Dir on the directory."),
 D(id="P24", title="Any history of operations leaves what a file system would",
   statement="Whatever sequence of creating, making, removing, opening and closing is done to a Pkger, with packing and unpacking in between, each operation succeeds exactly when it would in a file system, says not-exist exactly of what is not there, and at the end the tree, its listings and contents, and what files that stayed open read and write, are as there.",
   over=["histories", "inputs"], quant="For all histories of seven operations within the bound, all paths and names within the bound, in memory and on disk.",
   why="The tests do single operations on fresh Pkgers; state that a history leaves behind needs the particular history.",
   files=["pkging/mem/mem.go", "pkging/mem/file.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go", "internal/maps/files.go"], mech=[("operations of both backends", "pkging/mem/mem.go, pkging/stdos/stdos.go"), ("files", "pkging/mem/file.go, pkging/stdos/file.go")],
   pkgs=["vmem"],
   runs=[("VerifHistory", "both", 90, {"ops": 3, "kinds": 6}, {"covers": ["kept open"]}), ("VerifHistory", "both", 90, {"ops": 3, "kinds": 7, "data": 0}, {"covers": ["packed"]}), ("VerifHistory", "both", 90, {"ops": 3, "kinds": 6, "disk": 1}), ("VerifHistory", "both", 90, {"ops": 2, "kinds": 6, "odd": 1, "odds": 17, "data": 0}),
         ("VerifHistory", "thorough", 400, {"ops": 4, "kinds": 4, "data": 0, "depth": 2}), ("VerifHistory", "thorough", 400, {"ops": 4, "kinds": 6, "data": 0, "depth": 1}), ("VerifHistory", "thorough", 300, {"ops": 3, "kinds": 6, "depth": 3, "data": 0})],
   bounds=["quick: three operations, paths of up to two elements of one arbitrary byte, contents of one byte; thorough: four operations, or three elements"],
   note="All histories within the bound against a reference file system."),
]
