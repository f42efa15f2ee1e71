From b62de6b47951af0371af96a295140ed9f063f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/41] fix: mem: RemoveAll removes the named tree only

RemoveAll compared names by prefix and ignored the package, so removing
/foo also removed /foobar, and the files of every other package below /foo.
---
 pkging/mem/mem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..8fab110 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -47,6 +47,11 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 	return info, nil
 }
 
+// within reports whether name is dir, or lies below it.
+func within(dir, name string) bool {
+	return name == dir || strings.HasPrefix(name, strings.TrimSuffix(dir, "/")+"/")
+}
+
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
 	return f.Here.Parse(p)
@@ -75,7 +80,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if key.Pkg == pt.Pkg && within(pt.Name, key.Name) {
 			fx.files.Delete(key)
 		}
 		return true
-- 
2.43.0


From 8bf2891373598357c67e94d08447660a666c49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 02/41] fix: mem: Remove refuses a directory that is not empty

Remove is documented to remove a file or an empty directory; it removed the
directory entry and left its children behind, unreachable.
---
 pkging/mem/mem.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 8fab110..ec9b458 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -68,6 +68,12 @@ func (fx *Pkger) Remove(name string) error {
 		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
 	}
 
+	for _, k := range fx.files.Keys() {
+		if k != pt && k.Pkg == pt.Pkg && within(pt.Name, k.Name) {
+			return &os.PathError{"remove", pt.String(), fmt.Errorf("directory not empty")}
+		}
+	}
+
 	fx.files.Delete(pt)
 	return nil
 }
-- 
2.43.0


From 24cc27926212d2be22767c43ff5108e08231c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 03/41] fix: mem: Walk follows the rules of filepath.Walk

Walk took every name with the root as a string prefix (walking /foo visited
/foobar), visited the entries of a directory after siblings such as "a-b",
and a SkipDir hid every later name that started with the skipped one.
---
 pkging/mem/mem.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index ec9b458..54d6ebc 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -224,15 +225,23 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		return err
 	}
 
-	skip := "!"
+	// order by path elements, as filepath.Walk does: a directory's content
+	// follows it immediately, and "/a/b" comes before "/a-b"
+	sort.Slice(keys, func(i, j int) bool {
+		a := strings.ReplaceAll(keys[i].Name, "/", "\x00")
+		b := strings.ReplaceAll(keys[j].Name, "/", "\x00")
+		return a < b
+	})
+
+	skip := ""
 	for _, k := range keys {
 		if k.Pkg != pt.Pkg {
 			continue
 		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !within(pt.Name, k.Name) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if len(skip) > 0 && within(skip, k.Name) {
 			continue
 		}
 
@@ -250,8 +259,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
 			skip = k.Name
+			if !fi.IsDir() {
+				// skip what is left of the directory
+				skip = path.Dir(k.Name)
+			}
+			if within(skip, pt.Name) {
+				return nil
+			}
 			continue
 		}
 
-- 
2.43.0


From 461c48f4075c52abb8dfdf24692237a421876c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:41 +0000
Subject: [PATCH 04/41] fix: mem: MkdirAll leaves what exists alone and keeps
 the package

MkdirAll replaced existing directories, turned existing files into
directories, created the parents of "pkg:/a/b" in the current package, gave
the root directory an empty name and its directories a mode without the
directory bit.
---
 pkging/mem/mem.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 54d6ebc..8230b08 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -140,27 +140,44 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
+			return err
+		}
+		if !fi.IsDir() {
+			return &os.PathError{"mkdir", pt.String(), fmt.Errorf("not a directory")}
+		}
+		return nil
+	}
+
+	her := fx.Here
+	if info, err := fx.Info(pt.Pkg); err == nil {
+		her = info
+	}
+
 	dir, name := path.Split(pt.Name)
 
 	if dir != "/" {
+		dir = here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}.String()
 		if err := fx.MkdirAll(dir, perm); err != nil {
 			return err
 		}
 	}
 
 	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+		name = filepath.Base(her.Dir)
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    perm | os.ModeDir,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From 63fd34cde6a949fd850ff25bc0ab7b564966eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 05/41] fix: mem: Create checks the parent in the file's own
 package

Create looked for the parent directory in the current package, accepted a
file as the parent, and replaced an existing directory with a file.
---
 pkging/mem/mem.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 8230b08..2961bd5 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -109,11 +109,19 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
+	dir := path.Dir(pt.Name)
 	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+		fi, err := fx.Stat(here.Path{Pkg: pt.Pkg, Name: dir}.String())
+		if err != nil {
 			return nil, err
 		}
+		if !fi.IsDir() {
+			return nil, &os.PathError{"create", pt.String(), fmt.Errorf("not a directory")}
+		}
+	}
+
+	if fi, err := fx.Stat(pt.String()); err == nil && fi.IsDir() {
+		return nil, &os.PathError{"create", pt.String(), fmt.Errorf("is a directory")}
 	}
 
 	f := &File{
-- 
2.43.0


From 35de2a45940d57042d0bd12d47d208311442076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:43 +0000
Subject: [PATCH 06/41] fix: mem: an empty file reads as empty

Read on an empty file failed with "unable to read" instead of io.EOF, so that
ioutil.ReadAll and io.Copy failed on it, and Seek ignored its arguments.
---
 pkging/mem/file.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..9a61727 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -29,9 +29,13 @@ type File struct {
 	pkging pkging.Pkger
 }
 
+func (f *File) isDir() bool {
+	return f.info != nil && f.info.IsDir()
+}
+
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -70,7 +74,7 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
-- 
2.43.0


From c35fc44c6042446f3d149122472fac4e8049bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 07/41] fix: mem: Readdir returns the direct children, in
 pieces if asked to

Readdir reported entries below missing intermediate directories as children,
started over on every call, and with n > 0 never reached io.EOF: a loop
reading a directory in pieces did not end.
---
 pkging/mem/file.go | 52 ++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 9a61727..9ea3766 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -27,6 +27,9 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+
+	entries []os.FileInfo // of a directory, once read
+	dirpos  int           // entries Readdir has returned
 }
 
 func (f *File) isDir() bool {
@@ -127,47 +130,52 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
+	if f.entries == nil {
+		entries, err := f.readdir()
 		if err != nil {
-			return err
+			return nil, err
 		}
+		f.entries = entries
+	}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
+	infos := f.entries[f.dirpos:]
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
+		}
+		if len(infos) > count {
+			infos = infos[:count]
 		}
+	}
+	f.dirpos += len(infos)
+	return infos, nil
+}
 
-		if root == path {
-			return nil
+// readdir returns the entries directly below the file.
+func (f *File) readdir() ([]os.FileInfo, error) {
+	infos := []os.FileInfo{}
+	root := f.Path()
+	err := f.pkging.Walk(root.String(), func(name string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
 		}
 
-		pt, err := f.pkging.Parse(path)
+		pt, err := f.pkging.Parse(name)
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+		if pt == root || path.Dir(pt.Name) != root.Name {
 			return nil
 		}
 
 		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
 
 		return nil
 	})
-
-	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
-		}
-		if err != io.EOF {
-			return nil, err
-		}
-	}
-	return infos, nil
-
+	return infos, err
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From 97468d4ed23ac0e062a37b9c7a8ddf9ffd87ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 08/41] fix: a path cannot leave its module through a backslash

here.Info.Parse cleans the path first and turns backslashes into slashes
afterwards, so "/..\\..\\secret" named a file outside of the module; an HTTP
request could reach it with %5c.
---
 pkging/mem/mem.go     | 8 +++++++-
 pkging/stdos/stdos.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 2961bd5..3fc0267 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -55,7 +55,13 @@ func within(dir, name string) bool {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// a "\\" turned into "/" by Parse can leave ".." elements in the name
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..01ca52b 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -3,6 +3,7 @@ package stdos
 import (
 	"fmt"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -130,7 +131,13 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// a "\\" turned into "/" by Parse can leave ".." elements in the name
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From 4d52d2e15de662623b2fd7f675d643798a7eef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 09/41] fix: the Open method of a file stays below the file

File.Open is the http.FileSystem of a directory. It accepted "..", opened
"/public" in /public as /public itself, and on disk dropped the package, so
that a directory of another module served the current module's files.
---
 pkging/mem/file.go   | 15 ++++++---------
 pkging/stdos/file.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 9ea3766..c615fd4 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -180,17 +181,13 @@ func (f *File) readdir() ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
+	// rooted at "/", so that name stays below the file
+	name = path.Clean("/" + strings.ReplaceAll(name, "\\", "/"))
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, name),
 	}
 
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
-
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..17f2993 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,8 +46,13 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	// rooted at "/", so that name stays below the file
+	name = path.Clean("/" + strings.ReplaceAll(name, "\\", "/"))
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, name),
+	}
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8aaaefc952c778f53215f516c427659bd0369ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:50 +0000
Subject: [PATCH 10/41] fix: stdos: MkdirAll creates the path it was asked for

MkdirAll joined the unparsed argument to the module directory: "pkg:/a" made a
directory called "pkg:", and "../a" one outside of the module.
---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 01ca52b..5375520 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -92,7 +92,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 6427fb98c4162c093e40cef566188c12d8b9f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 11/41] fix: stdos: Walk hands errors to the walk function

Walk is documented to filter all errors through the walk function; it
returned them itself, so that one unreadable directory ended every walk.
---
 pkging/stdos/stdos.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 5375520..2fe93fa 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -175,11 +175,7 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 
 	fp := filepath.Join(info.Dir, pt.Name)
-	err = filepath.Walk(fp, func(path string, fi os.FileInfo, err error) error {
-		if err != nil {
-			return err
-		}
-
+	err = filepath.Walk(fp, func(path string, fi os.FileInfo, walkErr error) error {
 		pt, err := f.Parse(fmt.Sprintf("%s:%s", pt.Pkg, path))
 		if err != nil {
 			return err
@@ -193,7 +189,10 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		path = strings.TrimPrefix(path, info.Dir)
 		path = strings.ReplaceAll(path, "\\", "/")
 		pt.Name = path
-		return wf(pt.String(), pkging.NewFileInfo(fi), nil)
+		if fi != nil {
+			fi = pkging.NewFileInfo(fi)
+		}
+		return wf(pt.String(), fi, walkErr)
 	})
 
 	return err
-- 
2.43.0


From a7240c3576b8c08b4c4eb260d2836b2a244706e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 12/41] fix: Dir.Open closes the directory it opens

Every file served through pkger.Dir left a directory handle open.
---
 pkger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkger.go b/pkger.go
index 5f56a51..657c130 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,6 +36,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
-- 
2.43.0


From 9e4700c32de5fd237f5d3b8ea79be65b1d187e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 13/41] fix: pkgutil: Stuff reports a failed write

---
 pkging/pkgutil/stuff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From b40ae972cd2b1c8f54e20582bc492d86ea4c7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 14/41] fix: pack: no truncated pkged.go, no lost errors

Package left a truncated pkged.go behind when packing failed, ignored the
errors of writing and closing it, and returned nil after a panic.
---
 cmd/pkger/cmds/pack.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..7238e08 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,8 +1,10 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -130,30 +132,26 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 	}
 
 	os.RemoveAll(out)
-	defer func() {
-		if err := recover(); err != nil {
-			os.RemoveAll(out)
-		}
-	}()
 
-	f, err := os.Create(out)
-	if err != nil {
+	bb := &bytes.Buffer{}
+	fmt.Fprintf(bb, "// Code generated by pkger; DO NOT EDIT.\n\n")
+	fmt.Fprintf(bb, "// +build !skippkger\n\n")
+	fmt.Fprintf(bb, "package %s\n\n", c.Name)
+	fmt.Fprintf(bb, "import (\n\t\"github.com/markbates/pkger\"\n\t")
+	fmt.Fprintf(bb, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
+	fmt.Fprintf(bb, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
+
+	if err := pkgutil.Stuff(bb, info, decls); err != nil {
 		return err
 	}
-	defer f.Close()
 
-	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
-	fmt.Fprintf(f, "// +build !skippkger\n\n")
-	fmt.Fprintf(f, "package %s\n\n", c.Name)
-	fmt.Fprintf(f, "import (\n\t\"github.com/markbates/pkger\"\n\t")
-	fmt.Fprintf(f, "\"github.com/markbates/pkger/pkging/mem\"\n)\n\n")
-	fmt.Fprintf(f, "var _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`")
+	fmt.Fprintf(bb, "`)))\n")
 
-	if err := pkgutil.Stuff(f, info, decls); err != nil {
+	// only a complete file may stay behind
+	if err := ioutil.WriteFile(out, bb.Bytes(), 0666); err != nil {
+		os.RemoveAll(out)
 		return err
 	}
 
-	fmt.Fprintf(f, "`)))\n")
-
 	return nil
 }
-- 
2.43.0


From 65078b31c08fcc04c66289cfccd977e9c854b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 15/41] fix: maps: the first use of a map may be concurrent

Two goroutines that used a new map first could each make a sync.Once, and then
a sync.Map, of their own: a data race, and what one of them stored was lost.
---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..325c0df 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
-- 
2.43.0


From fe7435446574e6f13135cc226d248f99e4548591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 16/41] fix: parser: constants of another file, and implicit
 ones, do not panic

pkger.Open(name) panicked when name was not declared in the same file, or was
a constant that repeats the expression before it.
---
 parser/source.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index be58036..ce5bec8 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,7 +35,8 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	// no object: predeclared, or declared in another file or package
+	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -44,7 +45,8 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			if v.Name == node.Name {
+			// a constant without a value repeats the one before it
+			if v.Name == node.Name && i < len(x.Values) {
 				s = p.valueNode(x.Values[i])
 				break
 			}
-- 
2.43.0


From 06237b10c25498df34a46a96c93da515ecf752c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:57 +0000
Subject: [PATCH 17/41] fix: parser: find the calls inside of a call that has
 no constant path

The arguments of a call whose path is not a constant were not searched: in
pkger.Walk(root(), func(...) { pkger.Open("/x") }) and in
pkger.Open(pkger.Include("/x")), /x was not packed.
---
 parser/source.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index ce5bec8..c7b955b 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -166,26 +166,26 @@ func (p *ParsedSource) parse() error {
 		val, err := p.value(n)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		pt, err := info.Parse(val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
 				p.err = fmt.Errorf("%s: %s", err, p.Abs)
-				return false
+				return true
 			}
 		}
 
-- 
2.43.0


From 5cd05dbdcbcb58969bd92b7949b50cbd075daf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 18/41] fix: parser: a nested module does not claim the files
 after it

The files following a directory with a go.mod of its own were recorded as
files of that module.
---
 parser/walk.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..844ea25 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -63,11 +63,13 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
+		}
+		her, err := here.Dir(dir)
+		if err != nil {
+			return err
 		}
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
-- 
2.43.0


From a06b1261eb2e350f8f63335cab8da7e9e42bcad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:17 +0000
Subject: [PATCH 19/41] fix: parser: ignore only the folders that are meant

A folder such as "vendors" was ignored because its name starts with "vendor",
and a module in a directory called "testdata" or ".x" was ignored as a whole.
---
 parser/parser.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..b7f5263 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -16,6 +16,17 @@ import (
 
 var defaultIgnoredFolders = []string{".", "_", "vendor", "node_modules", "testdata"}
 
+// ignoredFolder reports whether folders called name are not searched: "." and
+// "_" ignore the names that start with them, the others only themselves.
+func ignoredFolder(name string) bool {
+	for _, x := range defaultIgnoredFolders {
+		if name == x || len(x) == 1 && strings.HasPrefix(name, x) {
+			return true
+		}
+	}
+	return false
+}
+
 func New(her here.Info) (*Parser, error) {
 	return &Parser{
 		Info:  her,
@@ -199,11 +210,8 @@ func (p *Parser) parse() error {
 			return nil
 		}
 
-		base := filepath.Base(path)
-		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
-				return filepath.SkipDir
-			}
+		if path != root && ignoredFolder(filepath.Base(path)) {
+			return filepath.SkipDir
 		}
 
 		srcs, err := p.ParseDir(path, 0)
-- 
2.43.0


From 25c46664effe2c3f3340ec10df7729f2f3a58076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 20/41] fix: here: directories without Go files are not all the
 same

Here.Dir caches by import path, which is empty for a directory without Go
files: every such directory got the Info of the first one, even in another
module, and the files of that module were recorded under absolute paths.
---
 here/here.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index f87a061..f9f1062 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"sync"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -9,6 +11,22 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+var dirs sync.Map
+
+// Dir gathers info for the requested directory. The results are cached by
+// directory only: Here.Dir also keeps them by import path, which is empty for
+// all the directories without Go files, so that it mixes those up.
+func Dir(p string) (Info, error) {
+	if i, ok := dirs.Load(p); ok {
+		return i.(Info), nil
+	}
+	i, err := here.Dir(p)
+	if err != nil {
+		return i, err
+	}
+	dirs.Store(p, i)
+	return i, nil
+}
-- 
2.43.0


From 669ca9e5827124fb4339228a9c41c603fcd21011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:50 +0000
Subject: [PATCH 21/41] fix: mem: Add keeps the files of other modules under
 their own path

A file of another module was stored as "<current module>:/<absolute path>",
so that the "module:/path" it was packed for could not be opened.
---
 pkging/mem/add.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..44c61a0 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -19,11 +20,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
-		if err != nil {
-			return err
-		}
-
 		dir := f.Name()
 		if !info.IsDir() {
 			dir = filepath.Dir(dir)
@@ -33,6 +29,12 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
+
+		pt, err := fx.addPath(f.Name(), her)
+		if err != nil {
+			return err
+		}
+
 		if info.IsDir() {
 			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
 				if err != nil {
@@ -45,12 +47,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 				}
 				defer f.Close()
 
-				pt, err := fx.Parse(path)
-				if err != nil {
-					return err
-				}
-
-				her, err := here.Package(pt.Pkg)
+				pt, err := fx.addPath(path, her)
 				if err != nil {
 					return err
 				}
@@ -102,3 +99,13 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// addPath returns the path of the file abs on disk, which her describes.
+func (fx *Pkger) addPath(abs string, her here.Info) (here.Path, error) {
+	mod := her.Module
+	if within(fx.Here.Dir, abs) || len(mod.Dir) == 0 {
+		return fx.Parse(abs)
+	}
+	// a file of another module
+	return fx.Parse(mod.Path + ":/" + strings.TrimPrefix(abs, mod.Dir))
+}
-- 
2.43.0


From 8cf6be7f56247e1984fd2ebdbc10b5e075ec2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 22/41] fix: ".." in a qualified path stays in its package

"pkg:/../name" was cleaned as a whole, which removed the package from it:
it named the root of package "name", and "pkg:/.." the root of the current
module.
---
 pkging/mem/mem.go     | 15 ++++++++++++++-
 pkging/stdos/stdos.go | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 3fc0267..07a8877 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -55,7 +55,7 @@ func within(dir, name string) bool {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	pt, err := f.Here.Parse(p)
+	pt, err := f.Here.Parse(f.rooted(p))
 	if err != nil {
 		return pt, err
 	}
@@ -64,6 +64,19 @@ func (f *Pkger) Parse(p string) (here.Path, error) {
 	return pt, nil
 }
 
+// rooted removes the ".." elements of a qualified path, which cannot leave its
+// package: "pkg:/../name" is "pkg:/name".
+func (f *Pkger) rooted(p string) string {
+	if len(f.Here.Dir) > 0 && strings.HasPrefix(p, f.Here.Dir) {
+		return p
+	}
+	s := strings.ReplaceAll(p, "\\", "/")
+	if i := strings.Index(s, ":/"); i > 0 {
+		return s[:i+1] + path.Clean(s[i+1:])
+	}
+	return p
+}
+
 // Remove removes the named file or (empty) directory.
 func (fx *Pkger) Remove(name string) error {
 	pt, err := fx.Parse(name)
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 2fe93fa..7298347 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -131,7 +131,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	pt, err := f.Here.Parse(p)
+	pt, err := f.Here.Parse(f.rooted(p))
 	if err != nil {
 		return pt, err
 	}
@@ -140,6 +140,19 @@ func (f *Pkger) Parse(p string) (here.Path, error) {
 	return pt, nil
 }
 
+// rooted removes the ".." elements of a qualified path, which cannot leave its
+// package: "pkg:/../name" is "pkg:/name".
+func (f *Pkger) rooted(p string) string {
+	if len(f.Here.Dir) > 0 && strings.HasPrefix(p, f.Here.Dir) {
+		return p
+	}
+	s := strings.ReplaceAll(p, "\\", "/")
+	if i := strings.Index(s, ":/"); i > 0 {
+		return s[:i+1] + path.Clean(s[i+1:])
+	}
+	return p
+}
+
 // Stat returns a FileInfo describing the named file.
 func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	pt, err := fx.Parse(name)
-- 
2.43.0


From 2df4c590220aebd78e4cc8b8e6e22753207a7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:30 +0000
Subject: [PATCH 23/41] fix: mem: a created file is named by its path

Its FileInfo had the name of the path as it was spelled, "." for "/name/.".
---
 pkging/mem/mem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 07a8877..5d14c96 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -148,7 +148,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From 338468efdedcb8a25e2bdbf8f0d95272d2c53e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:46 +0000
Subject: [PATCH 24/41] fix: mem: a file may be read while it is written

Walk, Stat, Open and MarshalJSON raced with the Close of a file another
goroutine had created: Close changed the shared info in place, and the
methods with value receivers copied all of the file.
---
 pkging/mem/embed.go |  5 +++--
 pkging/mem/file.go  | 40 ++++++++++++++++++++++++++++------------
 pkging/mem/mem.go   |  5 +++--
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..3a15d00 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -18,12 +18,13 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		if !ok {
 			return true
 		}
+		info, data := f.content()
 		ef := embed.File{
-			Info:   f.info,
+			Info:   info,
 			Here:   f.Here,
 			Path:   f.path,
 			Parent: f.parent,
-			Data:   f.data,
+			Data:   data,
 		}
 		files[key.String()] = ef
 		return true
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index c615fd4..e9cf487 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -9,6 +9,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -21,7 +22,8 @@ var _ pkging.File = &File{}
 
 type File struct {
 	Here   here.Info
-	info   *pkging.FileInfo
+	mu     sync.RWMutex     // for info and data, which Close replaces
+	info   *pkging.FileInfo // not changed once set
 	path   here.Path
 	data   []byte
 	parent here.Path
@@ -33,14 +35,24 @@ type File struct {
 	dirpos  int           // entries Readdir has returned
 }
 
+// content returns what the file holds, which others may read while it is
+// written.
+func (f *File) content() (*pkging.FileInfo, []byte) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
+	return f.info, f.data
+}
+
 func (f *File) isDir() bool {
-	return f.info != nil && f.info.IsDir()
+	info, _ := f.content()
+	return info != nil && info.IsDir()
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
 	if f.reader == nil && !f.isDir() {
-		f.reader = bytes.NewReader(f.data)
+		_, data := f.content()
+		f.reader = bytes.NewReader(data)
 	}
 
 	if sk, ok := f.reader.(io.Seeker); ok {
@@ -67,9 +79,11 @@ func (f *File) Close() error {
 		return nil
 	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
@@ -79,7 +93,8 @@ func (f *File) Close() error {
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
 	if f.reader == nil && !f.isDir() {
-		f.reader = bytes.NewReader(f.data)
+		_, data := f.content()
+		f.reader = bytes.NewReader(data)
 	}
 
 	if f.reader != nil {
@@ -99,29 +114,30 @@ func (f *File) Write(b []byte) (int, error) {
 }
 
 // Info returns the here.Info of the file
-func (f File) Info() here.Info {
+func (f *File) Info() here.Info {
 	return f.Here
 }
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
-func (f File) Stat() (os.FileInfo, error) {
-	if f.info == nil {
+func (f *File) Stat() (os.FileInfo, error) {
+	info, _ := f.content()
+	if info == nil {
 		return nil, os.ErrNotExist
 	}
-	return f.info, nil
+	return info, nil
 }
 
 // Name retuns the name of the file in pkger format
-func (f File) Name() string {
+func (f *File) Name() string {
 	return f.path.String()
 }
 
 // Path returns the here.Path of the file
-func (f File) Path() here.Path {
+func (f *File) Path() here.Path {
 	return f.path
 }
 
-func (f File) String() string {
+func (f *File) String() string {
 	return f.Path().String()
 }
 
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 5d14c96..864570f 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -236,11 +236,12 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
+	info, data := f.content()
 	nf := &File{
 		pkging: fx,
-		info:   pkging.NewFileInfo(f.info),
+		info:   pkging.NewFileInfo(info),
 		path:   f.path,
-		data:   f.data,
+		data:   data,
 		Here:   f.Here,
 	}
 
-- 
2.43.0


From 3a1dabd2c5cd2839e02de937b178a84b6bf01c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 25/41] fix: parser: the paths a program creates are matched
 with their module

The paths of Create and MkdirAll, which are left out of a pack, were compared
without their module and as they were spelled: creating "/x" left out the
"/x" of a nested module, "app:/x" was not recognised as "/x", and walking a
directory that the program makes failed.
---
 parser/create.go | 2 +-
 parser/mkdir.go  | 2 +-
 parser/open.go   | 2 +-
 parser/walk.go   | 6 +++++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/create.go b/parser/create.go
index f98d0ad..e5b4606 100644
--- a/parser/create.go
+++ b/parser/create.go
@@ -47,5 +47,5 @@ func (d CreateDecl) Value() (string, error) {
 }
 
 func (d CreateDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/mkdir.go b/parser/mkdir.go
index 41b28f8..249c586 100644
--- a/parser/mkdir.go
+++ b/parser/mkdir.go
@@ -47,5 +47,5 @@ func (d MkdirAllDecl) Value() (string, error) {
 }
 
 func (d MkdirAllDecl) VirtualPaths() []string {
-	return []string{d.value}
+	return []string{d.file.Path.String()}
 }
diff --git a/parser/open.go b/parser/open.go
index 85ec71e..4d38110 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,7 +48,7 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
+	if _, ok := virtual[d.file.Path.String()]; ok {
 		return nil, nil
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index 844ea25..90df3ce 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -51,6 +51,10 @@ func (d WalkDecl) Value() (string, error) {
 }
 
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
+	if _, ok := virtual[d.file.Path.String()]; ok {
+		return nil, nil
+	}
+
 	var files []*File
 
 	her := d.file.Here
@@ -79,7 +83,7 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
+		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From db3b41e71e688bf224f1878b13fe094d74f4ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 26/41] fix: parser: ".." in a qualified path stays in its
 package

"pkg:/../name" was cleaned as a whole, which removed the package from it: the
path named another package, and its declaration was dropped.
---
 parser/include.go |  2 +-
 parser/source.go  | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser/include.go b/parser/include.go
index cb95500..995a8a1 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,7 +20,7 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(inc)
+	pt, err := her.Parse(rooted(her, inc))
 	if err != nil {
 		return id, err
 	}
diff --git a/parser/source.go b/parser/source.go
index c7b955b..676b61d 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -4,8 +4,10 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/markbates/pkger/here"
@@ -71,6 +73,19 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 	return strconv.Unquote(s)
 }
 
+// rooted removes the ".." elements of a qualified path, which cannot leave its
+// package: "pkg:/../name" is "pkg:/name".
+func rooted(info here.Info, p string) string {
+	if len(info.Dir) > 0 && strings.HasPrefix(p, info.Dir) {
+		return p
+	}
+	s := strings.ReplaceAll(p, "\\", "/")
+	if i := strings.Index(s, ":/"); i > 0 {
+		return s[:i+1] + path.Clean(s[i+1:])
+	}
+	return p
+}
+
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
 	var fn walker = func(node ast.Node) bool {
@@ -175,7 +190,7 @@ func (p *ParsedSource) parse() error {
 			return true
 		}
 
-		pt, err := info.Parse(val)
+		pt, err := info.Parse(rooted(info, val))
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return true
-- 
2.43.0


From b22cf24c52b9998c6daa0664df11d7b7d3093db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 27/41] fix: Add to a pack stored files opened by a relative
 name at the wrong path

---
 pkging/mem/add.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 44c61a0..78a1482 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -20,7 +20,12 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		dir := f.Name()
+		// a relative name is one below the working directory
+		name, err := filepath.Abs(f.Name())
+		if err != nil {
+			return err
+		}
+		dir := name
 		if !info.IsDir() {
 			dir = filepath.Dir(dir)
 		}
@@ -30,13 +35,13 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			return err
 		}
 
-		pt, err := fx.addPath(f.Name(), her)
+		pt, err := fx.addPath(name, her)
 		if err != nil {
 			return err
 		}
 
 		if info.IsDir() {
-			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
+			err = filepath.Walk(name, func(path string, info os.FileInfo, err error) error {
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 272ee1c9e37d2c5299a0c1f694186aceff43d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 28/41] fix: stdos: what is below a file does not exist for the
 HTTP file system

---
 pkging/stdos/file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 17f2993..fb95b82 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -1,10 +1,12 @@
 package stdos
 
 import (
+	"errors"
 	"net/http"
 	"os"
 	"path"
 	"strings"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -53,6 +55,10 @@ func (f *File) Open(name string) (http.File, error) {
 		Name: path.Join(f.path.Name, name),
 	}
 	f2, err := f.pkging.Open(pt.String())
+	if errors.Is(err, syscall.ENOTDIR) {
+		// for a file system of http there is nothing below a file
+		err = &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 533749adb522b59930163496b85205bcd2509aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 29/41] fix: mem: Stat and Remove report what is missing as not
 existing

---
 pkging/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 864570f..40fed81 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -85,7 +85,7 @@ func (fx *Pkger) Remove(name string) error {
 	}
 
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{"remove", pt.String(), os.ErrNotExist}
 	}
 
 	for _, k := range fx.files.Keys() {
@@ -258,7 +258,7 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{"stat", pt.String(), os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From a404adf8fc6df34916a0241e9b6c0ef8a4930bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:11 +0000
Subject: [PATCH 30/41] fix: pack declared files whose name ends in .tmp

They were listed but silently left out of the pack, unless their directory was declared.
---
 pkging/pkgutil/stuff.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 1169a30..dc308ac 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/parser"
@@ -25,9 +24,6 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 
 	for _, pf := range files {
 		err = func() error {
-			if strings.HasSuffix(pf.Abs, ".tmp") {
-				return nil
-			}
 			df, err := os.Open(pf.Abs)
 			if err != nil {
 				return fmt.Errorf("could open stuff %s: %s", pf.Abs, err)
-- 
2.43.0


From 85bbac97e4743cf57117112079148a945e788314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:29 +0000
Subject: [PATCH 31/41] fix: "pkger info" without arguments

It asked the library for a package called ".", which has no name, and always failed.
---
 cmd/pkger/cmds/info.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index e7e0f09..cdc3d24 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 )
 
 type infoCmd struct {
@@ -29,7 +30,14 @@ func (r *infoCmd) Exec(args []string) error {
 	}
 	for _, a := range args {
 
-		fi, err := pkger.Info(a)
+		var fi here.Info
+		var err error
+
+		if a == "." {
+			fi, err = here.Dir(a)
+		} else {
+			fi, err = pkger.Info(a)
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9cfc976578e1ad5739b1198a5989854cd593f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:20 +0000
Subject: [PATCH 32/41] fix: a path is a location only below the folder of its
 module

Info.Parse removes the folder from whatever begins with it: in a module in
/app, "/app.js" became "/.js", "app:/app/x" became "app:/x", and in one in /
every path became that of a package.
---
 here/here.go          | 30 ++++++++++++++++++++++++++++++
 parser/include.go     |  2 +-
 parser/source.go      | 17 +----------------
 parser/walk.go        |  7 ++-----
 pkging/mem/mem.go     | 21 +--------------------
 pkging/stdos/stdos.go | 22 +---------------------
 6 files changed, 36 insertions(+), 63 deletions(-)

diff --git a/here/here.go b/here/here.go
index f9f1062..4064776 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"path"
+	"strings"
 	"sync"
 
 	"github.com/gobuffalo/here"
@@ -30,3 +32,31 @@ func Dir(p string) (Info, error) {
 	dirs.Store(p, i)
 	return i, nil
 }
+
+// Parse parses p in Path format for a package of the module of i. An unqualified
+// p below the folder of the module is the location of a file. The ".." elements
+// of a qualified path cannot leave its module: "pkg:/../name" is "pkg:/name".
+func Parse(i Info, p string) (Path, error) {
+	dir := i.Module.Dir
+	if len(dir) == 0 {
+		dir = i.Dir
+	}
+	dir = strings.TrimSuffix(strings.ReplaceAll(dir, "\\", "/"), "/")
+
+	s := strings.ReplaceAll(strings.TrimSpace(p), "\\", "/")
+	c := path.Clean(s)
+	if len(dir) > 0 && (c == dir || strings.HasPrefix(c, dir+"/")) {
+		s = c[len(dir):]
+	} else if n := strings.Index(s, ":/"); n > 0 {
+		s = s[:n+1] + path.Clean(s[n+1:])
+	}
+
+	// Info.Parse removes i.Dir from anything that begins with it
+	i.Dir = ""
+	pt, err := i.Parse(s)
+	if err != nil {
+		return pt, err
+	}
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
+}
diff --git a/parser/include.go b/parser/include.go
index 995a8a1..58f678c 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -20,7 +20,7 @@ type IncludeDecl struct {
 
 func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 	var id IncludeDecl
-	pt, err := her.Parse(rooted(her, inc))
+	pt, err := here.Parse(her, inc)
 	if err != nil {
 		return id, err
 	}
diff --git a/parser/source.go b/parser/source.go
index 676b61d..0242d50 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -4,10 +4,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
-	"path"
 	"path/filepath"
 	"strconv"
-	"strings"
 	"sync"
 
 	"github.com/markbates/pkger/here"
@@ -73,19 +71,6 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 	return strconv.Unquote(s)
 }
 
-// rooted removes the ".." elements of a qualified path, which cannot leave its
-// package: "pkg:/../name" is "pkg:/name".
-func rooted(info here.Info, p string) string {
-	if len(info.Dir) > 0 && strings.HasPrefix(p, info.Dir) {
-		return p
-	}
-	s := strings.ReplaceAll(p, "\\", "/")
-	if i := strings.Index(s, ":/"); i > 0 {
-		return s[:i+1] + path.Clean(s[i+1:])
-	}
-	return p
-}
-
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
 	var fn walker = func(node ast.Node) bool {
@@ -190,7 +175,7 @@ func (p *ParsedSource) parse() error {
 			return true
 		}
 
-		pt, err := info.Parse(rooted(info, val))
+		pt, err := here.Parse(info, val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
 			return true
diff --git a/parser/walk.go b/parser/walk.go
index 90df3ce..f397475 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -77,11 +77,8 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 		}
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
-
-		pt, err := her.Parse(n)
-		if err != nil {
-			return err
-		}
+		n = strings.TrimPrefix(filepath.ToSlash(n), "/")
+		pt := here.Path{Pkg: her.Module.Path, Name: "/" + n}
 
 		if _, ok := virtual[pt.String()]; ok {
 			if info.IsDir() {
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 40fed81..084e20e 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -55,26 +55,7 @@ func within(dir, name string) bool {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	pt, err := f.Here.Parse(f.rooted(p))
-	if err != nil {
-		return pt, err
-	}
-	// a "\\" turned into "/" by Parse can leave ".." elements in the name
-	pt.Name = path.Clean("/" + pt.Name)
-	return pt, nil
-}
-
-// rooted removes the ".." elements of a qualified path, which cannot leave its
-// package: "pkg:/../name" is "pkg:/name".
-func (f *Pkger) rooted(p string) string {
-	if len(f.Here.Dir) > 0 && strings.HasPrefix(p, f.Here.Dir) {
-		return p
-	}
-	s := strings.ReplaceAll(p, "\\", "/")
-	if i := strings.Index(s, ":/"); i > 0 {
-		return s[:i+1] + path.Clean(s[i+1:])
-	}
-	return p
+	return here.Parse(f.Here, p)
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 7298347..3f54f0d 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -3,7 +3,6 @@ package stdos
 import (
 	"fmt"
 	"os"
-	"path"
 	"path/filepath"
 	"strings"
 
@@ -131,26 +130,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	pt, err := f.Here.Parse(f.rooted(p))
-	if err != nil {
-		return pt, err
-	}
-	// a "\\" turned into "/" by Parse can leave ".." elements in the name
-	pt.Name = path.Clean("/" + pt.Name)
-	return pt, nil
-}
-
-// rooted removes the ".." elements of a qualified path, which cannot leave its
-// package: "pkg:/../name" is "pkg:/name".
-func (f *Pkger) rooted(p string) string {
-	if len(f.Here.Dir) > 0 && strings.HasPrefix(p, f.Here.Dir) {
-		return p
-	}
-	s := strings.ReplaceAll(p, "\\", "/")
-	if i := strings.Index(s, ":/"); i > 0 {
-		return s[:i+1] + path.Clean(s[i+1:])
-	}
-	return p
+	return here.Parse(f.Here, p)
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From f4e2d1b905150006448095beb94de448e4279bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:21 +0000
Subject: [PATCH 33/41] fix: modules without Go files in their root

Their info has no import path, so that nothing could be opened on disk, created
in a pack, or included by the command line.
---
 parser/include.go     | 2 +-
 pkging/mem/mem.go     | 7 ++++++-
 pkging/stdos/stdos.go | 7 ++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/include.go b/parser/include.go
index 58f678c..18f2aab 100644
--- a/parser/include.go
+++ b/parser/include.go
@@ -25,7 +25,7 @@ func NewInclude(her here.Info, inc string) (IncludeDecl, error) {
 		return id, err
 	}
 
-	if pt.Pkg != her.ImportPath {
+	if pt.Pkg != her.Module.Path {
 		her, err = here.Package(pt.Pkg)
 		if err != nil {
 			return id, err
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 084e20e..0ef5600 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -23,7 +23,12 @@ func New(info here.Info) (*Pkger, error) {
 		files: &maps.Files{},
 		Here:  info,
 	}
-	f.infos.Store(info.ImportPath, info)
+	pkg := info.ImportPath
+	if len(pkg) == 0 {
+		// a folder without Go files, such as the root of a module
+		pkg = info.Module.Path
+	}
+	f.infos.Store(pkg, info)
 	return f, nil
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 3f54f0d..e19aa60 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -24,7 +24,12 @@ func New(her here.Info) (*Pkger, error) {
 		infos: &maps.Infos{},
 		Here:  her,
 	}
-	p.infos.Store(her.ImportPath, her)
+	pkg := her.ImportPath
+	if len(pkg) == 0 {
+		// a folder without Go files, such as the root of a module
+		pkg = her.Module.Path
+	}
+	p.infos.Store(pkg, her)
 	return p, nil
 }
 
-- 
2.43.0


From 6249da66e3786c96f456fbf79ede93856c30b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:21 +0000
Subject: [PATCH 34/41] fix: pkged.go in a folder whose name is no package name

---
 cmd/pkger/cmds/pack.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index 7238e08..509c9fc 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -4,11 +4,13 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"go/token"
 	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/here"
@@ -125,11 +127,27 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
+// packageName returns a valid name for the package name. A folder without Go
+// files has the name of the folder, such as "my-app".
+func packageName(name string) string {
+	s := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+	if s == "_" || !token.IsIdentifier(s) {
+		s = "pkg_" + s
+	}
+	return s
+}
+
 func Package(info here.Info, out string, decls parser.Decls) error {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
 		return err
 	}
+	c.Name = packageName(c.Name)
 
 	os.RemoveAll(out)
 
-- 
2.43.0


From 483a1271c04e2e15d585d823a7442699583736cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:17 +0000
Subject: [PATCH 35/41] fix: uses of constants that repeat the one before them

"const ( a = "/x"; b )" declares b as "/x", but a use of b was passed over.
---
 parser/source.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 0242d50..fb54740 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -42,12 +42,12 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	// As per ast package a Con object is always a *ValueSpec,
 	// but double-checking to avoid panics
 	if x, ok := node.Obj.Decl.(*ast.ValueSpec); ok {
+		values := p.values(x)
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			// a constant without a value repeats the one before it
-			if v.Name == node.Name && i < len(x.Values) {
-				s = p.valueNode(x.Values[i])
+			if v.Name == node.Name && i < len(values) {
+				s = p.valueNode(values[i])
 				break
 			}
 		}
@@ -55,6 +55,36 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	return
 }
 
+// values returns the values of the constants that x declares. Constants without
+// values repeat those before them.
+func (p *ParsedSource) values(x *ast.ValueSpec) []ast.Expr {
+	values := x.Values
+	if len(values) > 0 {
+		return values
+	}
+	ast.Inspect(p.Ast, func(node ast.Node) bool {
+		gd, ok := node.(*ast.GenDecl)
+		if !ok || gd.Tok != token.CONST {
+			return true
+		}
+		var last []ast.Expr
+		for _, spec := range gd.Specs {
+			vs, ok := spec.(*ast.ValueSpec)
+			if !ok {
+				continue
+			}
+			if len(vs.Values) > 0 {
+				last = vs.Values
+			}
+			if vs == x {
+				values = last
+			}
+		}
+		return true
+	})
+	return values
+}
+
 func (p *ParsedSource) valueNode(node ast.Node) string {
 	var s string
 	switch x := node.(type) {
-- 
2.43.0


From 853daebc6a0d3ebafcf55e721713d04f4a585e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:42 +0000
Subject: [PATCH 36/41] fix: walks end when an entry is removed meanwhile

---
 pkging/mem/mem.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 0ef5600..f0a293b 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -278,7 +278,8 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		fl, ok := f.files.Load(k)
 		if !ok {
-			return os.ErrNotExist
+			// removed since the walk began
+			continue
 		}
 
 		fi, err := fl.Stat()
-- 
2.43.0


From 449c8a46601b4d5ab7d2e5e910977a1cee0d97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:42 +0000
Subject: [PATCH 37/41] fix: links below added directories keep the info of the
 link

---
 pkging/mem/add.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 78a1482..1024b7a 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -52,6 +52,18 @@ func (fx *Pkger) Add(files ...*os.File) error {
 				}
 				defer f.Close()
 
+				if info.Mode()&os.ModeSymlink != 0 {
+					// a link to a file is added as that file, reading
+					// one to a directory fails
+					fi, err := f.Stat()
+					if err != nil {
+						return err
+					}
+					if !fi.IsDir() {
+						info = fi
+					}
+				}
+
 				pt, err := fx.addPath(path, her)
 				if err != nil {
 					return err
-- 
2.43.0


From 7252c2493bc95933d7835111d8601207286fadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 38/41] fix: packed files of nested modules could not be opened
 by their own path

---
 pkging/mem/add.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 1024b7a..c3cb04c 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -85,9 +85,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 					mf.data = bb.Bytes()
 				}
 
-				fx.files.Store(mf.Path(), mf)
-
-				return nil
+				return fx.addFile(path, mf)
 			})
 			if err != nil {
 				return err
@@ -111,12 +109,36 @@ func (fx *Pkger) Add(files ...*os.File) error {
 			mf.data = bb.Bytes()
 		}
 
-		fx.files.Store(mf.Path(), mf)
+		if err := fx.addFile(name, mf); err != nil {
+			return err
+		}
 	}
 
 	return nil
 }
 
+// addFile stores the file abs on disk. One of a module nested in that of the
+// Pkger has a path in each of them.
+func (fx *Pkger) addFile(abs string, mf *File) error {
+	mod := mf.Here.Module
+	if len(mod.Dir) > 0 && mod.Path != mf.Path().Pkg && within(mod.Dir, abs) {
+		pt, err := fx.Parse(mod.Path + ":/" + strings.TrimPrefix(abs, mod.Dir))
+		if err != nil {
+			return err
+		}
+		fx.files.Store(pt, &File{
+			Here:   mf.Here,
+			info:   mf.info,
+			path:   pt,
+			data:   mf.data,
+			pkging: fx,
+		})
+		mf.Here = fx.Here
+	}
+	fx.files.Store(mf.Path(), mf)
+	return nil
+}
+
 // addPath returns the path of the file abs on disk, which her describes.
 func (fx *Pkger) addPath(abs string, her here.Info) (here.Path, error) {
 	mod := her.Module
-- 
2.43.0


From be2fab37f96ce63216ffec4193e82b2dba4ffbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 39/41] fix: Stat of an open file on disk was that of when it
 was opened

---
 pkging/stdos/file.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index fb95b82..7dbc1d8 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -72,14 +72,10 @@ func (f *File) Path() here.Path {
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
 func (f *File) Stat() (os.FileInfo, error) {
-	if f.info != nil {
-		return f.info, nil
-	}
-
+	// not f.info, the file may have changed since it was opened
 	info, err := f.File.Stat()
 	if err != nil {
 		return nil, err
 	}
-	f.info = pkging.NewFileInfo(info)
-	return f.info, nil
+	return pkging.NewFileInfo(info), nil
 }
-- 
2.43.0


From 45e9dd4200f40197cc511d780e69a516c9659713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:33 +0000
Subject: [PATCH 40/41] fix: without a module, paths on disk were those of the
 whole file system

---
 pkging/stdos/stdos.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index e19aa60..060ec18 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -1,6 +1,7 @@
 package stdos
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -73,6 +74,11 @@ func (f *Pkger) Current() (here.Info, error) {
 
 // Info returns the here.Info of the here.Path
 func (f *Pkger) Info(p string) (here.Info, error) {
+	if len(p) == 0 && len(f.Here.Dir) == 0 {
+		// there is no folder that paths could be in
+		return here.Info{}, errors.New("the module of the program is not known")
+	}
+
 	info, ok := f.infos.Load(p)
 	if ok {
 		return info, nil
-- 
2.43.0


From a6c7929c1fbd0cdeba780167b4fe3347cc764408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:33 +0000
Subject: [PATCH 41/41] fix: infos of directories given by relative names

---
 here/here.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/here/here.go b/here/here.go
index 4064776..77993bb 100644
--- a/here/here.go
+++ b/here/here.go
@@ -2,6 +2,7 @@ package here
 
 import (
 	"path"
+	"path/filepath"
 	"strings"
 	"sync"
 
@@ -22,6 +23,10 @@ var dirs sync.Map
 // directory only: Here.Dir also keeps them by import path, which is empty for
 // all the directories without Go files, so that it mixes those up.
 func Dir(p string) (Info, error) {
+	p, err := filepath.Abs(p)
+	if err != nil {
+		return Info{}, err
+	}
 	if i, ok := dirs.Load(p); ok {
 		return i.(Info), nil
 	}
-- 
2.43.0

