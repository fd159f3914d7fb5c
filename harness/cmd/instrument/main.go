// instrument copies the Go files of the code under test that import sync or sync/atomic, with those imports
// replaced by the controllable ones, and writes an overlay file for go build.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	os.RemoveAll(filepath.Join(out, "src"))
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		hit := false
		for _, im := range f.Imports {
			var to, name string
			switch im.Path.Value {
			case `"sync"`:
				to, name = `"vharness/vsync"`, "sync"
			case `"sync/atomic"`:
				to, name = `"vharness/vatomic"`, "atomic"
			default:
				continue
			}
			hit = true
			im.Path.Value = to
			if im.Name == nil {
				im.Name = ast.NewIdent(name)
			}
		}
		if !hit {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, "src", rel)
		os.MkdirAll(filepath.Dir(dst), 0755)
		w, err := os.Create(dst)
		if err != nil {
			return err
		}
		defer w.Close()
		if err := printer.Fprint(w, fs, f); err != nil {
			return err
		}
		replace[p] = dst
		n++
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
	if len(os.Args) > 3 {
		if err := boltFiles(os.Args[3], os.Args[4]); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(1)
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// hooks let the harness see, and refuse, what bolt writes to the file.
var hooks = [][2]string{
	{"db.ops.writeAt = db.file.WriteAt", "db.ops.writeAt = db.verifWriteAt"},
	{"if err := db.file.Truncate(int64(sz)); err != nil {", "verifEvent(db.path, 't', nil, int64(sz))\n\t\t\tif err := db.file.Truncate(int64(sz)); err != nil {"},
	{"func fdatasync(db *DB) error {\n\treturn syscall", "func fdatasync(db *DB) error {\n\tverifEvent(db.path, 's', nil, 0)\n\treturn syscall"},
}

const verifGo = `package bolt

// VerifHook, if set, is told of every write ('w'), sync ('s') and truncation ('t') before it is made; an error
// returned for a write is what the write returns.
var VerifHook func(path string, what byte, b []byte, off int64) error

func verifEvent(path string, what byte, b []byte, off int64) error {
	if h := VerifHook; h != nil {
		return h(path, what, b, off)
	}
	return nil
}

func (db *DB) verifWriteAt(b []byte, off int64) (int, error) {
	if err := verifEvent(db.path, 'w', b, off); err != nil {
		return 0, err
	}
	return db.file.WriteAt(b, off)
}
`

// boltFiles copies the bolt library, making it take its locks from vsyncq and yield where transactions begin.
func boltFiles(dir, out string) error {
	os.RemoveAll(out)
	os.MkdirAll(out, 0755)
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	yields := 0
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(b)
		if strings.Contains(s, "\t\"sync\"\n") {
			s = strings.Replace(s, "\t\"sync\"\n", "\tsync \"vharness/vsyncq\"\n", 1)
			for _, f := range []string{"func (db *DB) beginTx() (*Tx, error) {", "func (db *DB) beginRWTx() (*Tx, error) {"} {
				if strings.Contains(s, f) {
					s = strings.Replace(s, f, f+"\n\tsync.Yield(\"boltdb\")", 1)
					yields++
				}
			}
		}
		for _, h := range hooks {
			if strings.HasSuffix(p, "_windows.go") {
				break
			}
			if strings.Contains(s, h[0]) {
				s = strings.Replace(s, h[0], h[1], 1)
				yields++
			}
		}
		if err := os.WriteFile(filepath.Join(out, filepath.Base(p)), []byte(s), 0644); err != nil {
			return err
		}
	}
	if err := os.WriteFile(filepath.Join(out, "verif.go"), []byte(verifGo), 0644); err != nil {
		return err
	}
	if yields != 5 {
		return fmt.Errorf("bolt library: %d places to yield found", yields)
	}
	return os.WriteFile(filepath.Join(out, "go.mod"), []byte("module github.com/boltdb/bolt\n\ngo 1.12\n"), 0644)
}
