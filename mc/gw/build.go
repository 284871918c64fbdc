// Package gw builds the worker of package genw against the working tree and
// runs requests on a pool of workers.
package gw

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"mc/drv"
)

const module = "github.com/woven-planet/go-zserio"

// Sites describes the rewritten map ranges.
type Sites []string

type listed struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path string }
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "internal error: "+format+"\n", a...)
	os.Exit(2)
}

func list(w *drv.Work, args ...string) []listed {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module"}, args...)...)
	cmd.Dir = w.Repo
	cmd.Env = append(os.Environ(), "GOWORK=off")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("the tree does not build: %v\n%s", err, stderr.String())
	}
	var out []listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var l listed
		if dec.Decode(&l) != nil {
			break
		}
		out = append(out, l)
	}
	return out
}

// Build rewrites the generator's map ranges and builds the worker.
func Build(w *drv.Work) (bin, exports string, sites Sites) {
	pkgs := list(w, "./cmd/go-zserio", ".", "./ztype", "errors", "fmt", "database/sql/driver", "github.com/icza/bitio")
	exp := map[string]string{}
	for _, p := range pkgs {
		exp[p.ImportPath] = p.Export
	}
	exports = filepath.Join(w.Dir, "exports")
	var eb strings.Builder
	for p, f := range exp {
		fmt.Fprintf(&eb, "%s %s\n", p, f)
	}
	os.WriteFile(exports, []byte(eb.String()), 0o644)
	ov := filepath.Join(w.Dir, "ov")
	os.MkdirAll(ov, 0o755)
	repl := map[string]string{}
	put := func(target, src string) {
		f := filepath.Join(ov, fmt.Sprintf("%03d.go", len(repl)))
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
		repl[target] = f
	}
	for _, p := range pkgs {
		main := p.Module != nil && p.Module.Path == module
		switch {
		case main && (strings.Contains(p.ImportPath, "/internal/") || strings.Contains(p.ImportPath, "/cmd/")) && !strings.HasSuffix(p.ImportPath, "/internal/parser"):
		default:
			continue
		}
		for file, src := range rewrite(p, exp, &sites) {
			put(file, src)
		}
	}
	for file, src := range faultable(w) {
		put(file, src)
	}
	genw := filepath.Join(w.Verif, "mc", "genw")
	read := func(n string) string {
		b, err := os.ReadFile(filepath.Join(genw, n))
		if err != nil {
			fatal("%v", err)
		}
		return string(b)
	}
	proto := read("proto.go")
	proto = proto[strings.Index(proto, "type File"):]
	put(filepath.Join(w.Repo, "zzvmap", "zzvmap.go"), read("vmap.go.txt"))
	put(filepath.Join(w.Repo, "internal", "zzverif", "main.go"), strings.Replace(read("worker.go.txt"), "//PROTO", proto, 1))
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(w.Dir, "gw-overlay.json")
	os.WriteFile(of, b, 0o644)
	bin = filepath.Join(w.Dir, "worker")
	out, rc, _ := drv.Run(w.Repo, []string{"GOWORK=off"}, 1e12, "go", "build", "-overlay", of, "-o", bin, "./internal/zzverif")
	if rc != 0 {
		fatal("the worker does not build\n%s", out)
	}
	return
}

// faultable returns the package os with a hook in everything that touches the
// file system: the worker makes the operations fail.
func faultable(w *drv.Work) map[string]string {
	pkg := list(w, "os")
	p := pkg[len(pkg)-1]
	hooked := map[string]string{
		"func (f *File) Write(":  "func (f *File) zzWrite(",
		"func (f *File) Read(":   "func (f *File) zzRead(",
		"func (f *File) Close()": "func (f *File) zzClose()",
		"func OpenFile(":         "func zzOpenFile(",
		"func Mkdir(":            "func zzMkdir(",
		"func Remove(":           "func zzRemove(",
		"func Rename(":           "func zzRename(",
	}
	out := map[string]string{}
	found := 0
	for _, n := range p.GoFiles {
		f := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		src := string(b)
		for from, to := range hooked {
			if i := strings.Index(src, "\n"+from); i >= 0 {
				src = src[:i+1] + to + src[i+1+len(from):]
				found++
			}
		}
		if src != string(b) {
			out[f] = src
		}
	}
	if found != len(hooked) {
		fatal("package os of %s is not as expected", p.Dir)
	}
	b, err := os.ReadFile(filepath.Join(w.Verif, "mc", "genw", "oshook.go.txt"))
	if err != nil {
		fatal("%v", err)
	}
	out[filepath.Join(p.Dir, "zz_fault.go")] = string(b)
	return out
}

func isMap(t types.Type) bool {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		i, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || i.NumEmbeddeds() != 1 {
			return false
		}
		e := i.EmbeddedType(0)
		if u, ok := e.(*types.Union); ok && u.Len() == 1 {
			e = u.Term(0).Type()
		}
		_, ok = e.Underlying().(*types.Map)
		return ok
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

type edit struct {
	from, to int
	text     string
}

// rewrite returns the changed files of a package.
func rewrite(p listed, exp map[string]string, sites *Sites) map[string]string {
	fs := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}
	var names []string
	for _, n := range p.GoFiles {
		f := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		a, err := parser.ParseFile(fs, f, b, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, a)
		names = append(names, f)
		srcs[f] = b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{GoVersion: "go1.24", Error: func(error) {}, Importer: importer.ForCompiler(fs, "gc", func(path string) (io.ReadCloser, error) {
		if exp[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(exp[path])
	})}
	if _, err := conf.Check(p.ImportPath, fs, files, info); err != nil {
		fatal("%v", err)
	}
	out := map[string]string{}
	for i, a := range files {
		src := srcs[names[i]]
		var edits []edit
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		site := func(n ast.Node) int {
			pos := fs.Position(n.Pos())
			*sites = append(*sites, fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(pos.Filename))+"/"+filepath.Base(pos.Filename), pos.Line))
			return len(*sites) - 1
		}
		pkgOf := func(x ast.Expr) (string, string) {
			if ix, ok := x.(*ast.IndexExpr); ok {
				x = ix.X
			}
			s, ok := x.(*ast.SelectorExpr)
			if !ok {
				return "", ""
			}
			id, ok := s.X.(*ast.Ident)
			if !ok {
				return "", ""
			}
			if pn, ok := info.Uses[id].(*types.PkgName); ok {
				return pn.Imported().Path(), s.Sel.Name
			}
			return "", ""
		}
		used := map[string]bool{}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.RangeStmt:
				if t := info.Types[x.X].Type; t != nil && isMap(t) {
					edits = append(edits, edit{off(x.X.Pos()), off(x.X.Pos()), fmt.Sprintf("zzvmap__.All(%d, ", site(x))}, edit{off(x.X.End()), off(x.X.End()), ")"})
				}
			case *ast.CallExpr:
				path, name := pkgOf(x.Fun)
				to := ""
				withSite := true
				switch path + "." + name {
				case "golang.org/x/exp/maps.Keys":
					to = "KeySlice"
				case "golang.org/x/exp/maps.Values":
					to = "ValueSlice"
				case "maps.Keys":
					to = "KeySeq"
				case "maps.Values":
					to = "ValueSeq"
				case "maps.All":
					to = "All"
				case "os.Exit":
					to, withSite = "Exit", false
				case "log.Fatal":
					to, withSite = "Fatal", false
				case "log.Fatalf":
					to, withSite = "Fatalf", false
				case "log.Fatalln":
					to, withSite = "Fatalln", false
				}
				if to == "" {
					return true
				}
				used[path] = true
				edits = append(edits, edit{off(x.Fun.Pos()), off(x.Fun.End()), "zzvmap__." + to})
				if withSite {
					edits = append(edits, edit{off(x.Lparen) + 1, off(x.Lparen) + 1, fmt.Sprintf("%d, ", site(x))})
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
		var b strings.Builder
		at := 0
		pk := off(a.Name.End())
		emit := func(to int) { b.Write(src[at:to]); at = to }
		emit(pk)
		b.WriteString("; import zzvmap__ \"" + module + "/zzvmap\"")
		for _, e := range edits {
			emit(e.from)
			b.WriteString(e.text)
			at = e.to
		}
		emit(len(src))
		// imports that the edits leave unused
		tail := ""
		for _, im := range a.Imports {
			path := strings.Trim(im.Path.Value, "\"")
			if !used[path] {
				continue
			}
			name := filepath.Base(path)
			if im.Name != nil {
				name = im.Name.Name
			}
			sym := map[string]string{"os": "Args", "log": "Println", "maps": "Clone[map[int]int]", "golang.org/x/exp/maps": "Clone[map[int]int]"}[path]
			tail += "\nvar _ = " + name + "." + sym + "\n"
		}
		out[names[i]] = b.String() + tail
	}
	return out
}
