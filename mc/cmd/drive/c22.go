package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"sort"
	"strings"

	"mc/drv"
	"mc/genw"
	"mc/gsch"
	"mc/gw"
	"mc/rep"
)

func init() { special["C22"] = c22 }

// declared returns the types and constants that a file declares, apart from
// the items of its enums.
func declared(src string) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			switch x := s.(type) {
			case *ast.TypeSpec:
				out = append(out, x.Name.Name)
			case *ast.ValueSpec:
				if g.Tok == token.CONST {
					for _, n := range x.Names {
						out = append(out, n.Name)
					}
				}
			}
		}
	}
	return out, nil
}

func goName(n string) string { return strings.ToUpper(n[:1]) + n[1:] }

func pkgDir(pkg string) string { return strings.ReplaceAll(strings.ToLower(pkg), ".", "/") }

type outPkg struct {
	name string
	defs []gsch.Def
}

type outJob struct {
	family, name string
	files        []genw.File // if pkgs is nil
	pkgs         []outPkg
	req          genw.Req
	must         bool // has to succeed
	mustFail     bool
	faultAll     bool
	older        *genw.Req // written to the output before
	cli          bool
}

// isIgnored returns if the go command does not take a file.
func isIgnored(name string) bool {
	n := strings.TrimSuffix(name, ".go")
	if n == name || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") || strings.HasSuffix(n, "_test") {
		return true
	}
	for _, s := range []string{"linux", "windows", "darwin", "js", "android", "amd64", "arm", "arm64", "386", "wasm"} {
		if strings.HasSuffix(n, "_"+s) {
			return true
		}
	}
	return false
}

// checkOutput returns what is wrong with the files of a successful run.
func checkOutput(pkgs []outPkg, resp *genw.Resp, limit int) string {
	where := map[string][]string{}
	expect := map[string]bool{}
	for _, p := range pkgs {
		expect[pkgDir(p.name)] = true
	}
	var names []string
	for n := range resp.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	lower := map[string]string{}
	for _, n := range names {
		if l := strings.ToLower(n); lower[l] != "" {
			return fmt.Sprintf("%s and %s are the same file where case does not matter", n, lower[l])
		} else {
			lower[l] = n
		}
		if limit > 0 && resp.OutLen+1+len(n) > limit {
			return fmt.Sprintf("the path of %s has %d characters, the limit is %d", n, resp.OutLen+1+len(n), limit)
		}
		if isIgnored(path.Base(n)) {
			return n + " is a name that the go command ignores"
		}
		if !expect[path.Dir(n)] {
			return n + " is not in the directory of a selected package"
		}
		decls, err := declared(resp.Files[n])
		if err != nil {
			return n + ": " + err.Error()
		}
		for _, d := range decls {
			where[path.Dir(n)+" "+d] = append(where[path.Dir(n)+" "+d], n)
		}
	}
	for _, p := range pkgs {
		for _, d := range p.defs {
			if at := where[pkgDir(p.name)+" "+goName(d.Name)]; len(at) != 1 {
				return fmt.Sprintf("%s %s of package %s is in %d files %v; the files are %v", d.Kind, d.Name, p.name, len(at), at, names)
			}
		}
	}
	return ""
}

func c22(w *drv.Work, th bool) {
	r := rep.New("C22", "model_checking")
	p := gw.New(w)
	var jobs []*outJob
	only := os.Getenv("VERIF_FAMILY")
	add := func(j *outJob) {
		if only == "" || only == j.family {
			if j.pkgs != nil && !j.cli {
				for i, k := range j.pkgs {
					j.files = append(j.files, genw.File{Name: fmt.Sprintf("f%d.zs", i), Src: gsch.DefSchema(k.name, k.defs)})
				}
			}
			j.req.Files, j.req.Want = j.files, true
			if !j.cli {
				j.req.Out = "o"
			}
			jobs = append(jobs, j)
		}
	}
	one := func(family, name string, limit int, must bool, defs ...gsch.Def) {
		add(&outJob{family: family, name: fmt.Sprintf("%s, limit %d", name, limit), pkgs: []outPkg{{"p", defs}}, req: genw.Req{MaxRel: limit}, must: must})
	}
	show := func(defs []gsch.Def) string {
		var s []string
		for _, d := range defs {
			s = append(s, d.Kind+" "+d.Name)
		}
		return strings.Join(s, ", ")
	}
	differ := func(defs ...gsch.Def) bool { // as Go names
		seen := map[string]bool{}
		for _, d := range defs {
			if seen[goName(d.Name)] {
				return false
			}
			seen[goName(d.Name)] = true
		}
		return true
	}
	// each kind in each limit, pairs of kinds and names
	for _, k := range gsch.DefKinds {
		for _, n := range append(append([]string{}, gsch.FileNames...), gsch.LongNames(30, 1, "Word")...) {
			for _, lim := range []int{0, 5, 7, 8, 9, 10, 11, 12, 13, 14, 20, 30} {
				d := gsch.Def{Kind: k, Name: n}
				one("single", show([]gsch.Def{d}), lim, (lim == 0 || lim >= 12) && n[0] != '_', d)
			}
		}
	}
	kinds := gsch.DefKinds
	for i, n := range gsch.FileNames {
		for _, m := range gsch.FileNames[i+1:] {
			for _, k := range kinds {
				for _, l := range kinds {
					if !th && k != l && k != "struct" && l != "enum" && l != "const" {
						continue
					}
					defs := []gsch.Def{{Kind: k, Name: n}, {Kind: l, Name: m}}
					lims := []int{0}
					if k == l || th {
						lims = []int{0, 9, 11}
					}
					for _, lim := range lims {
						one("pairs", show(defs), lim, lim == 0 && n[0] != '_' && m[0] != '_' && differ(defs...), defs...)
					}
				}
			}
		}
	}
	// three names
	step := 1
	lims3 := []int{0, 10}
	if th {
		lims3 = []int{0, 8, 9, 10, 11, 12, 13, 15}
	}
	for i := 0; i < len(gsch.FileNames); i += step {
		for j := i + 1; j < len(gsch.FileNames); j += step {
			for k := j + 1; k < len(gsch.FileNames); k += step {
				defs := []gsch.Def{{Kind: "struct", Name: gsch.FileNames[i]}, {Kind: "union", Name: gsch.FileNames[j]}, {Kind: "struct", Name: gsch.FileNames[k]}}
				for _, lim := range lims3 {
					one("triples", show(defs), lim, false, defs...)
				}
			}
		}
	}
	// many names that are shortened to the same one
	for _, word := range []string{"a", "Ab", "Word", "a_", "aTest", "Linux"} {
		for _, n := range []int{3, 8, 14, 25} {
			for _, count := range []int{2, 3, 9, 10, 11, 12, 30, 101, 102} {
				if count > 30 && n != 14 && !th {
					continue
				}
				names := gsch.LongNames(n, count, word)
				var defs []gsch.Def
				for i, x := range names {
					defs = append(defs, gsch.Def{Kind: []string{"struct", "union"}[i%2], Name: x})
				}
				for lim := 7; lim < n+14; lim++ {
					if count > 30 && lim%5 != 0 && !th {
						continue
					}
					one("many", fmt.Sprintf("%d definitions %s...", count, names[0]), lim, lim >= 16, defs...)
				}
			}
		}
	}
	// packages
	pkgs := []string{"p", "P", "p.q", "P.q", "p_q", "p.Q", "pq", "p.q.r", "q", "q.p", "pkg", "a.pkg"}
	for i, a := range pkgs {
		for j, b := range pkgs {
			if a == b {
				continue
			}
			x := []outPkg{{a, []gsch.Def{{Kind: "struct", Name: "S"}, {Kind: "enum", Name: "Pkg"}, {Kind: "const", Name: "K"}}}, {b, []gsch.Def{{Kind: "union", Name: "S"}, {Kind: "struct", Name: "pkg1"}, {Kind: "subtype", Name: "K"}}}}
			clash := strings.ToLower(a) == strings.ToLower(b)
			for _, lim := range []int{0, 12, 20} {
				if i < j {
					add(&outJob{family: "packages", name: fmt.Sprintf("%s and %s, limit %d", a, b, lim), pkgs: x, req: genw.Req{MaxRel: lim}, must: !clash && lim != 12})
				}
				add(&outJob{family: "packages", name: fmt.Sprintf("%s and %s, limit %d, only %s", a, b, lim, a), pkgs: x, req: genw.Req{MaxRel: lim, Only: a}, must: lim != 12})
				add(&outJob{family: "packages", name: fmt.Sprintf("%s and %s, limit %d, only %s", a, b, lim, b), pkgs: x, req: genw.Req{MaxRel: lim, Only: b}, must: lim != 12})
			}
			for _, o := range []string{"nosuch", a + ".x", strings.ToUpper(a), a + "x"} {
				if o != a && o != b {
					add(&outJob{family: "packages", name: fmt.Sprintf("%s and %s, only %s", a, b, o), pkgs: x, req: genw.Req{Only: o}, mustFail: true})
				}
			}
		}
	}
	// again, and over something else
	seeds := append(append([]gsch.Set{}, gsch.Sets...), gsch.Repo(w.Repo)...)
	for _, s := range seeds {
		add(&outJob{family: "again", name: s.Name, files: s.Files, req: genw.Req{Again: 2, SQL: true}, must: true})
		for _, o := range seeds {
			if !th && (len(o.Name)+len(s.Name))%3 != 0 {
				continue
			}
			add(&outJob{family: "over", name: s.Name + " over " + o.Name, files: s.Files, req: genw.Req{SQL: true}, must: true, older: &genw.Req{Files: o.Files, Out: "o", Want: true}})
		}
		add(&outJob{family: "over", name: s.Name + " over itself, longer", files: s.Files, req: genw.Req{SQL: true}, must: true, older: &genw.Req{Files: s.Files, Out: "o", Want: true, SQL: true, ID: -1}})
		add(&outJob{family: "over", name: s.Name + " over itself, empty", files: s.Files, req: genw.Req{SQL: true}, must: true, older: &genw.Req{Files: s.Files, Out: "o", Want: true, SQL: true, ID: -2}})
		add(&outJob{family: "faults", name: s.Name, files: s.Files, req: genw.Req{}, must: true, faultAll: true})
	}
	c22cli(add)
	for k := 0; k < 8 && len(jobs) > 0; k++ {
		r.Sample("%s: %s", jobs[k*(len(jobs)-1)/8].family, jobs[k*(len(jobs)-1)/8].name)
	}
	counts := map[string]int{}
	for _, j := range jobs {
		counts[j.family]++
	}
	p.Each(len(jobs), func(i int) {
		if r.Out() {
			return
		}
		j := jobs[i]
		c := &c22run{r: r, p: p, j: j}
		msg := c.run(false)
		if msg == "" {
			return
		}
		if msg = c.run(true); msg != "" {
			r.Fail(j.family+": "+j.name, msg+"\n"+j.family+": "+j.name+"\n\n"+showFiles(j.files))
		}
	})
	r.Extra["families"] = counts
	p.Close()
	r.Done()
}

type c22run struct {
	r     *rep.R
	p     *gw.Pool
	j     *outJob
	fresh bool
}

func (c *c22run) do(q *genw.Req) *genw.Resp {
	c.r.Count(1, 1, 1)
	return c.p.Do(q, c.fresh)
}

func (c *c22run) run(fresh bool) string {
	c.fresh = fresh
	j := c.j
	req := j.req
	if j.older != nil {
		old := *j.older
		id := old.ID
		old.ID = 0
		resp := c.do(&old)
		for n, src := range resp.Files {
			switch id {
			case -1:
				src += strings.Repeat("// left\n", 2000)
			case -2:
				src = ""
			}
			req.Pre = append(req.Pre, genw.Pre{Path: n, Kind: "file", Data: src})
		}
		if len(resp.Files) == 0 {
			return "nothing is generated for the older schemas: " + resp.Err
		}
	}
	if j.faultAll {
		return c.faults()
	}
	resp := c.do(&req)
	c.r.Distinct(fmt.Sprint(resp.OK, resp.Err, len(resp.Tree), treeText(resp.Tree)))
	switch {
	case resp.Crash != "":
		return "crash: " + resp.Crash
	case !resp.OK && j.must:
		return "the generator fails: " + resp.Err
	case !resp.OK && resp.Err == "":
		return "the generator fails without a message"
	case resp.OK && j.mustFail:
		return "the generator succeeds, although the package does not exist; files: " + treeText(resp.Tree)
	case !resp.OK && j.mustFail && len(resp.Tree) > 0:
		return "the generator refuses the package, but writes files: " + treeText(resp.Tree)
	case !resp.OK:
		return ""
	}
	if j.pkgs != nil {
		pkgs := j.pkgs
		if req.Only != "" {
			pkgs = nil
			for _, k := range j.pkgs {
				if k.name == req.Only {
					pkgs = append(pkgs, k)
				}
			}
		}
		limit := 0
		if req.MaxRel != 0 {
			limit = resp.OutLen + req.MaxRel
		}
		if msg := checkOutput(pkgs, resp, limit); msg != "" {
			return msg
		}
	}
	if req.Again > 0 || j.older != nil {
		fresh := req
		fresh.Pre, fresh.Again = nil, 0
		first := c.do(&fresh)
		for n, h := range first.Tree {
			if resp.Tree[n] != h {
				return n + " is not as it is when it is written for the first time"
			}
		}
		for n := range resp.Tree {
			if _, ok := first.Tree[n]; !ok && j.older == nil {
				return n + " is written only by the second run"
			}
		}
		for i, h := range resp.Runs {
			if h != resp.Runs[0] {
				return fmt.Sprintf("run %d writes something else than the first one", i+1)
			}
		}
	}
	return ""
}

func treeText(t map[string]string) string {
	var names []string
	for n := range t {
		names = append(names, n)
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// faults makes each operation on a file fail.
func (c *c22run) faults() string {
	base := c.j.req
	base.Want = false
	count := base
	count.Faults = "count"
	all := c.do(&count)
	if !all.OK {
		return "the generator fails: " + all.Err
	}
	for at, op := range all.Ops {
		kind, name, _ := strings.Cut(op, " ")
		output := strings.HasPrefix(name, "out")
		for _, f := range []string{"fail", "short", "crash"} {
			if f == "short" && kind != "write" {
				continue
			}
			q := base
			q.Faults, q.At = f, at
			resp := c.do(&q)
			c.r.Distinct(fmt.Sprint(op, f, resp.OK, treeText(resp.Tree)))
			what := fmt.Sprintf("operation %d, %s, made to %s: ", at, op, f)
			reported := f != "crash" && (output && (kind == "write" || kind == "close" || kind == "create" || kind == "mkdir") || !output && (kind == "open" || kind == "read"))
			switch {
			case resp.Crash != "" && f != "crash":
				return what + "crash: " + resp.Crash
			case resp.OK && reported:
				return what + "the generator reports success"
			case resp.OK && f != "crash" && !same(resp.Tree, all.Tree):
				return what + "the generator reports success, but the files are not those of a run without the failure"
			case !resp.OK && f != "crash" && resp.Err == "":
				return what + "the generator fails without a message"
			case !resp.HealedOK:
				return what + "another run, without the failure, fails too"
			case !same(resp.Healed, all.Tree):
				return what + "another run, without the failure, does not write the same files: " + treeText(resp.Healed) + " instead of " + treeText(all.Tree)
			}
		}
	}
	// the first run found things in the way
	for n := range all.Tree {
		for _, pre := range []genw.Pre{{Path: n, Kind: "dir"}, {Path: n, Kind: "link", Data: "/dev/full"}, {Path: n, Kind: "link", Data: "nowhere/x"}, {Path: n, Kind: "link", Data: "../elsewhere"}, {Path: path.Dir(n), Kind: "file"}} {
			q := base
			q.Pre = []genw.Pre{pre}
			resp := c.do(&q)
			c.r.Distinct(fmt.Sprint(pre, resp.OK, treeText(resp.Tree)))
			switch {
			case resp.Crash != "":
				return fmt.Sprintf("%v in the way: crash: %s", pre, resp.Crash)
			case resp.OK && !same(resp.Tree, all.Tree):
				return fmt.Sprintf("%v in the way: the generator reports success, but the files are not those of other runs", pre)
			case !resp.OK && resp.Err == "":
				return fmt.Sprintf("%v in the way: the generator fails without a message", pre)
			}
		}
	}
	// limits of the size of files
	for _, size := range []int{1, 2, 100, 300, 500, 1000, 2000, 5000, 20000} {
		q := base
		q.Fsize = size
		resp := c.do(&q)
		switch {
		case resp.Crash != "":
			return fmt.Sprintf("files limited to %d bytes: crash: %s", size, resp.Crash)
		case resp.OK && !same(resp.Tree, all.Tree):
			return fmt.Sprintf("files limited to %d bytes: the generator reports success, but the files are not those of other runs", size)
		}
	}
	// printed
	for _, pkg := range gsch.Packages(c.j.files) {
		q := base
		q.Out, q.Only, q.Faults = "-", pkg, "count"
		all := c.do(&q)
		if !all.OK {
			continue
		}
		for at, op := range all.Ops {
			kind, name, _ := strings.Cut(op, " ")
			if name != "stdout" || kind != "write" {
				continue
			}
			for _, f := range []string{"fail", "short"} {
				q2 := q
				q2.Faults, q2.At = f, at
				if resp := c.do(&q2); resp.OK || resp.Err == "" {
					return fmt.Sprintf("package %s printed, write %d made to %s: the generator reports success", pkg, at, f)
				}
			}
		}
	}
	return ""
}

// c22cli tries the ways to name the schemas.
func c22cli(add func(*outJob)) {
	files := []genw.File{{Name: "a.zs", Src: "package a; struct A { uint8 x; };"}, {Name: "sub/b.zserio", Src: "package b; struct B { uint8 x; };"},
		{Name: "sub/deep/c.zs", Src: "package c.d; struct C { uint8 x; };"}, {Name: ".hidden/h.zs", Src: "package h; struct H { uint8 x; };"},
		{Name: "sub/.h.zs", Src: "package g; struct G { uint8 x; };"}, {Name: "sub/notes.txt", Src: "not a schema"}}
	st := func(name string) outPkg {
		return outPkg{map[string]string{"A": "a", "B": "b", "C": "c.d", "H": "h", "G": "g"}[name], []gsch.Def{{Kind: "struct", Name: name}}}
	}
	for _, c := range []struct {
		args string
		want string
	}{{".", "ABC"}, {"./", "ABC"}, {"sub", "BC"}, {"sub/", "BC"}, {"./sub", "BC"}, {"sub/..", "ABC"}, {"sub/.", "BC"}, {"../in", "ABC"}, {"sub/deep", "C"}, {".hidden", "H"}, {"./.hidden", "H"}, {"sub/../.hidden/", "H"},
		{"a.zs", "A"}, {"sub/b.zserio", "B"}, {"sub/.h.zs", "G"}, {"a.zs sub/b.zserio", "AB"}, {"sub/b.zserio a.zs", "AB"}, {"sub/deep/c.zs .hidden/h.zs a.zs", "ACH"}, {"nosuch", ""}, {"nosuch.zs a.zs", ""}, {"a.zs nosuch.zs", ""}, {"a.zs sub", ""}, {"sub/notes.txt a.zs", ""}} {
		for _, out := range []string{"gen", "./gen", "gen/x", "gen/x/", "../elsewhere", "sub/../gen"} {
			j := &outJob{family: "arguments", name: c.args + ", out " + out, files: files, cli: true, req: genw.Req{Args: strings.Fields(c.args), Chdir: true}, must: c.want != "", mustFail: c.want == ""}
			j.req.Out = out
			for _, n := range c.want {
				j.pkgs = append(j.pkgs, st(string(n)))
			}
			add(j)
		}
	}
}
