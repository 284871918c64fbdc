package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"mc/drv"
	"mc/genw"
	"mc/gsch"
	"mc/gw"
	"mc/rep"
)

// C24: the layout of a schema, the comments in it, how its numbers are spelled
// and the order of its definitions do not change the generated code. Every gap
// between two tokens gets every filler, every number every spelling, and the
// definitions of a file are put into every order (or, when they are many,
// orders that put every two of them both ways around).

func init() { special["C24"] = c24 }

// tokens is Go source without comments and layout, the imports in order.
func tokens(src string) string {
	fs := token.NewFileSet()
	var s scanner.Scanner
	bad := ""
	s.Init(fs.AddFile("", -1, len(src)), []byte(src), func(_ token.Position, msg string) { bad += "\nERROR " + msg }, 0)
	var b strings.Builder
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON {
			lit = ";"
		}
		if lit == "" {
			lit = t.String()
		}
		b.WriteString(lit)
		b.WriteByte('\n')
	}
	out := b.String()
	if head, rest, ok := strings.Cut(out, "\nimport\n(\n"); ok {
		specs, rest, _ := strings.Cut(rest, ";\n)\n")
		list := strings.Split(specs, ";\n")
		sort.Strings(list)
		out = head + "\nimport\n(\n" + strings.Join(list, ";\n") + ";\n)\n" + rest
	}
	return out + bad
}

func layoutOutcome(r *genw.Resp) string {
	var n []string
	for f, src := range r.Files {
		if strings.HasSuffix(f, ".go") {
			src = tokens(src)
		}
		n = append(n, f+"\n"+src)
	}
	sort.Strings(n)
	switch {
	case r.Crash != "":
		return "crashed " + r.Crash
	case !r.OK:
		return "refused " + r.Err
	}
	return strings.Join(n, "\n====\n")
}

// firstDiff shows where two outcomes part.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			lo := max(0, i-8)
			return fmt.Sprintf("original: %.600s\nchanged:  %.600s", strings.Join(x[lo:min(len(x), i+8)], " "), strings.Join(y[min(lo, len(y)):min(len(y), i+8)], " "))
		}
	}
	return "the changed schema gives more"
}

var fillers = []string{" ", "\t", "\n", "\r\n", "\f", "\n\n\n", "/* c */", "/** d */", "/***/", "/*! m !*/", "/*! m */", "/* a\n b */", "/** a\r\n * b\r\n */",
	"// l\n", "//\n", "// l\r\n", "// */\n", "/* /* */", "/* // */", "// /*\n", "/** struct X { uint8 a; }; */", "// ; }\n", "/* \" */", "/** é 日本 */", "/** // */ /** x */ // y\n"}

// definitions splits a file into what stays in front, the imports and the
// definitions.
func definitions(src string) (head string, imports, defs []string) {
	toks := gsch.Lex(src)
	depth, start := 0, 0
	for _, t := range toks {
		switch t.Text {
		case "{", "(", "[":
			depth++
		case "}", ")", "]":
			depth--
		case ";":
			if depth != 0 {
				continue
			}
			end := t.At + 1
			d := src[start:end]
			first := gsch.Lex(d)[0].Text
			switch first {
			case "package", "zserio_compatibility_version":
				head += d + "\n"
			case "import":
				imports = append(imports, d)
			default:
				defs = append(defs, d)
			}
			start = end
		}
	}
	return
}

// spellings are other ways to write the decimal number.
func spellings(text string) []string {
	n, err := strconv.ParseUint(text, 10, 63)
	if err != nil {
		return nil
	}
	out := []string{fmt.Sprintf("0x%x", n), fmt.Sprintf("0X%X", n), fmt.Sprintf("%bb", n), fmt.Sprintf("%bB", n), fmt.Sprintf("0x00%x", n)}
	if n > 0 {
		out = append(out, fmt.Sprintf("0%o", n))
	}
	return out
}

func c24(w *drv.Work, th bool) {
	r := rep.New("C24", "model_checking")
	p := gw.New(w)
	type base struct {
		gsch.Set
		all bool // every filler in every gap, in the thorough tier
		sql bool
	}
	var bases []base
	for _, s := range gsch.Sets {
		bases = append(bases, base{s, true, false})
	}
	for _, s := range gsch.LayoutSets {
		bases = append(bases, base{s, true, true})
	}
	for _, s := range gsch.Repo(w.Repo) {
		bases = append(bases, base{s, false, true})
	}
	ask := func(b *base, files []genw.File, fresh bool) string {
		return layoutOutcome(p.Do(&genw.Req{Out: "o", MaxLen: 260, SQL: b.sql, NoFmt: true, Files: files, Want: true}, fresh))
	}
	want := make([]string, len(bases))
	p.Each(len(bases), func(i int) { want[i] = ask(&bases[i], bases[i].Files, false) })
	type job struct {
		base int
		what string
		file int
		src  string
	}
	var jobs []job
	kinds := map[string]int{}
	gaps := map[[2]string]bool{} // pairs of token kinds whose gap had every filler
	for bi := range bases {
		b := &bases[bi]
		if !strings.Contains(want[bi], "\npackage\n") {
			r.Fail(b.Name, fmt.Sprintf("schema set %q: the generator does not accept it: %.300s\n\n%s", b.Name, want[bi], showFiles(b.Files)))
			continue
		}
		for k, f := range b.Files {
			toks := gsch.Lex(f.Src)
			same := func(src string) bool { return sameTokens(src, toks) }
			add := func(kind, what, src string) {
				if src != f.Src && (strings.HasPrefix(kind, "another order") || kind == "another spelling of a number" || same(src)) {
					jobs = append(jobs, job{bi, what, k, src})
					kinds[kind]++
				}
			}
			at := func(i int) int {
				if i < len(toks) {
					return toks[i].At
				}
				return len(f.Src)
			}
			dense := ""
			for i := 0; i <= len(toks); i++ {
				var gap [2]string
				if i > 0 {
					gap[0] = toks[i-1].Kind
				}
				if i < len(toks) {
					gap[1] = toks[i].Kind
				}
				all := th && b.all || !gaps[gap]
				gaps[gap] = true
				for n, c := range fillers {
					if !all && n != i%len(fillers) && (n != (i*7+3)%len(fillers) || !b.all) {
						continue
					}
					add("a filler in one gap", fmt.Sprintf("%s: %q before token %d", f.Name, c, i), f.Src[:at(i)]+c+f.Src[at(i):])
					if i > 0 && n < 6 { // instead of what is there
						end := toks[i-1].At + len(toks[i-1].Text)
						if x := f.Src[:end] + c + f.Src[at(i):]; same(x) {
							add("other white space in one gap", fmt.Sprintf("%s: only %q before token %d", f.Name, c, i), x)
						}
					}
				}
				if i > 0 {
					end := toks[i-1].At + len(toks[i-1].Text)
					if x := f.Src[:end] + f.Src[at(i):]; same(x) {
						add("no gap", fmt.Sprintf("%s: nothing before token %d", f.Name, i), x)
					}
				}
				if i < len(toks) {
					t := toks[i]
					if dense != "" && !sameTokens(dense+t.Text, toks[:i+1]) {
						dense += " "
					}
					dense += t.Text
					if t.Kind == "INT" && !(i > 1 && toks[i-2].Text == "align") && !(i > 1 && toks[i-1].Text == ":" && (toks[i-2].Text == "bit" || toks[i-2].Text == "int")) {
						for _, s := range spellings(t.Text) {
							add("another spelling of a number", fmt.Sprintf("%s: token %d %s written %s", f.Name, i, t.Text, s), f.Src[:t.At]+s+f.Src[t.At+len(t.Text):])
						}
					}
				}
			}
			add("as little layout as possible", f.Name+": as little white space as possible", dense)
			for _, c := range fillers {
				var x strings.Builder
				for _, t := range toks {
					x.WriteString(" " + c + " ")
					x.WriteString(t.Text)
				}
				add("a filler in every gap", fmt.Sprintf("%s: %q in every gap", f.Name, c), x.String()+" "+c)
			}
			add("line ends", f.Name+": \\r\\n at the end of lines", strings.ReplaceAll(f.Src, "\n", "\r\n"))
			add("line ends", f.Name+": no line end at the end", strings.TrimRight(f.Src, "\n"))
			add("line ends", f.Name+": a comment without a line end at the end", f.Src+"// x")
			head, imports, defs := definitions(f.Src)
			full := 4
			if th {
				full = 6
			}
			// which of two homonymous imported symbols is taken is left open
			if len(imports) > 1 && b.Name != "ambiguous" {
				for _, perm := range permutations(len(imports), full) {
					x := head
					for _, d := range perm {
						x += imports[d] + "\n"
					}
					add("another order of the imports", fmt.Sprintf("%s: the imports in the order %v", f.Name, perm), x+strings.Join(defs, "\n"))
				}
			}
			head += strings.Join(imports, "\n")
			if len(defs) > 1 {
				for _, perm := range permutations(len(defs), full) {
					x := head
					for _, d := range perm {
						x += defs[d] + "\n"
					}
					add("another order of the definitions", fmt.Sprintf("%s: the definitions in the order %v", f.Name, perm), x)
				}
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].src) < len(jobs[j].src) })
	p.Each(len(jobs), func(i int) {
		j := jobs[i]
		if r.Out() || r.Violations() > 500 {
			return
		}
		b := &bases[j.base]
		files := append([]genw.File(nil), b.Files...)
		files[j.file].Src = j.src
		got := ask(b, files, false)
		r.Count(1, 1, 1)
		r.Distinct(fmt.Sprint(b.Name, j.what))
		if got == want[j.base] {
			return
		}
		orig := ask(b, b.Files, true)
		if got = ask(b, files, true); got == orig {
			return
		}
		r.Fail(b.Name, fmt.Sprintf("schema set %q, %s, changes the generated code:\n%s\n\n%s", b.Name, j.what, firstDiff(orig, got), showFiles(files)))
	})
	r.Extra["kinds_of_changes"] = kinds
	r.Extra["schema_sets"] = len(bases)
	for k := 0; k < 8 && len(jobs) > 0; k++ {
		j := jobs[k*(len(jobs)-1)/8]
		r.Sample("%s: %s", bases[j.base].Name, j.what)
	}
	p.Close()
	r.Done()
}

func sameTokens(src string, toks []gsch.Tok) bool {
	got := gsch.Lex(src)
	if len(got) != len(toks) {
		return false
	}
	for i := range got {
		if got[i].Kind != toks[i].Kind || got[i].Text != toks[i].Text {
			return false
		}
	}
	return true
}
