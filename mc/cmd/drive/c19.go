package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"mc/drv"
	"mc/genw"
	"mc/gsch"
	"mc/gw"
	"mc/rep"
)

func init() { special["C19"] = c19 }

func showFiles(files []genw.File) string {
	var src strings.Builder
	for _, f := range files {
		fmt.Fprintf(&src, "--- %s\n%s\n", f.Name, f.Src)
	}
	return src.String()
}

// with returns the files with one of them changed.
func with(files []genw.File, k int, src string) []genw.File {
	out := append([]genw.File(nil), files...)
	out[k].Src = src
	return out
}

// missingImport reports whether a file imports the package of one that is gone.
func missingImport(rest []genw.File, gone genw.File) bool {
	_, name, _ := strings.Cut(gone.Src, "package ")
	name, _, _ = strings.Cut(name, ";")
	for _, f := range rest {
		for _, part := range strings.Split(f.Src, "import ")[1:] {
			imported, _, _ := strings.Cut(part, ";")
			if strings.TrimSuffix(imported, ".*") == name {
				return true
			}
		}
	}
	return false
}

type mutant struct {
	key    string // where it comes from
	files  []genw.File
	refuse bool // must be refused
	why    string
}

func c19(w *drv.Work, th bool) {
	r := rep.New("C19", "model_checking")
	p := gw.New(w)
	var jobs []mutant
	inserted := []string{";", "{", ")", "<", ">", ",", ":", ".", "[", "zzz", "7", "uint8", "if", "@", "\"", "0x", "packed", "(", "}", "="}
	if th {
		inserted = append(inserted, "]", "*", "@index", "struct", "1b2", "#", "/*", "'", "\x00", "é", "true", "on", "\"s\"", "-", "!", "function", "case", "default", "enum", "package", "import", "optional", "align", "1.5", "sql_table")
	}
	sets := gsch.Sets
	syntax := func(set gsch.Set, k int, op, src string) {
		t := gsch.Lex(src)
		bad := !gsch.Valid(t)
		jobs = append(jobs, mutant{set.Name + "/" + set.Files[k].Name + ": " + op, with(set.Files, k, src), bad, "syntax error"})
	}
	for _, set := range sets {
		jobs = append(jobs, mutant{set.Name + ": as it is", set.Files, false, "valid"})
		// names defined and used in the set
		defs, refs := map[string]int{}, map[string]int{}
		type use struct {
			file, at int
			role     []string
		}
		var ids []use
		for k, f := range set.Files {
			toks := gsch.Lex(f.Src)
			for i, t := range toks {
				if t.Kind != "ID" {
					continue
				}
				role := gsch.RoleOf(toks, i)
				ids = append(ids, use{k, i, role})
				switch role[0] {
				case "typeRef", "exprRef", "member", "importPackage", "importSymbol":
					refs[t.Text]++
				default:
					defs[t.Text]++
				}
			}
		}
		for _, u := range ids {
			f := set.Files[u.file]
			toks := gsch.Lex(f.Src)
			t := toks[u.at]
			must := false
			switch u.role[0] {
			case "typeRef", "exprRef", "member", "importPackage", "importSymbol":
				must = true
			case "package":
				must = refs[t.Text] > 0 && defs[t.Text] == 1
			default:
				must = refs[t.Text] > 0 && defs[t.Text] == 1
			}
			src := f.Src[:t.At] + "zzUnknown" + f.Src[t.At+len(t.Text):]
			jobs = append(jobs, mutant{fmt.Sprintf("%s/%s: name %d %s (%s) replaced by one that is defined nowhere", set.Name, f.Name, u.at, t.Text, strings.Join(u.role, " or ")),
				with(set.Files, u.file, src), must, "unresolvable " + u.role[0]})
		}
		for k, f := range set.Files {
			if len(set.Files) > 1 {
				// a missing file
				var rest []genw.File
				rest = append(rest, set.Files[:k]...)
				rest = append(rest, set.Files[k+1:]...)
				jobs = append(jobs, mutant{set.Name + ": without " + f.Name, rest, missingImport(rest, f), "missing import"})
			}
			toks := gsch.Lex(f.Src)
			for i, t := range toks {
				at, end := t.At, t.At+len(t.Text)
				syntax(set, k, fmt.Sprintf("token %d %q deleted", i, t.Text), f.Src[:at]+f.Src[end:])
				syntax(set, k, fmt.Sprintf("token %d %q doubled", i, t.Text), f.Src[:end]+" "+f.Src[at:])
				syntax(set, k, fmt.Sprintf("cut before token %d %q", i, t.Text), f.Src[:at])
				if len(t.Text) > 1 {
					syntax(set, k, fmt.Sprintf("cut inside token %d %q", i, t.Text), f.Src[:at+1])
				}
				if i+1 < len(toks) {
					n := toks[i+1]
					syntax(set, k, fmt.Sprintf("tokens %d %q and %q swapped", i, t.Text, n.Text), f.Src[:at]+n.Text+" "+t.Text+" "+f.Src[n.At+len(n.Text):])
				}
				for _, x := range inserted {
					syntax(set, k, fmt.Sprintf("token %d %q replaced by %q", i, t.Text, x), f.Src[:at]+" "+x+" "+f.Src[end:])
					if th || len(toks) < 130 {
						syntax(set, k, fmt.Sprintf("%q inserted before token %d %q", x, i, t.Text), f.Src[:at]+" "+x+" "+f.Src[at:])
					}
				}
			}
		}
	}
	for _, x := range gsch.Invalid() {
		jobs = append(jobs, mutant{x.Name, x.Files, true, "invalid"})
	}
	var syn, sem, acc, ref atomic.Int64
	run1 := func(m mutant, fresh, noFmt bool) (string, string) {
		resp := p.Do(&genw.Req{Out: "o", MaxLen: 260, Files: m.files, SQL: !noFmt, NoFmt: noFmt}, fresh)
		switch {
		case resp.Crash != "":
			first, _, _ := strings.Cut(resp.Crash, "\n")
			return "crash", "the generator crashes: " + first + "\n" + resp.Crash
		case resp.OK && m.refuse:
			return "accepted", fmt.Sprintf("the generator accepts the schema (%s) and writes %d files", m.why, len(resp.Tree))
		case !resp.OK && m.why == "valid":
			return "refused", "the generator refuses a valid schema: " + resp.Err
		case !resp.OK && strings.TrimSpace(strings.TrimPrefix(resp.Err, "Error:")) == "":
			return "silent", "the generator fails without an error message"
		}
		if resp.OK {
			acc.Add(1)
			return "", "accepted"
		}
		ref.Add(1)
		return "", "refused: " + resp.Err
	}
	run := func(m mutant, fresh bool) (string, string) {
		kind, detail := run1(m, fresh, false)
		if kind == "" && m.refuse && m.why != "syntax error" {
			// not just because what is written cannot be formatted
			if kind, detail := run1(m, fresh, true); kind != "" {
				return kind, detail + " (with --noformat)"
			}
		}
		return kind, detail
	}
	if len(jobs) > 0 {
		for k := 0; k < 8; k++ {
			r.Sample("%s", jobs[k*(len(jobs)-1)/8].key)
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].files[0].Src) < len(jobs[j].files[0].Src) })
	p.Each(len(jobs), func(i int) {
		m := jobs[i]
		if r.Out() {
			return
		}
		if m.refuse && m.why == "syntax error" {
			syn.Add(1)
		} else {
			sem.Add(1)
		}
		kind, detail := run(m, false)
		r.Count(1, 1, 1)
		r.Distinct(detail)
		if kind == "" {
			return
		}
		if k2, _ := run(m, true); k2 == "" {
			return // only in a process that ran before
		}
		key := kind + ": " + m.key
		if kind == "crash" {
			l := strings.Split(detail, "\n")
			key = "crash: " + strings.TrimPrefix(l[0], "the generator crashes: ")
			for _, x := range l[2:] {
				if strings.Contains(x, "internal/") {
					key += " at " + x[strings.LastIndex(x, "internal/"):]
					break
				}
			}
		}
		r.Fail(key, detail+"\n"+m.key+"\n\n"+showFiles(m.files))
	})
	r.Extra["schemas_with_a_syntax_error"] = int(syn.Load())
	r.Extra["other_schemas"] = int(sem.Load())
	r.Extra["accepted"] = int(acc.Load())
	r.Extra["refused"] = int(ref.Load())
	p.Close()
	r.Done()
}
