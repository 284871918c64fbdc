package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"mc/drv"
	"mc/genw"
	"mc/gsch"
	"mc/gw"
	"mc/rep"
)

func init() { special["C17"] = c17 }

// outcome is what the property compares: verdict and files.
func outcome(r *genw.Resp) string {
	var n []string
	for f, h := range r.Tree {
		n = append(n, f+" "+h)
	}
	sort.Strings(n)
	verdict := "refused"
	if r.OK {
		verdict = "accepted"
	}
	if r.Crash != "" {
		verdict = "crashed"
	}
	return verdict + "\n" + strings.Join(n, "\n") + "\n" + r.Stdout
}

// diff names the first difference of two outcomes.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]bool{}
	for _, l := range y {
		in[l] = true
	}
	for _, l := range x {
		if !in[l] {
			return "without the deviation: " + l
		}
	}
	in = map[string]bool{}
	for _, l := range x {
		in[l] = true
	}
	for _, l := range y {
		if !in[l] {
			return "with the deviation: " + l
		}
	}
	return "order of lines"
}

// permutations of n elements: all for n up to full, else a set that puts every
// pair of elements in both orders and every element first and last.
func permutations(n, full int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var out [][]int
	add := func(p []int) { out = append(out, append([]int(nil), p...)) }
	if n <= full {
		var rec func(k int, p []int)
		rec = func(k int, p []int) {
			if k == n {
				add(p)
				return
			}
			for i := k; i < n; i++ {
				p[k], p[i] = p[i], p[k]
				rec(k+1, p)
				p[k], p[i] = p[i], p[k]
			}
		}
		rec(0, append([]int(nil), id...))
		return out[1:]
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	add(rev)
	for i := 1; i < n; i++ { // i first
		p := []int{i}
		for j := range id {
			if j != i {
				p = append(p, j)
			}
		}
		add(p)
		// rotation
		add(append(append([]int{}, id[i:]...), id[:i]...))
	}
	return out
}

func c17(w *drv.Work, th bool) {
	r := rep.New("C17", "model_checking")
	p := gw.New(w)
	type base struct {
		name  string
		files []genw.File
		q     genw.Req
	}
	var bases []base
	for _, s := range gsch.Sets {
		bases = append(bases, base{s.Name, s.Files, genw.Req{Out: "o", SQL: true, MaxLen: 260}})
	}
	for _, s := range gsch.C17Sets() {
		bases = append(bases, base{s.Name, s.Files, genw.Req{Out: "o", SQL: true, MaxLen: 260}})
	}
	for _, b := range bases[:len(bases):len(bases)] {
		b.name += ", not formatted"
		b.q.NoFmt, b.q.SQL = true, false
		bases = append(bases, b)
	}
	for _, n := range []string{"templates", "files", "enums", "casepkg"} {
		s := gsch.ByName(n)
		bases = append(bases, base{n + ", short paths", s.Files, genw.Req{Out: "o", MaxRel: 16}})
		bases = append(bases, base{n + ", very short paths", s.Files, genw.Req{Out: "o", MaxRel: 12}})
		bases = append(bases, base{n + ", standard output", s.Files, genw.Req{Out: "-", Only: "a", MaxLen: 260}})
		bases = append(bases, base{n + ", standard output of an unknown package", s.Files, genw.Req{Out: "-", Only: "nope", MaxLen: 260}})
	}
	type job struct {
		b    *base
		what string
		q    genw.Req
		want string
	}
	var jobs []job
	var mu sync.Mutex
	visits := atomic.Int64{}
	sitesHit := map[int]bool{}
	p.Each(len(bases), func(i int) {
		b := &bases[i]
		q := b.q
		q.Files, q.Record = b.files, true
		r0 := p.Do(&q, false)
		want := outcome(r0)
		r.Distinct(want)
		q.Record = false
		var mine []job
		add := func(what string, q genw.Req) { mine = append(mine, job{b, what, q, want}) }
		for k := 0; k < 3; k++ {
			add("the same again", q)
		}
		visits.Add(int64(len(r0.Visits)))
		// the order of the files
		full := 4
		if th {
			full = 5
		}
		for _, perm := range permutations(len(b.files), full) {
			o := q
			o.Args = nil
			for _, k := range perm {
				o.Args = append(o.Args, b.files[k].Name)
			}
			add(fmt.Sprintf("files in the order %v", o.Args), o)
		}
		o := q
		o.Args = []string{"."}
		if len(b.files) > 0 {
			add("files found in their directory", o)
		}
		// one deviating iteration
		sites := map[int]bool{-1: true}
		for k, v := range r0.Visits {
			sites[v.Site] = true
			for _, perm := range permutations(v.N, full) {
				o := q
				o.Plan = map[int][]int{k: perm}
				add(fmt.Sprintf("iteration %d (%s, %d entries) in the order %v", k, p.Sites[v.Site], v.N, perm), o)
			}
		}
		// all iterations of a range statement, of two range statements
		var ss []int
		for s := range sites {
			ss = append(ss, s)
		}
		sort.Ints(ss)
		mu.Lock()
		for _, s := range ss {
			sitesHit[s] = true
		}
		mu.Unlock()
		name := func(s int) string {
			if s < 0 {
				return "everywhere"
			}
			return p.Sites[s]
		}
		for x, s := range ss {
			for _, rule := range []string{"rev", "rot"} {
				o := q
				o.SitePlan = map[int]string{s: rule}
				add(fmt.Sprintf("all iterations at %s: %s", name(s), rule), o)
				for _, s2 := range ss[x+1:] {
					for _, rule2 := range []string{"rev", "rot"} {
						o := q
						o.SitePlan = map[int]string{s: rule, s2: rule2}
						add(fmt.Sprintf("all iterations at %s: %s, at %s: %s", name(s), rule, name(s2), rule2), o)
					}
				}
			}
		}
		// two deviating iterations
		limit := 40
		if th {
			limit = 120
		}
		if len(r0.Visits) <= limit {
			for k, v := range r0.Visits {
				for k2 := k + 1; k2 < len(r0.Visits); k2++ {
					v2 := r0.Visits[k2]
					o := q
					rv := func(n int) []int { return permutations(n, 0)[0] }
					o.Plan = map[int][]int{k: rv(v.N), k2: rv(v2.N)}
					add(fmt.Sprintf("iterations %d (%s) and %d (%s) reversed", k, p.Sites[v.Site], k2, p.Sites[v2.Site]), o)
				}
			}
		}
		mu.Lock()
		jobs = append(jobs, mine...)
		mu.Unlock()
	})
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].b.name < jobs[j].b.name })
	p.Each(len(jobs), func(i int) {
		j := jobs[i]
		if r.Out() || r.Violations() > 2000 {
			return
		}
		q := j.q
		q.Files = j.b.files
		got := outcome(p.Do(&q, false))
		r.Count(1, 1, 1)
		r.Distinct(got)
		if got == j.want {
			return
		}
		// in new processes, to be sure
		q0 := j.b.q
		q0.Files = j.b.files
		a, b := outcome(p.Do(&q0, true)), outcome(p.Do(&q, true))
		if a == b {
			// state left over from other runs in this process, or randomness beyond the explored kinds
			for k := 0; k < 8 && a == b; k++ {
				b = outcome(p.Do(&q, true))
			}
			if a == b {
				return
			}
		}
		key := j.b.name
		var src strings.Builder
		for _, f := range j.b.files {
			fmt.Fprintf(&src, "--- %s\n%s", f.Name, f.Src)
		}
		r.Fail(key, fmt.Sprintf("schema set %q, %s: %s\n\n%s", j.b.name, j.what, diff(a, b), src.String()))
	})
	r.Extra["schema_sets_and_options"] = len(bases)
	r.Extra["map_iterations_in_the_undisturbed_runs"] = int(visits.Load())
	r.Extra["range_statements_over_maps"] = len(p.Sites)
	r.Extra["range_statements_reached"] = len(sitesHit) - 1
	if len(jobs) > 0 {
		for k := 0; k < 8; k++ {
			j := jobs[k*(len(jobs)-1)/8]
			r.Sample("%s: %s", j.b.name, j.what)
		}
	}
	p.Close()
	r.Done()
}
