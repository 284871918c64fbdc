package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"mc/drv"
	"mc/genw"
	"mc/gsch"
	"mc/gw"
	"mc/rep"
)

func init() { special["C18"] = c18 }

func c18(w *drv.Work, th bool) {
	r := rep.New("C18", "model_checking")
	p := gw.New(w)
	var jobs []gsch.Prog
	for _, s := range gsch.Sets {
		jobs = append(jobs, gsch.Prog{Family: "seeds", Name: s.Name, Files: s.Files, Must: true})
	}
	repo := gsch.Repo(w.Repo)
	for _, s := range repo {
		jobs = append(jobs, gsch.Prog{Family: "seeds", Name: s.Name, Files: s.Files, Must: true, SQL: true})
	}
	gsch.Programs(th, repo, func(x gsch.Prog) {
		if f := os.Getenv("VERIF_FAMILY"); f == "" || f == x.Family {
			jobs = append(jobs, x)
		}
	})
	for k := 0; k < 8; k++ {
		r.Sample("%s: %s", jobs[k*(len(jobs)-1)/8].Family, jobs[k*(len(jobs)-1)/8].Name)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].Files[0].Src) < len(jobs[j].Files[0].Src) })
	var mu sync.Mutex
	accepted, refused := map[string]int{}, map[string]int{}
	run := func(x gsch.Prog, fresh bool) (string, string) {
		resp := p.Do(&genw.Req{Out: "o", MaxLen: 260, Files: x.Files, SQL: x.SQL, NoFmt: x.NoFmt, Root: x.Root, Pkgs: x.Pkgs, Check: true}, fresh)
		mu.Lock()
		if resp.OK {
			accepted[x.Family]++
		} else {
			refused[x.Family]++
			if os.Getenv("VERIF_SHOWREF") != "" {
				fmt.Println("REF", x.Name, "\t", resp.Err)
			}
		}
		mu.Unlock()
		switch {
		case resp.Crash != "" && x.Must:
			return "crash", resp.Crash
		case !resp.OK && x.Must:
			return "refused", "the generator refuses a valid schema: " + resp.Err
		case resp.OK && len(resp.TypeErrs) > 0:
			return "compile", "the generator exits successfully, but what it writes does not compile:\n" + strings.Join(resp.TypeErrs, "\n")
		}
		return "", fmt.Sprint(resp.OK, resp.Err)
	}
	p.Each(len(jobs), func(i int) {
		x := jobs[i]
		if r.Out() {
			return
		}
		kind, detail := run(x, false)
		r.Count(1, 1, 1)
		r.Distinct(x.Family + detail)
		if kind == "" {
			return
		}
		if k2, _ := run(x, true); k2 == "" {
			return
		}
		r.Fail(kind+": "+x.Family+": "+x.Name, detail+"\n"+x.Family+": "+x.Name+"\n\n"+showFiles(x.Files))
	})
	r.Extra["accepted"] = accepted
	r.Extra["refused"] = refused
	p.Close()
	r.Done()
}
