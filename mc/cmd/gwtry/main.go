// Command gwtry runs the worker once on schema files (for replays).
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"mc/drv"
	"mc/genw"
	"mc/gw"
)

func main() {
	w := drv.New("gwtry")
	p := gw.New(w)
	defer p.Close()
	q := &genw.Req{Out: "o", Check: true, Want: true, SQL: true, Record: true, MaxLen: 260}
	for _, f := range os.Args[1:] {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		q.Files = append(q.Files, genw.File{Name: filepath.Base(f), Src: string(b)})
	}
	q.Faults = os.Getenv("FAULT")
	fmt.Sscan(os.Getenv("AT"), &q.At)
	r := p.Do(q, false)
	for i, op := range r.Ops {
		fmt.Println(i, op)
	}
	if r.Healed != nil {
		fmt.Println("healed:", r.HealedOK, r.Healed)
	}
	fmt.Println("ok:", r.OK, "error:", r.Err, "crash:", r.Crash)
	var names []string
	for n := range r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Println("==", n)
		if os.Getenv("SHOW") != "" {
			fmt.Println(r.Files[n])
		}
	}
	for _, e := range r.TypeErrs {
		fmt.Println("type error:", e)
	}
	fmt.Println("visits:", len(r.Visits), "sites:", len(p.Sites))
}
