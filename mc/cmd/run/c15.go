package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"mc/bind"
	"mc/fam"
	"mc/rep"
	"mc/sched"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

// C15: operation histories, controlled schedules, orders of first use.
//
// The process started by the driver hands out jobs to copies of itself, since
// a schedule controls everything in its process, and since the first use of a
// type needs a new process.
func init() { checks["C15"] = c15 }

type job struct {
	Kind  string // hist, sched, first, race
	Roots []string
	Arg   int
}

type jobOut struct {
	Fails                 [][2]string
	States, Trans, Traces int
	Adds                  map[string]int
	Distinct              []string
	Samples               []string
}

func c15(rp *rep.R) {
	if k := os.Getenv("C15_JOB"); k != "" {
		c15job(k)
		return
	}
	set := fam.Get("C15", rp.Thorough())
	var jobs []job
	names := make([]string, len(set.Roots))
	for i, r := range set.Roots {
		names[i] = r.Name
	}
	seen := map[string]bool{}
	var reps []string
	for _, r := range set.Roots {
		if k := shapeOf(r); !seen[k] {
			seen[k] = true
			reps = append(reps, r.Name)
		}
	}
	chunk := func(kind string, l []string, n, arg int) {
		for i := 0; i < len(l); i += n {
			j := i + n
			if j > len(l) {
				j = len(l)
			}
			jobs = append(jobs, job{kind, l[i:j], arg})
		}
	}
	// with a partner for the ring
	for i := 0; i < len(names); i += 12 {
		j := i + 13
		if j > len(names) {
			j = len(names)
		}
		jobs = append(jobs, job{"sched", names[i:j], 0})
	}
	for i := range reps {
		l := append([]string{reps[i]}, reps[i+1:]...)
		jobs = append(jobs, job{"pairs", l, 0})
		jobs = append(jobs, job{"deep", reps[i : i+1], 0})
	}
	chunk("hist", names, 40, 0)
	for i := range names {
		jobs = append(jobs, job{"first", names, i})
	}
	chunk("race", names, 25, 0)
	rf := reps
	if rp.Thorough() {
		rf = names
	}
	for i := range rf {
		jobs = append(jobs, job{"racefirst", rf[i : i+1], 0})
	}
	rp.Add("types", len(names))
	rp.Add("representative_types", len(reps))
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if rp.Out() {
					continue
				}
				runJob(rp, j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// shapeOf is the container and the kinds of the fields of a type.
func shapeOf(r *fam.Root) string {
	s := fmt.Sprint(r.T.K)
	k := map[string]bool{}
	for _, f := range r.T.Fields {
		m := ""
		switch {
		case f.T.Compound():
			m = "c"
		case f.T.K == zs.KBytes || f.T.K == zs.KExtern || f.T.K == zs.KString:
			m = fmt.Sprint(f.T.K)
		case f.T.K == zs.KF16 || f.T.K == zs.KF32 || f.T.K == zs.KF64:
			m = "f"
		case f.T.K == zs.KEnum || f.T.K == zs.KBitmask:
			m = "e"
		default:
			m = "i"
		}
		if f.Opt {
			m += "?"
		}
		if f.Arr != nil {
			m += fmt.Sprint("[", f.Arr.Packed, "]")
		}
		k[m] = true
	}
	var l []string
	for x := range k {
		l = append(l, x)
	}
	sort.Strings(l)
	return s + strings.Join(l, ",")
}

func runJob(rp *rep.R, j job) {
	b, _ := json.Marshal(j)
	bin := os.Args[0]
	if strings.HasPrefix(j.Kind, "race") {
		bin = os.Getenv("RACE_BIN")
	}
	start := time.Now()
	cmd := exec.Command(bin, "C15")
	cmd.Env = append(os.Environ(), "C15_JOB="+string(b), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var o jobOut
	ok := false
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if l := sc.Text(); strings.HasPrefix(l, "JOB ") && json.Unmarshal([]byte(l[4:]), &o) == nil {
			ok = true
		}
	}
	if err != nil || !ok {
		e := errb.String()
		if len(e) > 6000 {
			e = e[:6000]
		}
		key := "crash"
		if strings.Contains(e, "DATA RACE") {
			key = "race"
		}
		desc := j.Roots
		if len(desc) > 30 {
			desc = desc[:30]
		}
		if key == "crash" && strings.Contains(e, "signal: killed") || err != nil && err.Error() == "signal: killed" {
			fmt.Fprintln(os.Stderr, "job killed, not judged:", j.Kind, desc)
			rp.Add("jobs_killed", 1)
			return
		}
		rp.Fail(key+" "+j.Kind, fmt.Sprintf("%s while running %s over %v (first %d): %v\n%s", key, j.Kind, desc, j.Arg, err, e))
		return
	}
	for _, f := range o.Fails {
		rp.Fail(f[0], f[1])
	}
	rp.Count(o.States, o.Trans, o.Traces)
	rp.Add("jobs_"+j.Kind, 1)
	rp.Add("cpu_ms_"+j.Kind, int(time.Since(start).Milliseconds()))
	for k, v := range o.Adds {
		rp.Add(k, v)
	}
	for _, d := range o.Distinct {
		rp.Distinct(d)
	}
	for _, s := range o.Samples {
		rp.Sample("%s", s)
	}
}

// obj is a value of a root, with its encoding.
type obj struct {
	r    *fam.Root
	v    *zs.Val
	p    map[string]int64
	bits *zs.Bits
	data []byte
}

// twoObjs picks two values of a type whose encodings differ, as rich as possible.
func twoObjs(r *fam.Root, n int) []*obj {
	var all []*obj
	forValues(r, 200, func(v *zs.Val, p map[string]int64) {
		b, err := model(r, v, p, 0)
		if err == nil && b.Len() > 0 && len(all) < 4000 {
			all = append(all, &obj{r, v, p, b, b.Bytes()})
		}
	})
	sort.SliceStable(all, func(i, j int) bool { return clamp(all[i].bits.Len()) > clamp(all[j].bits.Len()) })
	var out []*obj
	seen := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, o := range all {
			k := string(o.data)
			if pass == 1 {
				k += fmt.Sprint(o.p, zs.Show(r.T, o.v))
			}
			if !seen[k] && len(out) < n {
				seen[k] = true
				out = append(out, o)
			}
		}
	}
	for len(out) > 0 && len(out) < n {
		out = append(out, out[0])
	}
	return out
}

// clamp makes encodings beyond some size as little worth as short ones.
func clamp(n int) int {
	if n > 600 {
		return 1
	}
	return n
}

// task is one operation of one thread together with its expected outcome.
type task struct {
	o    *obj
	op   byte // M marshal, S size, U unmarshal; P and Q are M and U by Marshal and Unmarshal
	real zserio.ZserioType
	io   bool
	got  []byte
	size int
	err  error
	dec  zserio.ZserioType
}

func newTask(o *obj, op byte) *task {
	t := &task{o: o, op: op}
	t.real = build(o.r, o.v, o.p)
	return t
}

func (t *task) prepare() {
	t.got, t.err, t.size = nil, nil, 0
	if t.op == 'U' || t.op == 'Q' {
		t.dec = newObj(t.o.r)
		setParams(t.dec, t.o.r.T, t.o.p)
	}
}

func (t *task) run() {
	switch t.op {
	case 'M':
		var buf bytes.Buffer
		w := zstream.NewWriter(&buf)
		if t.err = t.real.MarshalZserio(&yieldWriter{w}); t.err == nil {
			t.err = w.Close()
		}
		t.got = buf.Bytes()
	case 'P':
		t.got, t.err = zserio.Marshal(t.real)
	case 'Q':
		t.err = zserio.Unmarshal(t.o.data, t.dec)
	case 'S':
		t.size, t.err = t.real.ZserioBitSize(0)
	case 'U':
		t.err = t.dec.UnmarshalZserio(&yieldReader{zstream.NewReader(bytes.NewReader(t.o.data))})
	}
}

func (t *task) check() string {
	if t.err != nil {
		return fmt.Sprintf("%s fails: %v", opName(t.op), t.err)
	}
	switch t.op {
	case 'M', 'P':
		if !bytes.Equal(t.got, t.o.data) {
			return fmt.Sprintf("marshalling gives %x, alone it gives %x", t.got, t.o.data)
		}
	case 'S':
		if t.size != t.o.bits.Len() {
			return fmt.Sprintf("bit size is %d, must be %d", t.size, t.o.bits.Len())
		}
	case 'U', 'Q':
		if d := diff(t.o.r, t.dec, t.o.v, t.o.p); d != "" {
			return "unmarshalled object differs: " + d
		}
	}
	return ""
}

func opName(op byte) string {
	return map[byte]string{'M': "marshalling", 'S': "sizing", 'U': "unmarshalling", 'P': "Marshal", 'Q': "Unmarshal"}[op]
}

type yieldWriter struct{ w zserio.Writer }

func (y *yieldWriter) Write(p []byte) (int, error) {
	sched.YIO()
	defer sched.YIO()
	return y.w.Write(p)
}
func (y *yieldWriter) WriteByte(b byte) error {
	sched.YIO()
	defer sched.YIO()
	return y.w.WriteByte(b)
}
func (y *yieldWriter) WriteBits(v uint64, n uint8) error {
	sched.YIO()
	defer sched.YIO()
	return y.w.WriteBits(v, n)
}
func (y *yieldWriter) WriteBitsUnsafe(v uint64, n uint8) error {
	sched.YIO()
	defer sched.YIO()
	return y.w.WriteBitsUnsafe(v, n)
}
func (y *yieldWriter) WriteBool(b bool) error {
	sched.YIO()
	defer sched.YIO()
	return y.w.WriteBool(b)
}
func (y *yieldWriter) Align(n uint8) (int64, error) {
	sched.YIO()
	defer sched.YIO()
	return y.w.Align(n)
}

type yieldReader struct{ r zserio.Reader }

func (y *yieldReader) Read(p []byte) (int, error) {
	sched.YIO()
	defer sched.YIO()
	return y.r.Read(p)
}
func (y *yieldReader) ReadByte() (byte, error) { sched.YIO(); defer sched.YIO(); return y.r.ReadByte() }
func (y *yieldReader) ReadBits(n uint8) (uint64, error) {
	sched.YIO()
	defer sched.YIO()
	return y.r.ReadBits(n)
}
func (y *yieldReader) ReadBool() (bool, error) { sched.YIO(); defer sched.YIO(); return y.r.ReadBool() }
func (y *yieldReader) Align(n uint8) (int64, error) {
	sched.YIO()
	defer sched.YIO()
	return y.r.Align(n)
}

func c15job(k string) {
	var j job
	if err := json.Unmarshal([]byte(k), &j); err != nil {
		panic(err)
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	byName := map[string]*fam.Root{}
	for _, r := range fam.Merge(false, "C04", "C05", "C06", "C07", "C08", "C09", "C10").Roots {
		byName[r.Name] = r
	}
	var roots []*fam.Root
	for _, n := range j.Roots {
		roots = append(roots, byName[n])
	}
	c := &c15run{out: &jobOut{Adds: map[string]int{}}, thorough: thorough, dist: map[string]bool{}}
	switch j.Kind {
	case "hist":
		for _, r := range roots {
			c.history(r)
		}
	case "sched":
		for i, r := range roots {
			if len(roots) == 13 && i == 12 {
				break
			}
			c.self(r)
			c.pair(r, roots[(i+1)%len(roots)], 1, false)
		}
	case "pairs":
		for _, r := range roots[1:] {
			c.pair(roots[0], r, 1, false)
		}
	case "deep":
		c.deep(roots[0])
	case "first":
		c.first(roots, j.Arg)
	case "race":
		c.race(roots)
	case "racefirst":
		c.raceFirst(roots[0])
	}
	for d := range c.dist {
		c.out.Distinct = append(c.out.Distinct, d)
	}
	b, _ := json.Marshal(c.out)
	fmt.Printf("JOB %s\n", b)
	os.Exit(0)
}

type c15run struct {
	out      *jobOut
	thorough bool
	dist     map[string]bool
}

func (c *c15run) fail(r *fam.Root, o *obj, format string, a ...any) {
	if len(c.out.Fails) < 10 {
		c.out.Fails = append(c.out.Fails, [2]string{r.Desc, explain(r, o.v, o.p, 0, format, a...)})
	}
}

// schedules explores the interleavings of the tasks.
func (c *c15run) schedules(ts []*task, bound int, fine bool) bool {
	sched.Fine = fine
	mk := func() []func() {
		var fs []func()
		for _, t := range ts {
			t.prepare()
			fs = append(fs, t.run)
		}
		return fs
	}
	ok := true
	stuck := 0
	maxSteps := 0
	runs := sched.Explore(len(ts), bound, mk, func(first int, pts []sched.Point, r sched.Result) bool {
		why := r.Pan
		if r.Locked {
			why = "the threads never finish (deadlock)"
		}
		if r.Steps > maxSteps {
			maxSteps = r.Steps
		}
		for i, t := range ts {
			if why == "" {
				if why = t.check(); why != "" {
					why = fmt.Sprintf("thread %d: %s", i, why)
				}
			}
		}
		if why != "" {
			what := ""
			for i, t := range ts {
				what += fmt.Sprintf("\n thread %d: %s %s value %s", i, opName(t.op), t.o.r.Name, zs.Show(t.o.r.T, t.o.v))
			}
			c.fail(ts[0].o.r, ts[0].o, "%s\nschedule: starts with thread %d, preemptions %v (statements as steps: %v)%s", why, first, pts, fine, what)
			ok = false
		}
		if r.Stuck {
			stuck++
			c.out.Adds["schedules_left_uncontrolled"]++
		}
		c.out.Trans += r.Steps
		return ok && !r.Locked && stuck < 10
	})
	c.out.Traces += runs
	c.out.Adds[fmt.Sprintf("schedules_bound%d_fine=%v", bound, fine)] += runs
	if r := c.out.Adds["longest_schedule_steps"]; maxSteps > r {
		c.out.Adds["longest_schedule_steps"] = maxSteps
	}
	for i, t := range ts {
		if t.op != 'U' && t.op != 'Q' {
			if d := bind.DiffFields(reflect.ValueOf(t.real).Elem(), t.o.r.T, t.o.v, t.o.p, t.o.r.T.Name); d != "" && ok {
				c.fail(t.o.r, t.o, "thread %d: encoding changed the object: %s", i, d)
				return false
			}
		}
	}
	return ok
}

func (c *c15run) self(r *fam.Root) {
	o := twoObjs(r, 2)
	if len(o) == 0 {
		return
	}
	c.out.States += 2
	for _, m := range []string{"MM", "MU", "UU"} {
		ts := []*task{newTask(o[0], m[0]), newTask(o[1], m[1])}
		if !c.schedules(ts, 1, true) || !c.schedules(ts, 2, false) {
			return
		}
		c.dist[fmt.Sprintf("%s %s %x %x", r.Name, m, o[0].data, o[1].data)] = true
	}
	for _, m := range []string{"SS", "SM", "PP", "PQ", "QQ"} {
		ts := []*task{newTask(o[0], m[0]), newTask(o[1], m[1])}
		if !c.schedules(ts, 1, true) {
			return
		}
	}
	if len(c.out.Samples) < 1 {
		c.out.Samples = append(c.out.Samples, fmt.Sprintf("%s: %x and %x in every interleaving", r.Desc, o[0].data, o[1].data))
	}
}

func (c *c15run) pair(r, q *fam.Root, bound int, fine bool) {
	a, b := twoObjs(r, 1), twoObjs(q, 1)
	if len(a) == 0 || len(b) == 0 {
		return
	}
	for _, m := range []string{"MM", "MU", "UM", "UU"} {
		ts := []*task{newTask(a[0], m[0]), newTask(b[0], m[1])}
		if !c.schedules(ts, bound, fine) {
			return
		}
		if bound == 1 && !c.schedules(ts, 1, true) {
			return
		}
	}
}

// deep: three threads, and two preemptions at statements.
func (c *c15run) deep(r *fam.Root) {
	o := twoObjs(r, 3)
	if len(o) == 0 {
		return
	}
	// the smallest objects that still differ
	var all []*obj
	forValues(r, 60, func(v *zs.Val, p map[string]int64) {
		if b, err := model(r, v, p, 0); err == nil && b.Len() > 0 {
			all = append(all, &obj{r, v, p, b, b.Bytes()})
		}
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].bits.Len() < all[j].bits.Len() })
	var sm []*obj
	seen := map[string]bool{}
	for _, x := range all {
		if !seen[string(x.data)] && len(sm) < 3 {
			seen[string(x.data)] = true
			sm = append(sm, x)
		}
	}
	for len(sm) < 3 {
		sm = append(sm, sm[0])
	}
	limit := 60
	if c.thorough {
		limit = 400
	}
	for _, m := range []string{"MMM", "UUU", "MUM"} {
		ts := []*task{newTask(sm[0], m[0]), newTask(sm[1], m[1]), newTask(sm[2], m[2])}
		sched.Fine = false
		for _, t := range ts {
			t.prepare()
		}
		x := sched.Run([]func(){ts[0].run, ts[1].run, ts[2].run}, 0, nil)
		b := 1
		if x.Steps <= limit {
			b = 2
		}
		if !c.schedules(ts, b, false) {
			return
		}
	}
	limit = 150
	if c.thorough {
		limit = 600
	}
	for _, m := range []string{"MM", "UU", "MU", "SS"} {
		ts := []*task{newTask(sm[0], m[0]), newTask(sm[1], m[1])}
		sched.Fine = true
		for _, t := range ts {
			t.prepare()
		}
		x := sched.Run([]func(){ts[0].run, ts[1].run}, 0, nil)
		if x.Steps <= limit {
			if !c.schedules(ts, 2, true) {
				return
			}
		}
	}
}

// snapshot shows everything in an object but the parameters of objects in it,
// which encoding is free to compute.
func snapshot(r *fam.Root, o any, inner bool) string {
	skip := map[string]bool{}
	if !inner {
		var add func(t *zs.Type, seen map[*zs.Type]bool)
		add = func(t *zs.Type, seen map[*zs.Type]bool) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, p := range t.Params {
				skip[bind.Title(p.Name)] = true
			}
			for _, f := range t.Fields {
				add(f.T, seen)
			}
		}
		add(r.T, map[*zs.Type]bool{})
	}
	var b strings.Builder
	var dump func(v reflect.Value)
	dump = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteByte('&')
			dump(v.Elem())
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				dump(v.Index(i))
				b.WriteByte(',')
			}
			b.WriteByte(']')
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				if skip[n] {
					continue
				}
				b.WriteString(n + ":")
				dump(v.Field(i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&b, "%x", v.Float())
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	dump(reflect.ValueOf(o).Elem())
	return b.String()
}

// history: all sequences of operations on two objects, including failing ones.
func (c *c15run) history(r *fam.Root) {
	os2 := twoObjs(r, 2)
	if len(os2) == 0 {
		return
	}
	depth := 3
	if c.thorough {
		depth = 4
	}
	ops := []string{"M0", "M1", "S0", "U0", "U1", "F0", "T1", "W0"}
	seq := make([]int, depth)
	for {
		objs := [2]zserio.ZserioType{build(r, os2[0].v, os2[0].p), build(r, os2[1].v, os2[1].p)}
		cur := [2]*obj{os2[0], os2[1]} // nil: unspecified after a failure
		var kept, copies [][]byte      // results that are still in use
		name := ""
		for _, x := range seq {
			op := ops[x]
			i := int(op[1] - '0')
			name += op + " "
			c.out.Trans++
			bad := func(format string, a ...any) bool {
				c.fail(r, os2[0], "after %s: %s\nobject 1 starts as %s", name, fmt.Sprintf(format, a...), zs.Show(r.T, os2[1].v))
				return false
			}
			ok := func() bool {
				var err error
				var pan string
				switch op[0] {
				case 'M':
					if cur[i] == nil {
						return true
					}
					before := snapshot(r, objs[i], false)
					var got []byte
					err, pan = guard(func() (e error) { got, e = zserio.Marshal(objs[i]); return })
					if err != nil || pan != "" || !bytes.Equal(got, cur[i].data) {
						return bad("marshalling gives %x %v %s, must be %x", got, err, pan, cur[i].data)
					}
					if after := snapshot(r, objs[i], false); after != before {
						return bad("marshalling changed the object\nfrom %s\n  to %s", before, after)
					}
					full := snapshot(r, objs[i], true)
					var again []byte
					err, pan = guard(func() (e error) { again, e = zserio.Marshal(objs[i]); return })
					if err != nil || pan != "" || !bytes.Equal(again, got) {
						return bad("the second encoding of an unchanged object is %x %v %s, the first was %x", again, err, pan, got)
					}
					if after := snapshot(r, objs[i], true); after != full {
						return bad("marshalling again changed the object\nfrom %s\n  to %s", full, after)
					}
					for k := range got {
						got[k] ^= 0xff // the bytes belong to the caller
					}
					if !bytes.Equal(again, cur[i].data) {
						return bad("the bytes of one result are those of another")
					}
					kept, copies = append(kept, got, again), append(copies, append([]byte{}, got...), append([]byte{}, again...))
				case 'S':
					if cur[i] == nil {
						return true
					}
					before := snapshot(r, objs[i], false)
					n := 0
					err, pan = guard(func() (e error) { n, e = objs[i].ZserioBitSize(0); return })
					if err != nil || pan != "" || n != cur[i].bits.Len() {
						return bad("bit size is %d %v %s, must be %d", n, err, pan, cur[i].bits.Len())
					}
					if after := snapshot(r, objs[i], false); after != before {
						return bad("sizing changed the object\nfrom %s\n  to %s", before, after)
					}
				case 'U':
					o := os2[1-i]
					setParams(objs[i], r.T, o.p)
					data := append([]byte{}, o.data...)
					err, pan = guard(func() error { return zserio.Unmarshal(data, objs[i]) })
					if err != nil || pan != "" {
						return bad("unmarshalling %x fails: %v %s", o.data, err, pan)
					}
					if !bytes.Equal(data, o.data) {
						return bad("unmarshalling changed its input")
					}
					for k := range data {
						data[k] ^= 0xff // the input belongs to the caller
					}
					cur[i] = o
				case 'W': // unmarshal again what it holds
					if cur[i] == nil {
						return true
					}
					err, pan = guard(func() error { return zserio.Unmarshal(cur[i].data, objs[i]) })
					if err != nil || pan != "" {
						return bad("unmarshalling %x fails: %v %s", cur[i].data, err, pan)
					}
				case 'F': // a write that fails halfway
					if cur[i] == nil {
						return true
					}
					for k := 0; k < 3; k++ {
						var buf bytes.Buffer
						w := zstream.NewWriter(&buf)
						_, pan = guard(func() error { return objs[i].MarshalZserio(&opWriter{w: w, fail: k * 2}) })
						if pan != "" {
							return bad("%s", pan)
						}
					}
				case 'T': // truncated input
					o := os2[i]
					setParams(objs[i], r.T, o.p)
					d := o.data[:len(o.data)/2]
					_, pan = guard(func() error { return zserio.Unmarshal(d, objs[i]) })
					if pan != "" {
						return bad("%s", pan)
					}
					cur[i] = nil
				}
				for k := range kept {
					if !bytes.Equal(kept[k], copies[k]) {
						return bad("the bytes that Marshal returned before, %x, have become %x", copies[k], kept[k])
					}
				}
				for k := range objs {
					if cur[k] == nil {
						continue
					}
					bind.Forget(reflect.ValueOf(objs[k]).Elem(), r.T, cur[k].v)
					if d := bind.DiffFields(reflect.ValueOf(objs[k]).Elem(), r.T, cur[k].v, cur[k].p, r.T.Name); d != "" {
						return bad("object %d is not what it must be: %s", k, d)
					}
				}
				return true
			}()
			if !ok {
				return
			}
		}
		c.out.Traces++
		i := 0
		for ; i < depth; i++ {
			if seq[i]++; seq[i] < len(ops) {
				break
			}
			seq[i] = 0
		}
		if i == depth {
			break
		}
	}
	c.out.States++
}

// first: the type at index arg is the first one used in this process.
func (c *c15run) first(roots []*fam.Root, arg int) {
	n := len(roots)
	for i := 0; i < n; i++ {
		k := arg + i
		if i > 6 && !c.thorough { // the first ones as neighbours, then every 7th
			k = arg + 7 + (i-7)*7
			if k >= arg+n {
				break
			}
		}
		r := roots[k%n]
		var os2 []*obj
		m := 0
		forValues(r, 6, func(v *zs.Val, p map[string]int64) {
			if b, err := model(r, v, p, 0); err == nil && m < 12 {
				m++
				os2 = append(os2, &obj{r, v, p, b, b.Bytes()})
			}
		})
		// the operation that comes first alternates
		ops := [][]byte{{'M', 'U', 'S'}, {'U', 'M', 'S'}, {'S', 'U', 'M'}}[(arg+i)%3]
		for _, op := range ops {
			for _, o := range os2 {
				t := newTask(o, op)
				t.prepare()
				_, pan := guard(func() error { t.run(); return nil })
				why := pan
				if why == "" {
					why = t.check()
				}
				if why != "" {
					c.fail(r, o, "in a process that first used %s: %s", roots[arg].Name, why)
					return
				}
				c.out.Trans++
			}
		}
	}
	c.out.Traces++
	c.out.Adds["first_use_orders"]++
}

// race: free running goroutines under the race detector.
func (c *c15run) race(roots []*fam.Root) {
	for i, r := range roots {
		q := roots[(i+1)%len(roots)]
		o := append(twoObjs(r, 2), twoObjs(q, 1)...)
		c.together(o, 4)
	}
}

func (c *c15run) raceFirst(r *fam.Root) {
	o := twoObjs(r, 2)
	c.together(append(o, o...), 1)
}

func (c *c15run) together(os2 []*obj, rounds int) {
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		var ts []*task
		for i, o := range os2 {
			for k, op := range []byte{'M', 'U', 'S'} {
				_ = k
				t := newTask(o, op)
				t.prepare()
				ts = append(ts, t)
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					t.run()
				}()
			}
			_ = i
		}
		close(start)
		wg.Wait()
		for _, t := range ts {
			if why := t.check(); why != "" {
				c.fail(t.o.r, t.o, "free running: %s", why)
				return
			}
		}
		c.out.Traces++
	}
	c.out.Adds["free_runs_under_race_detector"] += rounds
}
