// Command drive runs one property's check from the current /repo tree.
package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"mc/drv"
	"mc/fam"
	"mc/inst"
	"mc/rep"
)

func main() {
	id := os.Args[1]
	os.RemoveAll(filepath.Join(os.Getenv("VERIF_DIR"), "replays", id))
	w := drv.New(id)
	th := os.Getenv("VERIF_TIER") == "thorough"
	if f := special[id]; f != nil {
		f(w, th)
		return
	}
	set := fam.Get(id, th)
	if set == nil {
		set = fam.NewSet()
	}
	prepare(w, id, set)
	overlay := ""
	if id == "C15" {
		overlay = instrument(w)
	}
	bin, out, rc := w.BuildRun(false, overlay)
	buildOrFail(w, id, out, rc)
	os.Setenv("WORK_DIR", w.Dir)
	if id == "C15" {
		rb, out, rc := w.BuildRun(true, "")
		buildOrFail(w, id, out, rc)
		os.Setenv("RACE_BIN", rb)
	}
	execute(id, bin)
}

// execute runs the binary that decides the property. It ends by itself before
// its internal deadline; when it crashes or hangs, in the code under test or
// because generated types have lost their shape, that is a violation.
func execute(id, bin string) {
	cmd := exec.Command(bin, id)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	errs := &head{}
	cmd.Stdout, cmd.Stderr = os.Stdout, io.MultiWriter(os.Stderr, errs)
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan bool)
	go func() { cmd.Wait(); done <- true }()
	limit := 770*time.Second - time.Since(started)
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 4 * time.Hour
	}
	hung := false
	select {
	case <-done:
	case <-time.After(limit):
		hung = true
		cmd.Process.Signal(syscall.SIGQUIT) // dumps the stacks
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	rc := cmd.ProcessState.ExitCode()
	if rc == 0 || rc == 1 {
		os.Exit(rc)
	}
	text := errs.String()
	crashed := strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: ")
	// a stack in this project's own code or in code generated by it
	ours := strings.Contains(text, "woven-planet/go-zserio") || strings.Contains(text, "zg/")
	if hung && ours || crashed {
		what := "crashes"
		if hung {
			what = "does not end"
		}
		r := rep.New(id, "model_checking")
		r.Exhaustive = false
		r.Fail(what, fmt.Sprintf("running the generated code %s\n%s", what, drv.Head(text, 8000)))
		r.Done()
	}
	os.Exit(2)
}

// head keeps the first part of what is written to it.
type head struct{ b []byte }

func (t *head) Write(p []byte) (int, error) {
	if n := 1<<20 - len(t.b); n > 0 {
		t.b = append(t.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func (t *head) String() string { return string(t.b) }

var started = time.Now()

var special = map[string]func(*drv.Work, bool){}

// prepare generates code for the set; a generator failure is a violation, as
// every schema of the set is valid zserio accepted on the unchanged tree.
func prepare(w *drv.Work, id string, set *fam.Set) {
	w.BuildGenerator()
	zg := w.Module()
	w.Registry(zg, set)
	if len(set.Schemas)+len(set.Files) == 0 {
		return
	}
	dir := filepath.Join(w.Dir, "zs")
	files := w.WriteSchemas(set, dir)
	out, rc := w.Generate(files, zg, "--sql")
	if rc != 0 {
		r := rep.New(id, "model_checking")
		r.Exhaustive = false
		r.Fail("generate", fmt.Sprintf("the generator refuses valid schemas (exit %d), schemas in %s\n%s", rc, dir, drv.Tail(out, 4000)))
		r.Done()
	}
}

func buildOrFail(w *drv.Work, id, out string, rc int) {
	if rc == 0 {
		return
	}
	r := rep.New(id, "model_checking")
	r.Exhaustive = false
	r.Fail("build", fmt.Sprintf("generated code or its use does not compile, schemas in %s\n%s", filepath.Join(w.Dir, "zs"), drv.Head(out, 6000)))
	r.Done()
}

// instrument puts a scheduling point before every statement of the runtime
// library and the generated code.
func instrument(w *drv.Work) string {
	var files []string
	for _, d := range []string{"", "ztype", "zstream"} {
		m, _ := filepath.Glob(filepath.Join(w.Repo, d, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				files = append(files, f)
			}
		}
	}
	filepath.Walk(filepath.Join(w.Dir, "zg"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && filepath.Base(p) != "reg.go" {
			files = append(files, p)
		}
		return nil
	})
	ov, n, err := inst.Overlay(files, filepath.Join(w.Dir, "inst"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrumenting:", err)
		os.Exit(2)
	}
	os.Setenv("C15_SITES", fmt.Sprint(n))
	return ov
}
