// Package drv builds the generator from /repo, generates code for schema sets
// and builds binaries against that code.
package drv

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"mc/fam"
)

type Work struct {
	Dir   string // scratch
	Repo  string
	Verif string
	Gen   string // generator binary
}

func New(id string) *Work {
	verif := os.Getenv("VERIF_DIR")
	repo := os.Getenv("REPO_DIR")
	w := &Work{Dir: filepath.Join(verif, ".build", id), Repo: repo, Verif: verif}
	os.RemoveAll(w.Dir)
	must(os.MkdirAll(w.Dir, 0o755))
	w.Gen = filepath.Join(w.Dir, "go-zserio")
	return w
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "internal error:", err)
		os.Exit(2)
	}
}

// Run runs a command and returns combined output, exit code and whether it timed out.
func Run(dir string, env []string, timeout time.Duration, name string, args ...string) (string, int, bool) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return err.Error(), -1, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return out.String(), cmd.ProcessState.ExitCode(), false
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return out.String(), -1, true
	}
}

// BuildGenerator compiles cmd/go-zserio from the working tree.
func (w *Work) BuildGenerator(extra ...string) {
	args := append([]string{"build"}, extra...)
	args = append(args, "-o", w.Gen, "./cmd/go-zserio")
	out, rc, _ := Run(w.Repo, []string{"GOWORK=off"}, 10*time.Minute, "go", args...)
	if rc != 0 {
		fmt.Fprintln(os.Stderr, "generator does not build:\n"+out)
		os.Exit(2)
	}
}

// WriteSchemas writes a set's schema files, returning their paths.
func (w *Work) WriteSchemas(set *fam.Set, dir string) []string {
	must(os.MkdirAll(dir, 0o755))
	var files []string
	for _, s := range set.Schemas {
		p := filepath.Join(dir, strings.ReplaceAll(s.Pkg, ".", "_")+".zs")
		must(os.WriteFile(p, []byte(s.Text()), 0o644))
		files = append(files, p)
	}
	for n, t := range set.Files {
		p := filepath.Join(dir, n)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(t), 0o644))
		files = append(files, p)
	}
	sort.Strings(files)
	return files
}

// Module starts the generated module "zg" and the workspace.
func (w *Work) Module() string {
	zg := filepath.Join(w.Dir, "zg")
	must(os.MkdirAll(filepath.Join(zg, "reg"), 0o755))
	must(os.WriteFile(filepath.Join(zg, "go.mod"), []byte("module zg\n\ngo 1.24.4\n"), 0o644))
	must(os.WriteFile(filepath.Join(w.Dir, "go.work"), []byte(fmt.Sprintf("go 1.24.4\n\nuse (\n\t%s\n\t./zg\n\t%s\n)\n", w.Repo, filepath.Join(w.Verif, "mc"))), 0o644))
	return zg
}

func (w *Work) Env(extra ...string) []string {
	return append([]string{"GOWORK=" + filepath.Join(w.Dir, "go.work")}, extra...)
}

func pkgPath(pkg string) string { return strings.ToLower(strings.ReplaceAll(pkg, ".", "/")) }

// Registry writes zg/reg with a constructor for each root.
func (w *Work) Registry(zg string, set *fam.Set) {
	var b strings.Builder
	pk := map[string]string{}
	var order []string
	need := func(p string) {
		if pk[p] == "" {
			pk[p] = fmt.Sprintf("p%d", len(pk))
			order = append(order, p)
		}
	}
	roots := append(append([]*fam.Root{}, set.Roots...), set.Extra...)
	for _, r := range roots {
		need(r.Pkg)
	}
	for _, v := range set.Vals {
		need(v.Pkg)
	}
	b.WriteString("// Package reg lists the generated types.\npackage reg\n\nimport (\n")
	for _, p := range order {
		fmt.Fprintf(&b, "\t%s \"zg/%s\"\n", pk[p], pkgPath(p))
	}
	b.WriteString(")\n\nvar New = map[string]func() any{\n")
	seen := map[string]bool{}
	for _, r := range roots {
		if seen[r.Name] {
			continue
		}
		seen[r.Name] = true
		fmt.Fprintf(&b, "\t%q: func() any { return new(%s.%s) },\n", r.Name, pk[r.Pkg], r.T.Name)
	}
	b.WriteString("}\n\nvar Vals = map[string]any{\n")
	for _, v := range set.Vals {
		fmt.Fprintf(&b, "\t%q: %s,\n", v.Name, strings.ReplaceAll(v.Expr, "$", pk[v.Pkg]))
	}
	b.WriteString("}\n")
	must(os.WriteFile(filepath.Join(zg, "reg", "reg.go"), []byte(b.String()), 0o644))
}

// Generate runs the generator over the set into zg.
func (w *Work) Generate(files []string, zg string, extra ...string) (string, int) {
	args := append([]string{"generate", "--out", zg, "--rootpackage", "zg"}, extra...)
	args = append(args, files...)
	out, rc, to := Run(w.Dir, nil, 5*time.Minute, w.Gen, args...)
	if to {
		rc = 124
	}
	var keep []string
	for _, l := range strings.Split(out, "\n") {
		if !strings.Contains(l, " Parsing file ") && !strings.Contains(l, " Writing ") {
			keep = append(keep, l)
		}
	}
	return strings.Join(keep, "\n"), rc
}

// BuildRun compiles the generated code and cmd/run against it.
func (w *Work) BuildRun(race bool, overlay string) (string, string, int) {
	bin := filepath.Join(w.Dir, "run")
	args := []string{"build", "-o", bin}
	env := w.Env()
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-o", bin}
		env = w.Env("CGO_ENABLED=1")
	}
	if overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	out, rc, _ := Run(filepath.Join(w.Verif, "mc"), env, 12*time.Minute, "go", append(args, "mc/cmd/run")...)
	return bin, out, rc
}

func Tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}

func Head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}
