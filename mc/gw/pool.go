package gw

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/drv"
	"mc/genw"
)

type Pool struct {
	Bin, Exports, Dir string
	Sites             Sites
	n                 int
	next              atomic.Int64
	free              chan *proc
	Requests          atomic.Int64
}

type proc struct {
	p      *Pool
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *json.Decoder
	stderr *bytes.Buffer
	dir    string
	served int
}

// New builds the worker and starts an empty pool.
func New(w *drv.Work) *Pool {
	bin, exports, sites := Build(w)
	base := "/dev/shm"
	d, err := os.MkdirTemp(base, "zzgw")
	if err != nil {
		d = filepath.Join(w.Dir, "scratch")
		os.MkdirAll(d, 0o755)
	}
	n := runtime.NumCPU()
	p := &Pool{Bin: bin, Exports: exports, Sites: sites, n: n, free: make(chan *proc, n), Dir: d}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

// Close ends the workers and removes their files.
func (p *Pool) Close() {
	for i := 0; i < p.n; i++ {
		if pr := <-p.free; pr != nil {
			pr.stop()
		}
	}
	os.RemoveAll(p.Dir)
}

func (p *Pool) start() *proc {
	// the scratch directory's name has a fixed length: path limits depend on it
	pr := &proc{p: p, dir: filepath.Join(p.Dir, fmt.Sprintf("w%06d", p.next.Add(1))), stderr: &bytes.Buffer{}}
	pr.cmd = exec.Command(p.Bin, pr.dir, p.Exports)
	pr.cmd.Stderr = &limited{b: pr.stderr}
	pr.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
	pr.in, _ = pr.cmd.StdinPipe()
	out, _ := pr.cmd.StdoutPipe()
	pr.out = json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	if err := pr.cmd.Start(); err != nil {
		fatal("%v", err)
	}
	return pr
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(b []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(b)
	}
	return len(b), nil
}

func (pr *proc) stop() {
	pr.in.Close()
	pr.cmd.Process.Kill()
	pr.cmd.Wait()
	os.RemoveAll(pr.dir)
}

// Do runs a request on a worker; fresh asks for a new process.
func (p *Pool) Do(q *genw.Req, fresh bool) *genw.Resp {
	p.Requests.Add(1)
	pr := <-p.free
	if pr != nil && (fresh || pr.served > 3000) {
		pr.stop()
		pr = nil
	}
	if pr == nil {
		pr = p.start()
	}
	pr.served++
	b, _ := json.Marshal(q)
	done := make(chan struct{})
	var r genw.Resp
	var err error
	go func() {
		_, err = pr.in.Write(append(b, '\n'))
		if err == nil {
			err = pr.out.Decode(&r)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		pr.cmd.Process.Kill()
		<-done
		pr.cmd.Wait()
		os.RemoveAll(pr.dir)
		p.free <- nil
		return &genw.Resp{Crash: "no end within 60 s"}
	}
	if err != nil {
		pr.in.Close()
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
		os.RemoveAll(pr.dir)
		p.free <- nil
		s := pr.stderr.String()
		if len(s) > 600 {
			s = s[:600]
		}
		return &genw.Resp{Crash: "the process died: " + strings.TrimSpace(s)}
	}
	p.free <- pr
	return &r
}

// Each runs the requests in parallel and hands out the answers as they come.
func (p *Pool) Each(n int, f func(i int)) {
	var wg sync.WaitGroup
	var at atomic.Int64
	for k := 0; k < p.n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(at.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
