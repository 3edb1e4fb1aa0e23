// Command server drives real hypercache-server processes over HTTP.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var (
	used    atomic.Int64
	scratch string
	binary  string
)

// address is a loopback address no other node of any test process uses.
func address() string {
	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

type buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()

	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()

	return b.b.String()
}

type proc struct {
	id              string
	api, mgmt, dist string
	cmd             *exec.Cmd
	out             *buffer
	gone            chan struct{}
	code            int
}

var spawnC = make(chan func())

// spawner starts processes from one thread that lives as long as this process does.
func spawner() {
	runtime.LockOSThread()

	for f := range spawnC {
		f()
	}
}

func spawn(p *proc, env []string) {
	done := make(chan error)
	p.out = &buffer{}
	p.gone = make(chan struct{})
	p.cmd = exec.Command(binary)
	p.cmd.Env = env
	p.cmd.Dir = scratch
	p.cmd.Stderr = p.out
	p.cmd.Stdout = p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	spawnC <- func() { done <- p.cmd.Start() }

	if err := <-done; err != nil {
		vlib.Fatal(err)
	}

	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.gone)
	}()
}

// start runs a server until it answers on its ports, or ends.
func start(id string, env map[string]string, addr [3]string, ready func(p *proc) bool) (*proc, bool) {
	p := &proc{id: id, api: addr[0], mgmt: addr[1], dist: addr[2]}
	e := []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + scratch,
		"HYPERCACHE_NODE_ID=" + id, "HYPERCACHE_API_ADDR=" + p.api, "HYPERCACHE_MGMT_ADDR=" + p.mgmt, "HYPERCACHE_DIST_ADDR=" + p.dist,
	}

	for k, v := range env {
		e = append(e, k+"="+v)
	}

	spawn(p, e)

	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		select {
		case <-p.gone:
			if strings.Contains(p.out.String(), "address already in use") {
				vlib.Fatal(errors.New("address in use"))
			}

			return p, false
		default:
		}

		if ready(p) {
			return p, true
		}
	}

	vlib.Fatal(errors.New("the server neither answered nor ended: " + p.out.String()))

	return nil, false
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.gone
}

// alive notices a server that ended on its own.
func (p *proc) alive() bool {
	select {
	case <-p.gone:
		return false
	default:
		return true
	}
}

func file(name, text string) string {
	f := filepath.Join(scratch, name)
	if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
		vlib.Fatal(err)
	}

	return f
}
