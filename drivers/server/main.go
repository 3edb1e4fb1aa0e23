package main

import (
	"flag"
	"os"
	"path/filepath"
	"time"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

func main() {
	mode := flag.String("what", "auth", "auth or data")
	flag.StringVar(&binary, "server", "", "server binary")
	flag.Parse()

	scratch = must(filepath.Abs(must(os.MkdirTemp(filepath.Dir(binary), "srv"))))

	vlib.StepTimeout = 60 * time.Second
	vlib.Parallel = 6

	go spawner()

	switch *mode {
	case "auth":
		authSetup()
		vlib.Replay(buildAuth)
	case "data":
		vlib.Replay(buildData)
		closeClusters()
	}
}
