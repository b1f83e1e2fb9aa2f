package check

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

// Self is the path of the running binary.
var Self string

type soloSpec struct {
	Root  string
	Opts  Opts
	Paths []string
	Env   map[string]string
}

// SoloMain performs one scan in a fresh process.
func SoloMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		world.HarnessFail("solo: %v", err)
	}
	var sp soloSpec
	if err := json.Unmarshal(b, &sp); err != nil {
		world.HarnessFail("solo: %v", err)
	}
	r := &Run{Prop: &Prop{ID: "solo"}, Fired: map[string]int{}, Probes: map[string]int{}}
	zz.W = zz.World{EnvSet: true, Env: sp.Env, CPUs: 8}
	r.World(nil)
	var s *Scan
	r.Ref("scan", func() { s = DoScan(sp.Root, sp.Opts, sp.Paths) })
	out, err := json.Marshal(s)
	if err != nil {
		world.HarnessFail("solo: %v", err)
	}
	os.Stdout.Write(out)
}

// FreshScan scans in a process of its own, where no earlier scan can have left
// anything behind.
func (r *Run) FreshScan(root string, o Opts, paths []string) *Scan {
	kidSeq++
	f := filepath.Join(r.Scratch, fmt.Sprintf("solo%d.json", kidSeq))
	b, _ := json.Marshal(soloSpec{Root: root, Opts: o, Paths: paths, Env: zz.W.Env})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		world.HarnessFail("solo: %v", err)
	}
	defer os.Remove(f)
	cmd := exec.Command(Self, "-solo", f)
	cmd.Env = []string{"ZZ_CORPUS=" + world.CorpusDir(), "PATH=/nonexistent", "HOME=" + r.Scratch, "TZ=UTC", "GOMAXPROCS=2", "GOGC=400"}
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		world.HarnessFail("solo scan: %v", err)
	}
	s := &Scan{}
	if err := json.Unmarshal(out, s); err != nil {
		world.HarnessFail("solo scan: %v", err)
	}
	r.Execs++
	return s
}
