// Command sim executes simulated runs for the driver.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"github.com/securego/gosec/v2/zz_sim/check"
	"github.com/securego/gosec/v2/zz_sim/world"
)

type replayFile struct {
	Property string           `json:"property"`
	Seed     uint64           `json:"seed"`
	Run      int              `json:"run"`
	From     int              `json:"history_from"`
	Mode     string           `json:"mode"` // recording, seed, history
	Tier     string           `json:"tier"`
	Rec      *check.Recording `json:"recording,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	from := flag.Int("from", 0, "first run")
	to := flag.Int("to", 1, "one past the last run")
	tier := flag.String("tier", "quick", "tier")
	scratch := flag.String("scratch", "", "scratch directory")
	known := flag.String("known", "", "keys of known findings, separated by newlines")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("verbose", false, "trace")
	shrink := flag.Duration("shrink", 12*time.Second, "time for minimisation")
	deadline := flag.Duration("deadline", 0, "stop starting runs after this time")
	solo := flag.String("solo", "", "scan specification, executed in a process of its own")
	flag.Parse()
	start := time.Now()
	debug.SetMaxStack(192 << 20)
	check.Self, _ = os.Executable()
	if *solo != "" {
		check.SoloMain(*solo)
		return
	}
	p := check.Props[*prop]
	if p == nil {
		world.HarnessFail("unknown property %q", *prop)
	}
	dir := *scratch
	if dir == "" {
		world.HarnessFail("no scratch directory")
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	o := check.Options{Seed: *seed, Tier: *tier, Scratch: dir, Verbose: *verbose}
	if *known != "" {
		o.Known = strings.Split(*known, "\n")
	}
	w := bufio.NewWriter(os.Stdout)
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			world.HarnessFail("%v", err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	if *replay != "" {
		var rf replayFile
		b, err := os.ReadFile(*replay)
		if err != nil {
			world.HarnessFail("%v", err)
		}
		if err := json.Unmarshal(b, &rf); err != nil {
			world.HarnessFail("%v", err)
		}
		o.Seed = rf.Seed
		if rf.Tier != "" {
			o.Tier = rf.Tier
		}
		var r *check.Run
		switch rf.Mode {
		case "recording":
			r = check.Execute(p, o, rf.Run, rf.Rec)
		case "seed":
			r = check.Execute(p, o, rf.Run, nil)
		case "history":
			for i := rf.From; i <= rf.Run; i++ {
				r = check.Execute(p, o, i, nil)
			}
		}
		out := r.Out()
		out.Trace = r.Trace
		emit(out)
		return
	}
	for i := *from; i < *to; i++ {
		if *deadline > 0 && time.Since(start) > *deadline {
			break
		}
		fmt.Fprintf(w, "B %d\n", i)
		w.Flush()
		r := check.Execute(p, o, i, nil)
		out := r.Out()
		if r.Viol != nil {
			out.Orig = r.Recording()
			emit(map[string]any{"pre": out}) // in case minimisation dies
			rec, tries := check.Shrink(p, o, i, out.Orig, r.Viol.Class, *shrink)
			out.Rec, out.Tries = rec, tries
			emit(out)
			return
		}
		emit(out)
	}
	emit(map[string]bool{"done": true})
}
