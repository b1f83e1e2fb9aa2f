package world

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"github.com/google/generative-ai-go/genai"
	"golang.org/x/tools/go/packages"

	zz "github.com/securego/gosec/v2/zz_simrt"
)

// PlanSpec is the serialisable form of Plan.
type PlanSpec struct {
	Dir       string            `json:"dir"` // base name of the package directory
	DelayMS   int               `json:"delay_ms,omitempty"`
	Err       string            `json:"err,omitempty"`
	Extra     []ErrSpec         `json:"extra,omitempty"`
	Missing   []string          `json:"missing,omitempty"`
	Remove    []string          `json:"remove,omitempty"`     // files removed before parsing
	RemoveAft []string          `json:"remove_aft,omitempty"` // files removed after parsing
	Rewrite   map[string]string `json:"rewrite,omitempty"`    // files rewritten after parsing
	NoResult  bool              `json:"no_result,omitempty"`
}

// ErrSpec is an error attached to a loaded package.
type ErrSpec struct {
	Pos  string `json:"pos"`
	Msg  string `json:"msg"`
	Kind int    `json:"kind"`
}

// MakePlan turns specs into the loader's plan function.
func MakePlan(specs []*PlanSpec) func(dir string) *Plan {
	return func(dir string) *Plan {
		for _, s := range specs {
			if !strings.HasSuffix("/"+dir, "/"+s.Dir) {
				continue
			}
			p := &Plan{Delay: time.Duration(s.DelayMS) * time.Millisecond, NoResult: s.NoResult}
			if s.Err != "" {
				p.Err = errors.New(s.Err)
			}
			for _, e := range s.Extra {
				p.Extra = append(p.Extra, packages.Error{Pos: e.Pos, Msg: e.Msg, Kind: packages.ErrorKind(e.Kind)})
			}
			if len(s.Missing) > 0 {
				p.Missing = map[string]bool{}
				for _, m := range s.Missing {
					p.Missing[m] = true
				}
			}
			if len(s.Remove) > 0 {
				p.Before = func() {
					for _, f := range s.Remove {
						os.Remove(filepath.Join(dir, f))
					}
				}
			}
			if len(s.RemoveAft)+len(s.Rewrite) > 0 {
				p.After = func() {
					for _, f := range s.RemoveAft {
						os.Remove(filepath.Join(dir, f))
					}
					for f, c := range s.Rewrite {
						os.WriteFile(filepath.Join(dir, f), []byte(c), 0o644)
					}
				}
			}
			return p
		}
		return nil
	}
}

// GoListSpec is the answer of the go command to "go list -m -json".
type GoListSpec struct {
	Stdout string `json:"stdout"`
	Stderr string `json:"stderr"`
	Exit   int    `json:"exit"` // -1: the command is missing
}

// GoodGoList is the healthy answer.
func GoodGoList(version string) *GoListSpec {
	return &GoListSpec{Stdout: fmt.Sprintf("{\n\t\"Path\": \"example.com/m\",\n\t\"Main\": true,\n\t\"GoVersion\": %q\n}\n", version)}
}

// ExecFunc answers commands.
func ExecFunc(g *GoListSpec, calls *[]string) func(c *zz.Cmd) ([]byte, []byte, error) {
	return func(c *zz.Cmd) ([]byte, []byte, error) {
		if calls != nil {
			*calls = append(*calls, strings.Join(c.Args, " "))
		}
		if g == nil || g.Exit == -1 {
			return nil, nil, &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
		}
		var err error
		if g.Exit != 0 {
			err = &exec.ExitError{}
		}
		return []byte(g.Stdout), []byte(g.Stderr), err
	}
}

// AIAnswer is one behaviour of the simulated AI service.
type AIAnswer struct {
	Kind    string `json:"kind"` // ok, error, nil, nocand, nilcand, nilcontent, noparts, blob, empty, hang, multi
	DelayMS int    `json:"delay_ms,omitempty"`
}

// AISpec plans the AI service.
type AISpec struct {
	ConnectErr string     `json:"connect_err,omitempty"`
	ConnectMS  int        `json:"connect_ms,omitempty"`
	Answers    []AIAnswer `json:"answers"` // by request number, the last repeats
	CloseErr   string     `json:"close_err,omitempty"`
}

// AICall records one request.
type AICall struct {
	Prompt string `json:"prompt"`
	Kind   string `json:"kind"`
	AtNS   int64  `json:"at_ns"`
	EndNS  int64  `json:"end_ns"`
	Err    string `json:"err,omitempty"`
	Answer string `json:"answer,omitempty"`
}

// AILog is what happened at the AI service.
type AILog struct {
	Connects int       `json:"connects"`
	Closes   int       `json:"closes"`
	OpenedNS int64     `json:"opened_ns"`
	ClosedNS int64     `json:"closed_ns"`
	Calls    []*AICall `json:"calls"`
}

// AnswerFor is the service's answer text for a prompt.
func AnswerFor(prompt string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(prompt); i++ {
		h ^= uint64(prompt[i])
		h *= 1099511628211
	}
	return fmt.Sprintf("suggestion-%016x for [%s]", h, prompt)
}

// MakeAI installs the service.
func MakeAI(sp *AISpec, log *AILog, fired map[string]int) *zz.AIService {
	text := func(ts ...string) *genai.GenerateContentResponse {
		c := &genai.Content{Role: "model"}
		for _, t := range ts {
			c.Parts = append(c.Parts, genai.Text(t))
		}
		return &genai.GenerateContentResponse{Candidates: []*genai.Candidate{{Content: c}}}
	}
	return &zz.AIService{
		Connect: func(ctx context.Context) error {
			log.Connects++
			log.OpenedNS = zz.VirtualNS()
			if sp.ConnectMS > 0 {
				fired["ai-connect-delay"]++
				if err := zz.WaitDone(ctx, time.Duration(sp.ConnectMS)*time.Millisecond); err != nil {
					return err
				}
			}
			if sp.ConnectErr != "" {
				fired["ai-connect-error"]++
				return errors.New(sp.ConnectErr)
			}
			return nil
		},
		Close: func() error {
			log.Closes++
			log.ClosedNS = zz.VirtualNS()
			if sp.CloseErr != "" {
				fired["ai-close-error"]++
				return errors.New(sp.CloseErr)
			}
			return nil
		},
		Generate: func(ctx context.Context, model string, parts []genai.Part) (*genai.GenerateContentResponse, error) {
			var sb strings.Builder
			for _, p := range parts {
				if t, ok := p.(genai.Text); ok {
					sb.WriteString(string(t))
				}
			}
			call := &AICall{Prompt: sb.String(), AtNS: zz.VirtualNS()}
			n := len(log.Calls)
			log.Calls = append(log.Calls, call)
			a := AIAnswer{Kind: "ok"}
			if len(sp.Answers) > 0 {
				a = sp.Answers[min(n, len(sp.Answers)-1)]
			}
			call.Kind = a.Kind
			defer func() { call.EndNS = zz.VirtualNS() }()
			if a.Kind != "ok" {
				fired["ai-"+a.Kind]++
			}
			if a.DelayMS > 0 {
				fired["ai-delay"]++
				if err := zz.WaitDone(ctx, time.Duration(a.DelayMS)*time.Millisecond); err != nil {
					call.Err = err.Error()
					return nil, err
				}
			}
			if err := ctx.Err(); err != nil {
				call.Err = err.Error()
				return nil, err
			}
			switch a.Kind {
			case "error":
				call.Err = "simulated failure"
				return nil, errors.New("googleapi: Error 503: simulated failure")
			case "hang":
				err := zz.WaitDone(ctx, 1000*time.Hour)
				if err == nil {
					err = errors.New("connection reset")
				}
				call.Err = err.Error()
				return nil, err
			case "nil":
				return nil, nil
			case "nocand":
				return &genai.GenerateContentResponse{}, nil
			case "nilcand":
				return &genai.GenerateContentResponse{Candidates: []*genai.Candidate{nil}}, nil
			case "nilcontent":
				return &genai.GenerateContentResponse{Candidates: []*genai.Candidate{{}}}, nil
			case "noparts":
				return text(), nil
			case "blob":
				r := text()
				r.Candidates[0].Content.Parts = []genai.Part{genai.Blob{MIMEType: "image/png", Data: []byte{1, 2}}}
				return r, nil
			case "empty":
				return text(""), nil
			case "multi":
				call.Answer = AnswerFor(call.Prompt)
				r := text(call.Answer, "second part")
				return r, nil
			}
			call.Answer = AnswerFor(call.Prompt)
			return text(call.Answer), nil
		},
	}
}

// CLISpec describes one simulated execution of the command.
type CLISpec struct {
	Prog    string                  `json:"prog,omitempty"` // "" for gosec
	HTTP    *HTTPSpec               `json:"http,omitempty"`
	Args    []string                `json:"args"`
	Dir     string                  `json:"dir"`
	Env     map[string]string       `json:"env"`
	CPUs    int                     `json:"cpus"`
	Plans   []*PlanSpec             `json:"plans,omitempty"`
	Faults  []*FaultRule            `json:"faults,omitempty"`
	GoList  *GoListSpec             `json:"go_list,omitempty"`
	GoVer   string                  `json:"go_version,omitempty"` // of the toolchain
	AI      *AISpec                 `json:"ai,omitempty"`
	Seed    uint64                  `json:"seed"`
	Streams [zz.NumStreams][]uint32 `json:"streams"`
	Replay  bool                    `json:"replay"`
	Cfg     zz.Config               `json:"cfg"`
	Trailer string                  `json:"trailer"`
}

// CLITrailer is what the execution reports.
type CLITrailer struct {
	Code    int                     `json:"code"`
	Exited  bool                    `json:"exited"`
	Res     *zz.Result              `json:"res"`
	Fired   map[string]int          `json:"fired"`
	Rules   []int                   `json:"rules"` // times each fault rule fired
	Loads   []*LoadRec              `json:"loads"`
	AI      *AILog                  `json:"ai"`
	Web     []string                `json:"web"`      // requests
	WebOpen int                     `json:"web_open"` // bodies which were not closed
	Execs   []string                `json:"execs"`
	Streams [zz.NumStreams][]uint32 `json:"streams"`
	Steps   int64                   `json:"steps"`
	NS      int64                   `json:"ns"`
	Open    []string                `json:"open"`  // files open at the end
	Most    int                     `json:"most"`  // most files open at once
	Wrote   []string                `json:"wrote"` // changes of the file system
}

// MainCLI runs the command's main function in the simulation described by the
// file named in ZZ_SPEC.
func MainCLI(mainFn func()) {
	data, err := os.ReadFile(os.Getenv("ZZ_SPEC"))
	if err != nil {
		HarnessFail("spec: %v", err)
	}
	var sp CLISpec
	if err := json.Unmarshal(data, &sp); err != nil {
		HarnessFail("spec: %v", err)
	}
	if sp.Dir != "" {
		if err := os.Chdir(sp.Dir); err != nil {
			HarnessFail("chdir: %v", err)
		}
	}
	debug.SetMaxStack(192 << 20)
	prog := sp.Prog
	if prog == "" {
		prog = "gosec"
	}
	os.Args = append([]string{prog}, sp.Args...)
	tr := &CLITrailer{Fired: map[string]int{}, AI: &AILog{}}
	ld := &Loader{Plan: MakePlan(sp.Plans)}
	var st [zz.NumStreams]*zz.Stream
	if sp.Replay {
		for i := range st {
			st[i] = zz.ReplayStream(sp.Streams[i])
		}
	} else {
		st = zz.SeedStreams(sp.Seed, 0)
	}
	gl := sp.GoList
	if gl == nil {
		gl = GoodGoList("1.24")
	}
	zz.W = zz.World{
		FS:     FaultFS(sp.Faults, tr.Fired),
		EnvSet: true, Env: sp.Env, CPUs: sp.CPUs, GoVersion: sp.GoVer,
		Load: ld.Load,
		Exec: ExecFunc(gl, &tr.Execs),
	}
	ai := sp.AI
	if ai == nil {
		ai = &AISpec{}
	}
	zz.AI = MakeAI(ai, tr.AI, tr.Fired)
	http.DefaultTransport = &webServer{spec: sp.HTTP, tr: tr}
	flush := func() {
		tr.Steps = zz.Steps()
		tr.NS = zz.VirtualNS()
		tr.Open, tr.Most, tr.Wrote = zz.Files.Open(), zz.Files.Max, zz.Files.Wrote
		for k, v := range ld.Fired {
			tr.Fired[k] += v
		}
		for _, r := range sp.Faults {
			tr.Rules = append(tr.Rules, r.Fired)
		}
		tr.Loads = ld.Recs
		for i := range st {
			tr.Streams[i] = st[i].Rec
		}
		b, err := json.Marshal(tr)
		if err != nil {
			HarnessFail("trailer: %v", err)
		}
		if err := os.WriteFile(sp.Trailer, b, 0o644); err != nil {
			HarnessFail("trailer: %v", err)
		}
	}
	zz.W.OnExit = func(code int) {
		tr.Exited = true
		tr.Code = code
		tr.Res = zz.Current()
		flush()
		os.Exit(code)
	}
	res := zz.Run(st, sp.Cfg, mainFn)
	tr.Res = res
	tr.Steps = res.Steps
	if res.Panic != "" {
		tr.Code = 2
		fmt.Fprintln(os.Stderr, "panic:", res.Panic)
	}
	steps := res.Steps
	flush()
	_ = steps
	os.Exit(tr.Code)
}
