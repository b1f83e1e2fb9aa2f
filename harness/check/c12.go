package check

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C12", Run: runC12})
}

// planReader delivers data in planned pieces and fails as planned.
type planReader struct {
	data   []byte
	pieces []int // sizes, the last repeats
	failAt int   // offset of the failure, -1 for none
	with   bool  // the failure or the end comes together with the last bytes
	err    error
	pos, n int
	fired  bool
}

func (p *planReader) Read(b []byte) (int, error) {
	k := p.pieces[min(p.n, len(p.pieces)-1)]
	p.n++
	end := len(p.data)
	final := io.EOF
	if p.failAt >= 0 && p.failAt <= end {
		end, final = p.failAt, p.err
	}
	k = min(k, len(b), end-p.pos)
	copy(b, p.data[p.pos:p.pos+k])
	p.pos += k
	if p.pos == end && (k == 0 || p.with) {
		p.fired = p.fired || final != io.EOF
		if !(k == 0 && p.pieces[min(p.n-1, len(p.pieces)-1)] == 0) {
			return k, final
		}
	}
	return k, nil
}

func (r *Run) genValue(depth int) any {
	switch k := r.Int(7); {
	case k == 0:
		return pick(r, []string{"enabled", "true", "false", "disabled", "0600", "", "a\"b\\c", "ünïcödé", "line\nbreak", "<&>"})
	case k == 1:
		return r.P(1, 2)
	case k == 2:
		return float64(r.Int(100000)) / 4
	case k == 3:
		return nil
	case k == 4 && depth > 0:
		var xs []any
		for i := 0; i < r.Int(4); i++ {
			xs = append(xs, r.genValue(depth-1))
		}
		if xs == nil {
			xs = []any{}
		}
		return xs
	case depth > 0:
		m := map[string]any{}
		for i := 0; i < r.Int(4); i++ {
			m[pick(r, []string{"pattern", "os", "ioutil", "G104", "x", "truncate", "ignore_entropy", ""})] = r.genValue(depth - 1)
		}
		return m
	}
	return "leaf"
}

// genConfig draws the text of a configuration.
func (r *Run) genConfig() string {
	m := map[string]any{}
	for i := 0; i < r.Int(5); i++ {
		m[pick(r, []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307", "other", "ssa", "", "G999"})] = r.genValue(2)
	}
	if r.P(2, 3) {
		g := map[string]any{}
		for i := 0; i < r.Int(6); i++ {
			g[pick(r, []string{"nosec", "show-ignored", "audit", "#nosec", "exclude", "include", "ssa", "other"})] = r.genValue(0)
		}
		m["global"] = g
		if r.P(1, 10) {
			m["global"] = r.genValue(1)
		}
	}
	if r.P(1, 10) {
		// larger than the buffers on the way
		n := pick(r, []int{500, 5000, 40000, 70000})
		var xs []any
		for len(xs)*20 < n {
			xs = append(xs, fmt.Sprintf("Function%dOfTheList", r.Int(n)))
		}
		m["G104"] = map[string]any{"os": xs}
	}
	var b []byte
	var err error
	if r.P(1, 2) {
		b, err = json.MarshalIndent(m, "", pick(r, []string{" ", "\t", "    "}))
	} else {
		b, err = json.Marshal(m)
	}
	if err != nil {
		world.HarnessFail("config: %v", err)
	}
	return pick(r, []string{"", "\n", " \t\r\n"}) + string(b) + pick(r, []string{"", "\n", "  \n\n"})
}

// breakConfig damages a text; the result is not a valid configuration.
func (r *Run) breakConfig(text string) (string, string) {
	t := strings.TrimSpace(text)
	kind := ""
	out := text
	switch r.F(6) {
	case 0, 1:
		kind, out = "truncated", t[:r.F(len(t))]
	case 2:
		kind, out = "trailing-data", t+pickF(r, []string{"x", "}", "{}", ",", "\x00", " null"})
	case 3:
		k := r.F(len(t))
		kind, out = "byte-removed", t[:k]+t[k+1:]
	case 4:
		k := r.F(len(t))
		kind, out = "byte-replaced", t[:k]+pickF(r, []string{"\x00", "}", "\"", ",", "\x80"})+t[k+1:]
	case 5:
		kind, out = "not-an-object", pickF(r, []string{"[]", "1", "\"x\"", "true", "[" + t + "]"})
	}
	var m map[string]any
	if json.Unmarshal([]byte(out), &m) == nil {
		return text, "" // still a configuration
	}
	return out, kind
}

// baseConfig builds a configuration with earlier settings.
func (r *Run) baseConfig() (func() gosec.Config, string) {
	var earlier string
	if r.P(1, 2) {
		earlier = r.genConfig()
	}
	set := r.P(1, 2)
	return func() gosec.Config {
		c := gosec.NewConfig()
		if earlier != "" {
			if _, err := c.ReadFrom(strings.NewReader(earlier)); err != nil {
				r.Fail("valid-refused", "reading the configuration %q fails: %v", earlier, err)
			}
		}
		if set {
			c.SetGlobal(gosec.Audit, "enabled")
			c.Set("G104", map[string]any{"os": []any{"Chdir"}})
		}
		return c
	}, earlier
}

// settings is a complete picture of a configuration.
func settings(c gosec.Config) string {
	var b strings.Builder
	for _, k := range sortedKeys(c) {
		js, err := json.Marshal(c[k])
		if err != nil {
			world.HarnessFail("settings: %v", err)
		}
		fmt.Fprintf(&b, "%q: %T %s\n", k, c[k], js)
	}
	for _, o := range []gosec.GlobalOption{gosec.Nosec, gosec.ShowIgnored, gosec.Audit, gosec.NoSecAlternative, gosec.ExcludeRules, gosec.IncludeRules, gosec.SSA, "other"} {
		v, err := c.GetGlobal(o)
		on, oerr := c.IsGlobalEnabled(o)
		fmt.Fprintf(&b, "%s=%q %v %v %v\n", o, v, err, on, oerr)
	}
	return b.String()
}

func runC12(r *Run) {
	if r.P(1, 12) {
		r.c12CLI()
		return
	}
	mk, earlier := r.baseConfig()
	var sample []string
	for k := 0; k < 4; k++ {
		text := r.genConfig()
		bad := ""
		if r.FP(1, 3) {
			text, bad = r.breakConfig(text)
			if bad != "" {
				r.Fired["config-"+bad]++
			}
		}
		p := &planReader{data: []byte(text), failAt: -1, err: errors.New("input/output error"), with: r.FP(1, 2)}
		for i := 0; i < 1+r.F(6); i++ {
			p.pieces = append(p.pieces, pickF(r, []int{1 << 20, 1, 2, 3, 7, 0, 64, 511, 512, 513}))
		}
		if p.pieces[len(p.pieces)-1] == 0 {
			p.pieces = append(p.pieces, 5)
		}
		if r.FP(1, 3) {
			p.failAt = r.F(len(text) + 1)
			if r.FP(1, 4) {
				p.failAt = len(text) // after everything
			}
			if r.FP(1, 4) {
				p.err = io.ErrUnexpectedEOF
			}
		}
		what := fmt.Sprintf("configuration %q in pieces %v, failure at %d (together %v), after %q", text, p.pieces, p.failAt, p.with, earlier)
		var ref, got, old gosec.Config
		var rerr, err error
		r.Ref("plain read", func() {
			ref, old = mk(), mk()
			_, rerr = ref.ReadFrom(strings.NewReader(text))
		})
		r.Sim("planned read", r.SimCfg(), func() {
			got = mk()
			_, err = got.ReadFrom(p)
		})
		if bad == "" && rerr != nil {
			r.Fail("valid-refused", "%s: %v", what, rerr)
		}
		if bad != "" && rerr == nil {
			r.Fail("malformed-accepted", "%s (%s): no error is returned", what, bad)
		}
		switch {
		case p.fired:
			r.Fired["reader-error"]++
			if err == nil {
				r.Fail("read-error-lost", "%s: the reader failed, but no error is returned", what)
			}
		case (err == nil) != (rerr == nil):
			r.Fail("chunking", "%s: error %v, read at once %v", what, err, rerr)
		}
		want := settings(ref)
		if err != nil {
			want = settings(old)
		}
		var sections map[string]any
		if rerr == nil && json.Unmarshal([]byte(text), &sections) == nil {
			for k, v := range old {
				if _, ok := sections[k]; !ok {
					sections[k] = v
				}
			}
			for k, v := range sections {
				if x, ok := ref[k]; k != gosec.Globals && (!ok || !reflect.DeepEqual(x, v)) {
					r.Fail("section-lost", "%s: section %q reads as %v, want %v", what, k, x, v)
				}
			}
		}
		if rerr != nil && settings(ref) != settings(old) {
			r.Fail("partly-applied", "%s: an error is returned, but the settings changed: %s", what, diffBytes("before", []byte(settings(old)), "after", []byte(settings(ref))))
		}
		if have := settings(got); have != want {
			r.Fail("partly-applied", "%s: error %v, but the settings differ: %s", what, err, diffBytes("expected", []byte(want), "found", []byte(have)))
		}
		if err == nil && !reflect.DeepEqual(map[string]any(got), map[string]any(ref)) {
			r.Fail("chunking", "%s: the settings differ from those read at once", what)
		}
		// writing
		var plain bytes.Buffer
		w := &faultyWriter{mode: pickF(r, []string{"cut", "call", "late", "short"}), at: r.F(40), sticky: r.FP(1, 2)}
		if w.mode != "cut" {
			w.at = r.F(2)
		}
		var werr, perr error
		r.Sim("write", r.SimCfg(), func() {
			_, perr = ref.WriteTo(&plain)
			_, werr = ref.WriteTo(w)
		})
		if perr != nil {
			r.Fail("write-fails", "%s: writing it returns %v", what, perr)
		}
		if w.fired > 0 {
			r.Fired["writer-"+w.mode]++
		}
		if w.fired > 0 && werr == nil {
			r.Fail("write-error-lost", "%s: the destination failed (%s at %d), but writing the configuration returned no error", what, w.mode, w.at)
		}
		if w.fired == 0 && (werr != nil || !bytes.Equal(w.got.Bytes(), plain.Bytes())) {
			r.Fail("write-differs", "%s: writing it twice gives %v, %q and %q", what, werr, plain.String(), w.got.String())
		}
		sample = append(sample, what)
	}
	r.Key = fmt.Sprint(sample)
	r.Trivial = false
	r.Sample = sample[0]
}

// c12CLI reads configurations through short and failing reads of the command.
func (r *Run) c12CLI() {
	t := r.newTree(r.cliCases(2, false))
	o := r.CLIOpts()
	o.Paths = []string{"./..."}
	o.Format, o.Quiet = "json", false
	o.ConfFile = filepath.Join(r.Dir, "conf.json")
	text := pick(r, []string{"{\"global\":{\"audit\":\"enabled\",\"nosec\":\"true\"}}", "{\"global\":{\"exclude\":\"G104,G304\",\"show-ignored\":\"true\"},\"G101\":{\"pattern\":\"(?i)zzz\"}}", "{\"G104\":{\"os\":[\"Chdir\"],\"ioutil\":[\"WriteFile\"]},\"G301\":\"0700\"}\n", "{\"global\":{\"#nosec\":\"mytag\"}}"})
	writeItem(r.Dir, map[string]string{"conf.json": text})
	ref := r.CLI("plain configuration", r.spec(t, o, false), true)
	sp := r.spec(t, o, true)
	bad := ""
	var f *world.FaultRule
	switch r.F(5) {
	case 0, 1:
		f = &world.FaultRule{Op: "read", Suffix: "/conf.json", At: 1 + r.F(20), Short: true}
	case 2:
		f = &world.FaultRule{Op: "read", Suffix: "/conf.json", At: r.F(len(text) + 1), Sticky: true, Err: pickF(r, []string{"EIO", "EOF"})}
		bad = fmt.Sprintf("reading fails at byte %d", f.At)
	case 3:
		f = &world.FaultRule{Op: "open", Suffix: "/conf.json", Sticky: true, Err: pickF(r, []string{"EACCES", "EMFILE", "EIO"})}
		bad = "opening fails"
	case 4:
		var broken string
		broken, bad = r.breakConfig(text)
		writeItem(r.Dir, map[string]string{"conf.json": broken})
		if bad != "" {
			r.Fired["config-"+bad]++
		}
	}
	if f != nil {
		sp.Faults = append(sp.Faults, f)
	}
	got := r.CLI("planned configuration", sp, false)
	args := strings.Join(o.Args(), " ")
	if bad != "" {
		if got.Code == 0 {
			r.Fail("success-despite-failure", "gosec %s with the configuration %q exits with status 0, although %s", args, text, bad)
		}
		if len(got.Trailer.Loads) > 0 || len(got.Stdout) > 0 {
			r.Fail("scan-despite-failure", "gosec %s with the configuration %q loads %d packages and writes %d bytes, although %s", args, text, len(got.Trailer.Loads), len(got.Stdout), bad)
		}
	} else {
		if got.Code != ref.Code {
			r.Fail("chunking", "gosec %s with the configuration %q read in pieces: status %d, want %d", args, text, got.Code, ref.Code)
		}
		if d := diffBytes("at once", ref.Stdout, "in pieces", got.Stdout); d != "" {
			r.Fail("chunking", "gosec %s with the configuration %q: the report differs when the file is read in pieces: %s", args, text, d)
		}
	}
	r.Key = fmt.Sprint(args, text, bad, f, r.Sync)
	r.Sample = fmt.Sprintf("gosec %s with %q, %s: status %d", args, text, bad, got.Code)
}
