package check

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C18", Run: runC18})
}

// sprinkledItem is a corpus package with directives inserted at random; ok is
// false when the package is not suited.
func (r *Run) sprinkledItem(name string, tags []string) (c, b *pkgCase, model map[string][]*directive, ok bool) {
	hc := healthyCorpus()
	it := hc[r.Int(len(hc))]
	c = &pkgCase{name: name, files: map[string]string{}, mkdir: true, kind: it.Name}
	b = &pkgCase{name: name, files: map[string]string{}, mkdir: true}
	model = map[string][]*directive{}
	for _, f := range sortedKeys(it.Files) {
		src := it.Files[f]
		if !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") || strings.Contains(src, "`") || strings.Contains(src, "//go:") {
			return nil, nil, nil, false
		}
		if _, fine := directivesOf(src, tags); !fine {
			return nil, nil, nil, false
		}
		lines := r.sprinkle(strings.Split(src, "\n"), tags, r.Int(9))
		src = strings.Join(lines, "\n")
		ds, fine := directivesOf(src, tags)
		if !fine {
			return nil, nil, nil, false
		}
		c.files[f], b.files[f] = src, blunt(src, tags)
		model[filepath.Join(name, f)] = ds
	}
	return c, b, model, true
}

func runC18(r *Run) {
	o := Opts{Conc: 1 + r.Int(4), Track: true}
	o.AltTag = pick(r, []string{"", "", "falsepositive", "a.b"})
	o.Audit = r.P(1, 4)
	o.NoSec = r.P(1, 10)
	o.ShowIgnored = r.P(1, 6)
	tags := []string{"nosec"}
	if o.AltTag != "" {
		tags = append(tags, o.AltTag)
	}
	cs, blunted, model := r.suppCase(o)
	for k := r.Int(4); k > 0; k-- {
		if c, b, m, ok := r.sprinkledItem(fmt.Sprintf("c%d", k), tags); ok {
			cs, blunted = append(cs, c), append(blunted, b)
			for f, ds := range m {
				model[f] = ds
			}
		}
	}
	bo := Opts{Conc: 1, Audit: o.Audit}
	root, paths := r.fresh(blunted)
	r.install(root, blunted, false)
	var base *Scan
	r.Ref("scan without directives and with all rules", func() { base = DoScan(root, bo, paths) })

	// deselect some of the rules that report something, and some others
	pool := append([]string(nil), listedRules...)
	for _, f := range base.Findings {
		pool = append(pool, f.Rule)
	}
	external := map[string]bool{}
	switch r.Int(4) {
	case 1, 2:
		for k := 1 + r.Int(4); k > 0; k-- {
			o.Exclude = append(o.Exclude, pick(r, pool))
		}
	case 3:
		for k := 1 + r.Int(5); k > 0; k-- {
			o.Include = append(o.Include, pick(r, pool))
		}
		if r.P(1, 3) {
			o.Exclude = append(o.Exclude, pick(r, pool))
		}
	}
	for _, f := range base.Findings {
		out := contains(o.Exclude, f.Rule) || len(o.Include) > 0 && !contains(o.Include, f.Rule)
		if out {
			external[f.Rule] = true
		}
	}
	twice := r.P(1, 4)

	scan := func(o Opts) *Scan {
		lg, _ := NewLogger()
		a := o.New(lg)
		parts := [][]string{paths}
		if twice && len(paths) > 1 {
			parts = [][]string{paths[:1], paths[1:]}
		}
		var err error
		for _, p := range parts {
			if e := a.Process(nil, p...); e != nil {
				err = e
			}
		}
		s := Collect(root, a)
		if err != nil {
			s.Err = err.Error()
		}
		return s
	}
	root, paths = r.fresh(cs)
	shuffle(r, paths)
	var track, plain *Scan
	r.install(root, cs, true)
	r.Sim(fmt.Sprintf("tracking scan, %s", o), r.SimCfg(), func() { track = scan(o) })
	r.install(root, cs, true)
	po := o
	po.Track, po.Conc, po.ShowIgnored = false, 1+r.Int(4), false
	r.Sim(fmt.Sprintf("scan without tracking, %s", po), r.SimCfg(), func() { plain = scan(po) })
	for _, s := range []*Scan{base, track, plain} {
		if s.Err != "" || len(s.Errors) > 0 {
			world.HarnessFail("packages give errors: %v %q", s.Errors, s.Err)
		}
	}
	var active []Finding
	for _, f := range track.Findings {
		if len(f.Supp) == 0 {
			f.NoSec = false
			active = append(active, f)
		}
	}
	if d := diffSets("the scan without tracking", multiset(plain.Findings, Finding.WithSupp), "the tracking scan, unsuppressed", multiset(active, Finding.WithSupp)); d != "" {
		r.Fail("tracking-changes-report", "%s\nreported findings differ:%s", o, d)
	}
	r.checkSuppressions(o, base, track, model, external, sourcesOf(cs))
	both, ext := 0, 0
	for _, f := range track.Findings {
		e := false
		for _, s := range f.Supp {
			e = e || strings.HasPrefix(s, "external")
		}
		if e {
			ext++
			if len(f.Supp) > 1 {
				both++
			}
		}
	}
	r.Probes["externally suppressed findings"] += ext
	r.Probes["suppressed both ways"] += both
	r.Key = fmt.Sprint(o, len(base.Findings), ext, both, r.Sync)
	r.Trivial = len(active) == len(track.Findings)
	r.Sample = fmt.Sprintf("%d packages, %d findings, %d unsuppressed, %d deselected (%d of them also inline): %s", len(cs), len(base.Findings), len(active), ext, both, o)
}
