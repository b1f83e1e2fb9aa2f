package check

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C04", Run: runC04})
}

// under keeps the findings and errors of the files below a package directory.
func under(s *Scan, pkg string) (find, errs map[string]int) {
	find, errs = map[string]int{}, map[string]int{}
	for _, f := range s.Findings {
		if strings.HasPrefix(f.File, pkg+"/") {
			find[f.WithSupp()]++
		}
	}
	for f, es := range s.Errors {
		if f == pkg || strings.HasPrefix(f, pkg+"/") || strings.HasSuffix(f, "/"+pkg) {
			for _, e := range es {
				errs[f+" "+e]++
			}
		}
	}
	return
}

// stateful are the items which exercise state that rules keep between nodes.
var stateful = []string{"tls_min_skip", "tls_plain", "tls_max", "tls_bad_first", "multi_global", "clean_a", "sql_multi", "nosec_mixed", "g602_dupes", "g407_many", "decomp", "join_a", "alias_a", "alias_b", "perm_a", "perm_b", "taint_a", "sameline_nosec", "sameline_plain", "sameline_generated", "alias_import_a", "alias_import_b", "bigint_a", "bigint_b", "decomp_safe", "sql_const", "cmd_const", "cmd_var"}

// families group the items by the rule whose state they exercise.
var families = [][]string{
	{"G402", "tls"}, {"G601", "alias"}, {"G304", "clean", "join", "taint", "multi"}, {"G302", "G306", "G301", "G303", "G307", "perm"},
	{"G201", "G202", "sql"}, {"G204", "cmd"}, {"G110", "decomp"}, {"G109", "G115", "bigint"}, {"sameline", "nosec", "generated", "G104", "identical"},
	{"G404", "G401", "G501", "alias_import"}, {"G602", "g602"}, {"G407", "g407"}, {"G101", "G102", "G107"}, {"G112", "G114", "G111", "G108"}, {"G305", "G304", "join"},
}

func family(name string) []*Item {
	var out []*Item
	for _, it := range Corpus() {
		for _, p := range families {
			if !contains(p, name) {
				continue
			}
			for _, x := range p {
				if strings.HasPrefix(strings.TrimPrefix(it.Name, "atom_"), x+"_") {
					out = append(out, it)
					break
				}
			}
			break
		}
	}
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (r *Run) pickStateful(n int) []*Item {
	by := map[string]*Item{}
	for _, it := range Corpus() {
		by[it.Name] = it
	}
	var fam []*Item
	if r.P(1, 2) {
		f := r.Int(len(families))
		fam = family(families[f][0])
		if families[f][0] == "G601" {
			zz.W.Env["GOSECGOVERSION"] = "go1.20"
		}
	}
	seen := map[string]bool{}
	var out []*Item
	for len(out) < n {
		var it *Item
		if fam != nil && r.P(3, 4) {
			it = pick(r, fam)
		} else if r.P(1, 2) {
			it = by[pick(r, stateful)]
		} else {
			it = Corpus()[r.Int(len(Corpus()))]
		}
		for k := 0; it == nil || seen[it.Name]; k++ {
			it = Corpus()[k%len(Corpus())]
		}
		seen[it.Name] = true
		out = append(out, it)
	}
	return out
}

// workset is a set of packages that can be put in place again and again.
type workset struct {
	names []string // directories below the root
	desc  []string
	setup func(delay bool, idx ...int) (string, []string) // of these packages, or all
}

// pooledSet uses corpus items as they are.
func (r *Run) pooledSet(items []*Item) *workset {
	w := &workset{names: names(items), desc: names(items)}
	w.setup = func(delay bool, idx ...int) (string, []string) {
		var paths []string
		for i, it := range items {
			if len(idx) == 0 || containsInt(idx, i) {
				paths = append(paths, r.PoolDir(it))
			}
		}
		if delay {
			r.World(r.delays(paths))
		} else {
			r.World(nil)
		}
		return r.Scratch + "/pool", paths
	}
	return w
}

// caseSet uses generated packages.
func (r *Run) caseSet(cs []*pkgCase) *workset {
	w := &workset{}
	for _, c := range cs {
		w.names = append(w.names, c.name)
		w.desc = append(w.desc, c.kind)
	}
	w.setup = func(delay bool, idx ...int) (string, []string) {
		var sub []*pkgCase
		for i, c := range cs {
			if len(idx) == 0 || containsInt(idx, i) {
				sub = append(sub, c)
			}
		}
		root, paths := r.fresh(sub)
		r.install(root, sub, delay)
		return root, paths
	}
	return w
}

func containsInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// statefulCases writes packages of rules that keep state in unusual ways, next
// to incomplete and failing ones.
func (r *Run) statefulCases(n int) []*pkgCase {
	var cs []*pkgCase
	shared := r.P(1, 6)
	for i, it := range r.pickStateful(n) {
		name := fmt.Sprintf("p%d", i)
		if shared && r.P(3, 4) {
			cs = append(cs, &pkgCase{name: name, mkdir: true, kind: "shared variables", files: r.genShared()})
			continue
		}
		switch k := r.Int(9); k {
		case 8:
			cs = append(cs, r.directiveCase(name))
		case 6:
			cs = append(cs, r.brokenCase(name))
		case 7:
			cs = append(cs, r.genCase(i, false))
		default:
			c := &pkgCase{name: name, mkdir: true, kind: it.Name, files: copyFiles(it.Files)}
			if k > 1 && world.Compiles(it.Files) {
				var how []string
				c.files, how = r.reshape(it.Files, 1+r.Int(3), r.P(2, 3))
				c.kind += "; " + strings.Join(how, ", ")
			}
			cs = append(cs, c)
		}
	}
	return cs
}

func runC04(r *Run) {
	n := 2 + r.Int(4)
	o := r.ScanOpts()
	r.oldGo()
	var w *workset
	pool := r.P(1, 2)
	if pool {
		w = r.pooledSet(r.pickStateful(n))
	} else {
		w = r.caseSet(r.statefulCases(n))
	}
	o2 := o
	o2.Conc = 1 + r.Int(3)
	r.Log("packages %v, %v", w.desc, o2)
	// the scan of several packages runs first, on a process as clean as it can be
	root, paths := w.setup(true)
	var multi, second *Scan
	incremental := r.P(1, 3)
	r.Sim("scan of all packages", r.SimCfg(), func() {
		if !incremental {
			multi = DoScan(root, o2, paths)
			return
		}
		// one analyzer, one Process call per package
		lg, _ := NewLogger()
		a := o2.New(lg)
		for _, p := range paths {
			if err := a.Process(nil, p); err != nil {
				break
			}
		}
		multi = Collect(root, a)
	})
	root, paths = w.setup(false)
	rev := append([]string(nil), paths...)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	r.Ref("scan of all packages in reverse order", func() { second = DoScan(root, o, rev) })
	fresh := pool && r.P(1, 8)
	all := strings.Join(w.desc, " | ")
	var parts []*Scan
	for i, name := range w.names {
		var s *Scan
		how := "alone"
		root, path := w.setup(false, i)
		if fresh {
			s = r.FreshScan(root, o, path)
			how = "alone in a new process"
			r.Probe("fresh-process-reference")
		} else {
			r.Ref("scan of "+name+" alone", func() { s = DoScan(root, o, path) })
		}
		parts = append(parts, s)
		for k, m := range []*Scan{multi, second} {
			mn := []string{"the scan of " + all, "the scan in reverse order of " + all}[k]
			mf, me := under(m, name)
			if d := diffSets(name+" "+how, multiset(s.Findings, Finding.WithSupp), mn, mf); d != "" {
				r.Fail("findings-depend-on-others", "findings in package %s (%s) differ:%s", name, w.desc[i], d)
			}
			_, se := under(s, name)
			if d := diffSets(name+" "+how, se, mn, me); d != "" {
				r.Fail("errors-depend-on-others", "errors of package %s (%s) differ:%s", name, w.desc[i], d)
			}
		}
	}
	r.sameSum("not-the-sum", "the scan of all packages", multi, "the scans of each package alone", parts)
	r.Key = fmt.Sprint(w.desc, o2, incremental, r.Sync)
	r.Trivial = len(multi.Findings) == 0
	r.Sample = fmt.Sprintf("packages %v, %v: %d findings", w.desc, o2, len(multi.Findings))
}
