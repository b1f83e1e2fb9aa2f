package check

import (
	"fmt"
	"go/scanner"
	"go/token"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C24", Run: runC24})
}

// layout locates the tokens of a source file.
type layout struct {
	src   string
	start map[int]int // offset -> number of the token
	ends  []int       // offsets behind the tokens
	lines []int       // offsets of the lines
}

type tok struct {
	off, end int
	tok      token.Token
}

// tokensOf lists the tokens of a source text without comments.
func tokensOf(src string) []tok {
	var sc scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", -1, len(src))
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	var out []tok
	for {
		p, t, lit := sc.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON {
			continue // whether it is written is layout
		}
		n := len(lit)
		if t.IsOperator() {
			n = len(t.String())
		}
		o := f.Offset(p)
		if t == token.STRING && src[o] == '`' { // carriage returns are not part of the literal
			n = 2 + strings.IndexByte(src[o+1:], '`')
		}
		out = append(out, tok{o, o + n, t})
	}
}

func layoutOf(src string) *layout {
	l := &layout{src: src, start: map[int]int{}, lines: []int{0}}
	for k, t := range tokensOf(src) {
		l.start[t.off] = k
		l.ends = append(l.ends, t.end)
	}
	for i := range src {
		if src[i] == '\n' {
			l.lines = append(l.lines, i+1)
		}
	}
	return l
}

func (l *layout) lineOf(off int) int { return sort.SearchInts(l.lines, off+1) }

// count is the number of lines.
func (l *layout) count() int {
	if strings.HasSuffix(l.src, "\n") || l.src == "" {
		return len(l.lines) - 1
	}
	return len(l.lines)
}

// line is the text of a line without its end.
func (l *layout) line(n int) string {
	s := l.src[l.lines[n-1]:]
	s, _, _ = strings.Cut(s, "\n")
	return strings.TrimSuffix(s, "\r")
}

// snippet is what belongs to a finding at the lines.
func (l *layout) snippet(a, b int) string {
	var out strings.Builder
	for n := max(a-1, 1); n <= min(b+1, l.count()); n++ {
		fmt.Fprintf(&out, "%d: %s\n", n, l.line(n))
	}
	return out.String()
}

// at is the number of the token at a place, -1 when there is none.
func (l *layout) at(line, col int) int {
	if line < 1 || line > len(l.lines) {
		return -1
	}
	if k, ok := l.start[l.lines[line-1]+col-1]; ok {
		return k
	}
	return -1
}

// endingAt are the first and last token which end at the line.
func (l *layout) endingAt(line int) (int, int) {
	a, b := -1, -1
	for k, e := range l.ends {
		// the end of a node may be the start of the next line
		if n := l.lineOf(e); n == line || l.lineOf(e-1) == line {
			if a < 0 {
				a = k
			}
			b = k
		}
	}
	return a, b
}

var breakAfter = map[token.Token]bool{token.LPAREN: true, token.COMMA: true, token.LBRACE: true, token.ADD: true, token.SUB: true, token.MUL: true, token.ASSIGN: true, token.DEFINE: true, token.PERIOD: true, token.LOR: true, token.LAND: true, token.COLON: true}

// endsStatement are the tokens after which the end of a line ends a statement.
var endsStatement = map[token.Token]bool{token.IDENT: true, token.INT: true, token.FLOAT: true, token.IMAG: true, token.CHAR: true, token.STRING: true, token.BREAK: true, token.CONTINUE: true, token.FALLTHROUGH: true, token.RETURN: true, token.INC: true, token.DEC: true, token.RPAREN: true, token.RBRACK: true, token.RBRACE: true}

// relayout writes the same tokens in another layout.
func (r *Run) relayout(src string) string {
	toks := tokensOf(src)
	var b strings.Builder
	pos := 0
	den := pick(r, []int{3, 8, 30, 100})
	long := r.P(1, 6)
	joined := 0
	if r.P(1, 4) {
		joined = r.Int(len(toks) + 1)
		if r.P(1, 2) {
			joined = min(joined, 30)
		}
	}
	for k, t := range toks {
		gap := src[pos:t.off]
		if k < joined && strings.Contains(gap, "\n") && strings.TrimSpace(gap) == "" {
			r.Fired["layout-join"]++
			gap = " "
			if k == 0 {
				gap = ""
			} else if endsStatement[toks[k-1].tok] {
				gap = "; "
			}
		}
		b.WriteString(gap)
		if k > 0 && r.P(1, den) {
			plain := !strings.Contains(gap, "//") && !strings.Contains(gap, "/*")
			switch {
			case long && r.P(1, 10) && plain:
				b.WriteString("/* " + strings.Repeat("long ", pick(r, []int{14000, 14000, 14000, 220000})) + "*/ ")
				r.Fired["layout-long-line"]++
				long = false
			case breakAfter[toks[k-1].tok] && toks[k-1].tok != token.PERIOD && r.P(1, 2) && plain:
				b.WriteString(pick(r, []string{"\n", "\n\n\n", "\n\t", " // end\n", "/* a\nb */\n"}))
				r.Fired["layout-break"]++
			case strings.Contains(gap, "\n") && plain:
				b.WriteString(pick(r, []string{"\n\n", "// comment\n", "\n// a\n// b\n\n", "/* a\n\n\nb */ ", "\t\t  ", "\f\n"[1:], "/* ünïcödé ☃ */ "}))
				r.Fired["layout-lines"]++
			case plain:
				b.WriteString(pick(r, []string{" /* c */ ", "\t", "   ", "/**/", "/* ☃ */"}))
				r.Fired["layout-space"]++
			}
		}
		b.WriteString(src[t.off:t.end])
		pos = t.end
	}
	b.WriteString(src[pos:])
	out := b.String()
	switch r.Int(6) {
	case 0:
		out = strings.ReplaceAll(strings.ReplaceAll(out, "\r\n", "\n"), "\n", "\r\n")
		r.Fired["layout-crlf"]++
	case 1:
		if !strings.Contains(src[pos:], "//") {
			out = strings.TrimRight(out, "\n ")
			r.Fired["layout-no-end"]++
		}
	case 2:
		if !strings.HasPrefix(out, "\ufeff") {
			out = "\ufeff" + out
			r.Fired["layout-mark"]++
		}
	}
	return out
}

// runC24 decides that findings are where the flagged code is and show it.
func runC24(r *Run) {
	var cs, moved []*pkgCase
	o := r.ScanOpts()
	for i := 0; i < 1+r.Int(3); i++ {
		c := &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true, expect: "ok"}
		c.files, c.kind = r.goodFiles(c.name)
		if r.P(1, 4) {
			if it := r.pickStateful(1)[0]; world.Compiles(it.Files) {
				c.files, c.kind = copyFiles(it.Files), it.Name
			}
		}
		m := &pkgCase{name: c.name, mkdir: true, expect: "ok", kind: c.kind, files: map[string]string{}}
		for _, f := range sortedKeys(c.files) {
			src := c.files[f]
			if strings.Contains(src, "//line") || strings.Contains(src, "/*line") || !strings.HasSuffix(f, ".go") {
				m.files[f] = src
				continue
			}
			m.files[f] = r.relayout(src)
		}
		cs, moved = append(cs, c), append(moved, m)
	}
	o.NoSec = true // directives follow the comments, not the tokens
	r.oldGo()
	root, paths := r.fresh(cs)
	r.install(root, cs, false)
	var base, got *Scan
	r.Ref("scan of the usual layout", func() { base = DoScan(root, o, paths) })
	root, paths = r.fresh(moved)
	l := r.install(root, moved, true)
	loaded := map[string]bool{}
	plan := l.Plan
	l.Plan = func(dir string) *world.Plan {
		p := &world.Plan{}
		if x := plan(dir); x != nil {
			*p = *x
		}
		p.After = func() { loaded[dir] = true }
		return p
	}
	planned := zz.W.FS
	rate := r.F(6)
	hit := map[string]bool{}
	zz.W.FS = func(op, path string, n int) *zz.Fault {
		if planned != nil {
			if ft := planned(op, path, n); ft != nil {
				return ft
			}
		}
		if rate < 4 || (op != "open" && op != "read") || !strings.HasSuffix(path, ".go") || !loaded[filepath.Dir(path)] || !r.FP(rate-3, 8) {
			return nil
		}
		e := pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})
		r.Fired[op+":"+e]++
		hit[relTo(root, path)] = true
		ft := &zz.Fault{Err: world.ErrOf(e)}
		if op == "read" && r.FP(1, 2) {
			ft.Bytes = r.F(200)
		}
		return ft
	}
	o.Conc = 1 + r.Int(4)
	what := fmt.Sprintf("%v with %v", kinds(cs), o)
	r.Sim("scan of another layout of "+what, r.SimCfg(), func() { got = DoScan(root, o, paths) })
	a := r.located("the scan of "+what, cs, base, nil)
	b := r.located("the scan of another layout of "+what, moved, got, hit)
	ends := map[string][]loc{}
	for _, x := range a {
		ends[x.key] = append(ends[x.key], x)
	}
	for _, x := range b {
		k := -1
		for n, y := range ends[x.key] {
			if y.e1 <= x.e2 && x.e1 <= y.e2 {
				k = n
			}
		}
		if k < 0 {
			r.Fail("layout-matters", "%s: in another layout there is the finding %s (%s), which ends at other tokens or is not among\n%s", what, x.f.ID(), x.key, strings.Join(locs(a), "\n"))
		}
		ends[x.key] = append(append([]loc(nil), ends[x.key][:k]...), ends[x.key][k+1:]...)
	}
	if len(a) != len(b) {
		r.Fail("layout-matters", "%s: there are the findings\n%s\nand in another layout\n%s", what, strings.Join(locs(a), "\n"), strings.Join(locs(b), "\n"))
	}
	r.Key = fmt.Sprint(what, locs(b), r.Sync)
	r.Trivial = len(b) == 0
	r.Sample = fmt.Sprintf("%s: %d findings", what, len(b))
}

type loc struct {
	f      Finding
	key    string
	e1, e2 int
}

func locs(ls []loc) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l.f.ID()+" = "+l.key)
	}
	return out
}

// located decides places and snippets and gives the findings by tokens.
func (r *Run) located(what string, cs []*pkgCase, s *Scan, hit map[string]bool) []loc {
	ls := map[string]*layout{}
	for _, c := range cs {
		for n, t := range c.files {
			if strings.HasSuffix(n, ".go") && !strings.Contains(t, "//line") && !strings.Contains(t, "/*line") {
				ls[c.name+"/"+n] = layoutOf(t)
			}
		}
	}
	var out []loc
	for _, f := range s.Findings {
		l := ls[f.File]
		if l == nil {
			continue
		}
		from, to, multi := strings.Cut(f.Line, "-")
		a, err := strconv.Atoi(from)
		b := a
		if err == nil && multi {
			b, err = strconv.Atoi(to)
		}
		col, err2 := strconv.Atoi(f.Col)
		if err != nil || err2 != nil || a < 1 || b < a || b > len(l.lines) {
			r.Fail("misplaced-finding", "%s: the finding %q names no place of its file, which has %d lines", what, f.ID(), len(l.lines))
		}
		k := l.at(a, col)
		if k < 0 {
			r.Fail("misplaced-finding", "%s: at the place of the finding %q (%s) nothing starts:\n%q", what, f.ID(), f.What, l.line(a))
		}
		want := l.snippet(a, b)
		if f.Code != want {
			// What is shown after the file's text could not be read, in part or
			// at the first attempt, is left open.
			if hit[f.File] {
				r.Probe("cut-snippet")
			} else {
				r.Fail("wrong-snippet", "%s: the finding %q shows\n%q\nin place of\n%q", what, f.ID(), firstN(f.Code, 1000), firstN(want, 1000))
			}
		}
		e1, e2 := l.endingAt(b)
		out = append(out, loc{f, fmt.Sprintf("%s %s token %d sev=%s conf=%s cwe=%s %s", f.Rule, f.File, k, f.Sev, f.Conf, f.CWE, f.What), e1, e2})
	}
	return out
}
