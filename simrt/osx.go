package zzsimrt

import (
	"bytes"
	"errors"
	"fmt"
	"go/build"
	"io"
	"io/fs"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

// Fault describes one injected failure.
type Fault struct {
	Err   error
	Bytes int // bytes transferred before the failure (read, write)
	Short bool
	// Limit: a write of at most Bytes bytes succeeds; a longer one is cut.
	Limit bool
	// Transient: the next write is not affected by this failure.
	Transient bool
	OnFire    func()
}

// World is the simulated environment of a run. Harnesses install functions;
// nil functions mean a healthy environment.
type World struct {
	// FS decides faults of file operations. op is open, create, stat, lstat,
	// readdir, read, write, close, sync, remove, rename, mkdir.
	FS func(op, path string, n int) *Fault
	// OnClose, OnWrite observe successful operations on files opened for writing.
	OnExit func(code int)
	Env    map[string]string
	EnvSet bool
	Load   func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error)
	Exec   func(c *Cmd) (stdout, stderr []byte, err error)
	CPUs   int
	// GoVersion is the version of the toolchain, the real one by default.
	GoVersion string
}

var W World

func fault(op, path string, n int) *Fault {
	if W.FS == nil {
		return nil
	}
	return W.FS(op, path, n)
}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

// File replaces os.File.
type File struct {
	f     *os.File
	name  string
	wr    bool
	wrote int
	rd    int
	fail  error
	std   bool
}

var (
	Stdin  = &File{f: os.Stdin, name: "/dev/stdin", std: true}
	Stdout = &File{f: os.Stdout, name: "/dev/stdout", wr: true, std: true}
	Stderr = &File{f: os.Stderr, name: "/dev/stderr", wr: true, std: true}
)

// Ledger is the account of the files the program opened and changed.
type Ledger struct {
	mu     sync.Mutex
	open   map[*File]bool
	Opened int
	Max    int      // most files open at once
	Wrote  []string // operations which change the file system
}

// Files is the account since the last call of ResetFiles.
var Files Ledger

// ResetFiles starts a new account.
func ResetFiles() {
	Files.mu.Lock()
	defer Files.mu.Unlock()
	Files.open, Files.Opened, Files.Max, Files.Wrote = map[*File]bool{}, 0, 0, nil
}

// Open lists the files which are open.
func (l *Ledger) Open() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []string
	for f := range l.open {
		out = append(out, f.name)
	}
	sort.Strings(out)
	return out
}

// OpenNow is the number of files which are open.
func (l *Ledger) OpenNow() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.open)
}

func (l *Ledger) changed(op, name string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Wrote = append(l.Wrote, op+" "+name)
}

func NewFile(fd uintptr, name string) *File { return &File{f: os.NewFile(fd, name), name: name} }

func wrapFile(f *os.File, name string, wr bool) *File {
	x := &File{f: f, name: name, wr: wr}
	Files.mu.Lock()
	defer Files.mu.Unlock()
	if Files.open == nil {
		Files.open = map[*File]bool{}
	}
	Files.open[x] = true
	Files.Opened++
	Files.Max = max(Files.Max, len(Files.open))
	if wr {
		Files.Wrote = append(Files.Wrote, "create "+name)
	}
	return x
}

// RealFile unwraps for code outside the simulation.
func (f *File) RealFile() *os.File { return f.f }

func Open(name string) (*File, error) {
	Point(0)
	if ft := fault("open", name, 0); ft != nil {
		return nil, perr("open", name, ft.Err)
	}
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	return wrapFile(f, name, false), nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	Point(0)
	wr := flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_APPEND) != 0
	op := "open"
	if wr {
		op = "create"
	}
	if ft := fault(op, name, 0); ft != nil {
		return nil, perr("open", name, ft.Err)
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return wrapFile(f, name, wr), nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	return wrapFile(f, f.Name(), true), nil
}

func (f *File) Name() string {
	if f == nil {
		panic(os.ErrInvalid)
	}
	return f.name
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	Point(0)
	if ft := fault("read", f.name, f.rd); ft != nil {
		if ft.Short && len(b) > ft.Bytes && ft.Bytes > 0 {
			b = b[:ft.Bytes]
		} else {
			return 0, perr("read", f.name, ft.Err)
		}
	}
	n, err := f.f.Read(b)
	f.rd += n
	return n, err
}

func (f *File) write(b []byte, do func([]byte) (int, error)) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	// No preemption point here: loggers call this while holding a real lock.
	if f.fail != nil {
		return 0, perr("write", f.name, f.fail)
	}
	if ft := fault("write", f.name, f.wrote); ft != nil {
		n := ft.Bytes
		if ft.Limit && len(b) <= n {
			n, err := do(b)
			f.wrote += n
			return n, err
		}
		if ft.OnFire != nil {
			ft.OnFire()
		}
		if n > len(b) {
			n = len(b)
		}
		if n > 0 {
			n, _ = do(b[:n])
			f.wrote += n
		}
		if !ft.Transient {
			f.fail = ft.Err // a full disk stays full
		}
		return n, perr("write", f.name, ft.Err)
	}
	n, err := do(b)
	f.wrote += n
	return n, err
}

func (f *File) Write(b []byte) (int, error) { return f.write(b, f.f.Write) }
func (f *File) WriteString(s string) (int, error) {
	return f.write([]byte(s), f.f.Write)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.write(b, func(b []byte) (int, error) { return f.f.WriteAt(b, off) })
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if ft := fault("read", f.name, f.rd); ft != nil {
		return 0, perr("read", f.name, ft.Err)
	}
	return f.f.ReadAt(b, off)
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	Point(0)
	Files.mu.Lock()
	delete(Files.open, f)
	Files.mu.Unlock()
	if f.wr {
		if ft := fault("close", f.name, f.wrote); ft != nil {
			f.f.Close()
			return perr("close", f.name, ft.Err)
		}
	}
	if f.std {
		return nil // keep the process's own descriptors usable
	}
	return f.f.Close()
}
func (f *File) Sync() error {
	Point(0)
	if f.fail != nil {
		return perr("sync", f.name, f.fail)
	}
	if ft := fault("sync", f.name, f.wrote); ft != nil {
		return perr("sync", f.name, ft.Err)
	}
	if f.std {
		return nil
	}
	return f.f.Sync()
}
func (f *File) Stat() (os.FileInfo, error) {
	if ft := fault("stat", f.name, 0); ft != nil {
		return nil, perr("stat", f.name, ft.Err)
	}
	return f.f.Stat()
}
func (f *File) Seek(o int64, w int) (int64, error) { return f.f.Seek(o, w) }
func (f *File) Truncate(n int64) error             { return f.f.Truncate(n) }
func (f *File) Fd() uintptr                        { return f.f.Fd() }
func (f *File) Chmod(m os.FileMode) error          { return f.f.Chmod(m) }
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	if ft := fault("readdir", f.name, 0); ft != nil {
		return nil, perr("readdir", f.name, ft.Err)
	}
	return f.f.ReadDir(n)
}
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if ft := fault("readdir", f.name, 0); ft != nil {
		return nil, perr("readdir", f.name, ft.Err)
	}
	return f.f.Readdir(n)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if ft := fault("readdir", f.name, 0); ft != nil {
		return nil, perr("readdir", f.name, ft.Err)
	}
	return f.f.Readdirnames(n)
}

func Stat(name string) (os.FileInfo, error) {
	Point(0)
	if ft := fault("stat", name, 0); ft != nil {
		return nil, perr("stat", name, ft.Err)
	}
	return os.Stat(name)
}

func Lstat(name string) (os.FileInfo, error) {
	Point(0)
	if ft := fault("lstat", name, 0); ft != nil {
		return nil, perr("lstat", name, ft.Err)
	}
	return os.Lstat(name)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]os.DirEntry, error) {
	Point(0)
	if ft := fault("readdir", name, 0); ft != nil {
		return nil, perr("open", name, ft.Err)
	}
	return os.ReadDir(name)
}

func Remove(name string) error {
	if ft := fault("remove", name, 0); ft != nil {
		return perr("remove", name, ft.Err)
	}
	Files.changed("remove", name)
	return os.Remove(name)
}

func Rename(a, b string) error {
	if ft := fault("rename", b, 0); ft != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: ft.Err}
	}
	Files.changed("rename", a)
	return os.Rename(a, b)
}

// Exit ends the program.
func Exit(code int) {
	if W.OnExit != nil {
		W.OnExit(code)
	}
	os.Exit(code)
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func LookupEnv(k string) (string, bool) {
	if W.EnvSet {
		v, ok := W.Env[k]
		return v, ok
	}
	return os.LookupEnv(k)
}

func NumCPU() int {
	if W.CPUs > 0 {
		return W.CPUs
	}
	return 8
}

func GoVersion() string {
	if W.GoVersion != "" {
		return W.GoVersion
	}
	return runtime.Version()
}

func GOMAXPROCS(n int) int { return NumCPU() }

func NumGoroutine() int {
	if S != nil {
		return S.nlive
	}
	return runtime.NumGoroutine()
}

func Gosched() { Yield() }

// ---- printing to the process's standard output --------------------------------

func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }

// ---- log: fatal variants end the program through Exit -------------------------

func LogFatal(l *log.Logger) func(a ...any) {
	return func(a ...any) { l.Output(2, fmt.Sprint(a...)); Exit(1) }
}
func LogFatalf(l *log.Logger) func(f string, a ...any) {
	return func(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)); Exit(1) }
}
func LogFatalln(l *log.Logger) func(a ...any) {
	return func(a ...any) { l.Output(2, fmt.Sprintln(a...)); Exit(1) }
}
func StdFatal(a ...any)            { log.Output(2, fmt.Sprint(a...)); Exit(1) }
func StdFatalf(f string, a ...any) { log.Output(2, fmt.Sprintf(f, a...)); Exit(1) }
func StdFatalln(a ...any)          { log.Output(2, fmt.Sprintln(a...)); Exit(1) }

// ---- directory walks -----------------------------------------------------------

// Walk replaces filepath.Walk with the same algorithm over the simulated files.
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := readDirNames(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		filename := filepath.Join(path, name)
		fi, err := Lstat(filename)
		if err != nil {
			if err := fn(filename, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func readDirNames(dir string) ([]string, error) {
	if ft := fault("readdir", dir, 0); ft != nil {
		return nil, perr("open", dir, ft.Err)
	}
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	names, err := f.Readdirnames(-1)
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	return names, nil
}

// WalkDir replaces filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// ---- go/build ------------------------------------------------------------------

// BuildContext replaces build.Default: the same settings over simulated files.
var BuildContext = func() build.Context {
	c := build.Default
	c.ReadDir = func(dir string) ([]fs.FileInfo, error) {
		es, err := ReadDir(dir)
		if err != nil {
			return nil, err
		}
		var out []fs.FileInfo
		for _, e := range es {
			fi, err := e.Info()
			if err != nil {
				continue
			}
			out = append(out, fi)
		}
		return out, nil
	}
	c.OpenFile = func(p string) (io.ReadCloser, error) { return Open(p) }
	c.IsDir = func(p string) bool { fi, err := Stat(p); return err == nil && fi.IsDir() }
	return c
}()

func BuildImport(path, srcDir string, mode build.ImportMode) (*build.Package, error) {
	return BuildContext.Import(path, srcDir, mode)
}

func BuildImportDir(dir string, mode build.ImportMode) (*build.Package, error) {
	return BuildContext.ImportDir(dir, mode)
}

// ---- commands ------------------------------------------------------------------

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Err          error
	Process      *os.Process
	ProcessState *os.ProcessState
	Cancel       func() error
	WaitDelay    time.Duration
	started      bool
	pipe         *bytes.Buffer
	epipe        *bytes.Buffer
	runErr       error
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx interface{ Err() error }, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) { return "/simulated/bin/" + filepath.Base(file), nil }

func (c *Cmd) exec() (o, e []byte, err error) {
	Point(0)
	Note("exec %s", strings.Join(c.Args, " "))
	if W.Exec == nil {
		return nil, nil, &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	return W.Exec(c)
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Run() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	o, e, err := c.exec()
	if c.Stdout != nil {
		c.Stdout.Write(o)
	}
	if c.Stderr != nil {
		c.Stderr.Write(e)
	}
	return err
}

func (c *Cmd) Output() ([]byte, error) {
	c.started = true
	o, e, err := c.exec()
	if c.Stderr != nil {
		c.Stderr.Write(e)
	}
	return o, err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	c.started = true
	o, e, err := c.exec()
	return append(append([]byte(nil), e...), o...), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.pipe = &bytes.Buffer{}
	return io.NopCloser(c.pipe), nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	c.epipe = &bytes.Buffer{}
	return io.NopCloser(c.epipe), nil
}

func (c *Cmd) Start() error {
	c.started = true
	o, e, err := c.exec()
	if err != nil {
		var ee *exec.Error
		if errors.As(err, &ee) {
			return err
		}
	}
	for _, w := range []struct {
		p *bytes.Buffer
		w io.Writer
		b []byte
	}{{c.pipe, c.Stdout, o}, {c.epipe, c.Stderr, e}} {
		if w.p != nil {
			w.p.Write(w.b)
		} else if w.w != nil {
			w.w.Write(w.b)
		}
	}
	c.runErr = err
	return nil
}

func (c *Cmd) Wait() error { return c.runErr }

func (c *Cmd) Environ() []string { return c.Env }

// ---- package loader -------------------------------------------------------------

// PackagesLoad replaces packages.Load.
func PackagesLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if W.Load == nil {
		return nil, errors.New("zzsimrt: no package loader installed")
	}
	Point(0)
	return W.Load(cfg, patterns...)
}
