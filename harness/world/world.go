// Package world stands in for the operating system while the node and protocol
// packages are executed symbolically: files live in memory and external
// commands are recorded and answered from a script. Native replays use real
// files in a scratch directory and a real (shell script) command.
package world

import (
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

type file struct {
	name string
	data []byte
	gone bool
}

type handle struct {
	f      *os.File
	of     *file
	pos    int
	closed bool
}

// Call is one command the code ran.
type Call struct {
	Path   string
	Args   []string
	TxFile []byte // content of the --tx-file argument at the time of the call
	HasTx  bool
}

var (
	files   []*file
	handles []*handle
	temps   int
	noTemp  bool

	calls []Call
	out   []byte
	fail  bool

	dir string
)

var errNoFile = errors.New("no such file")
var errClosed = errors.New("file already closed")
var errExit = errors.New("exit status 1")

func scratch() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "world-")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return dir
}

// File makes a file with that content and returns its path.
func File(data []byte) string {
	if v.Symbolic() {
		files = append(files, &file{name: "/world/file", data: data})
		return "/world/file"
	}
	p := filepath.Join(scratch(), "file")
	if err := os.WriteFile(p, data, 0600); err != nil {
		panic(err)
	}
	return p
}

// Missing is a path where no file exists.
func Missing() string {
	if v.Symbolic() {
		return "/world/missing"
	}
	return filepath.Join(scratch(), "missing")
}

// NoTemp makes temporary files impossible to create.
func NoTemp() {
	if v.Symbolic() {
		noTemp = true
		return
	}
	os.Setenv("TMPDIR", filepath.Join(scratch(), "nodir"))
}

const script = `#!/bin/sh
d="$(dirname "$0")"
prev=
i=0
while [ -e "$d/call.$i" ]; do i=$((i+1)); done
: > "$d/call.$i"
for a in "$@"; do
	printf '%s\0' "$a" >> "$d/call.$i"
	if [ "$prev" = --tx-file ] && [ -e "$a" ]; then cp "$a" "$d/tx.$i"; fi
	prev="$a"
done
cat "$d/out"
exit "$(cat "$d/rc")"
`

// Command makes a command that prints o and fails if f is set; it returns its path.
func Command(o []byte, f bool) string {
	if v.Symbolic() {
		out, fail = o, f
		return "/world/cli"
	}
	d := scratch()
	rc := "0"
	if f {
		rc = "1"
	}
	os.WriteFile(filepath.Join(d, "out"), o, 0600)
	os.WriteFile(filepath.Join(d, "rc"), []byte(rc), 0600)
	p := filepath.Join(d, "cli")
	if err := os.WriteFile(p, []byte(script), 0700); err != nil {
		panic(err)
	}
	return p
}

// DefaultCommand puts that command on the search path under the name a user would type.
func DefaultCommand(o []byte, f bool) string {
	p := Command(o, f)
	if v.Symbolic() {
		return "cardano-cli"
	}
	d := filepath.Dir(p)
	os.Rename(p, filepath.Join(d, "cardano-cli"))
	os.Setenv("PATH", d+":"+os.Getenv("PATH"))
	return p
}

// Scratch makes temporary files go to a directory of their own; LeftOver counts those still there.
func Scratch() {
	if !v.Symbolic() {
		d := filepath.Join(scratch(), "temp")
		os.Mkdir(d, 0700)
		os.Setenv("TMPDIR", d)
	}
}

func LeftOver() int {
	n := 0
	if v.Symbolic() {
		for _, f := range files {
			if !f.gone {
				n++
			}
		}
		return n
	}
	es, _ := os.ReadDir(filepath.Join(scratch(), "temp"))
	return len(es)
}

// Calls lists the commands run so far.
func Calls() []Call {
	if v.Symbolic() {
		return calls
	}
	var cs []Call
	d := scratch()
	for i := 0; ; i++ {
		n := string(rune('0' + i))
		b, err := os.ReadFile(filepath.Join(d, "call."+n))
		if err != nil {
			return cs
		}
		c := Call{Path: filepath.Join(d, "cli")}
		if len(b) > 0 {
			c.Args = strings.Split(string(b[:len(b)-1]), "\x00")
		}
		if t, err := os.ReadFile(filepath.Join(d, "tx."+n)); err == nil {
			c.TxFile, c.HasTx = t, true
		}
		cs = append(cs, c)
	}
}

// ---- stand-ins ----

func find(name string) *file {
	for i := len(files) - 1; i >= 0; i-- {
		if files[i].name == name && !files[i].gone {
			return files[i]
		}
	}
	return nil
}

func open(of *file) *os.File {
	f := new(os.File)
	handles = append(handles, &handle{f: f, of: of})
	return f
}

func at(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	v.Unsupported("file not opened through the stand-ins")
	return nil
}

func ReadFile(name string) ([]byte, error) {
	if f := find(name); f != nil {
		return append([]byte{}, f.data...), nil
	}
	return nil, errNoFile
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f := find(name)
	if f == nil {
		f = &file{name: name}
		files = append(files, f)
	}
	f.data = append([]byte{}, data...)
	return nil
}

func Open(name string) (*os.File, error) {
	if f := find(name); f != nil {
		return open(f), nil
	}
	return nil, errNoFile
}

func Create(name string) (*os.File, error) {
	WriteFile(name, nil, 0600)
	return open(find(name)), nil
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	if noTemp {
		return nil, errNoFile
	}
	f := &file{name: "/tmp/" + strings.Replace(pattern, "*", "", 1) + string(rune('0'+temps))}
	temps++
	files = append(files, f)
	return open(f), nil
}

func TempDir() string { return "/tmp" }

func Remove(name string) error {
	f := find(name)
	if f == nil {
		return errNoFile
	}
	f.gone = true
	return nil
}

func NewFile(fd uintptr, name string) *os.File { return new(os.File) }

func FileName(f *os.File) string { return at(f).of.name }

func FileWrite(f *os.File, b []byte) (int, error) {
	h := at(f)
	if h.closed {
		return 0, errClosed
	}
	h.of.data = append(h.of.data[:h.pos:h.pos], b...)
	h.pos += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileClose(f *os.File) error {
	h := at(f)
	if h.closed {
		return errClosed
	}
	h.closed = true
	return nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h := at(f)
	if h.closed {
		return 0, errClosed
	}
	if h.pos >= len(h.of.data) {
		return 0, io.EOF
	}
	n := copy(b, h.of.data[h.pos:])
	h.pos += n
	return n, nil
}

func FileSync(f *os.File) error { return nil }

func CmdNew(name string, args ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
}

func CmdNewContext(ctx context.Context, name string, args ...string) *exec.Cmd {
	return CmdNew(name, args...)
}

func CmdRun(c *exec.Cmd) error {
	call := Call{Path: c.Path, Args: append([]string{}, c.Args[1:]...)}
	for i := 1; i < len(c.Args); i++ {
		if c.Args[i-1] == "--tx-file" {
			if f := find(c.Args[i]); f != nil {
				call.TxFile, call.HasTx = append([]byte{}, f.data...), true
			}
		}
	}
	calls = append(calls, call)
	if c.Stdout != nil {
		if _, err := c.Stdout.Write(out); err != nil {
			return err
		}
	}
	if fail {
		return errExit
	}
	return nil
}

func CmdOutput(c *exec.Cmd) ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if err := CmdRun(c); err != nil {
		return append([]byte{}, out...), err
	}
	return append([]byte{}, out...), nil
}
