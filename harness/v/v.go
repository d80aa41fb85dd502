// Package v is the interface between the harnesses and the checker. Under the
// symbolic engine every function here is replaced by an intrinsic; this native
// version reads concrete inputs from the file named by VREPLAY, so that a
// counterexample can be replayed against the compiled code.
package v

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
)

var data map[string][]uint64

func load() {
	if data != nil {
		return
	}
	data = map[string][]uint64{}
	if f := os.Getenv("VREPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			var doc struct {
				Inputs map[string][]uint64 `json:"inputs"`
			}
			if err := json.Unmarshal(b, &doc); err != nil {
				fmt.Println("BADREPLAY", err)
				os.Exit(9)
			}
			if doc.Inputs != nil {
				data = doc.Inputs
			}
		}
	}
}

func word(name string, i int) uint64 {
	load()
	w := data[name]
	if i < len(w) {
		return w[i]
	}
	return 0
}

func Bool(name string) bool  { return word(name, 0)&1 == 1 }
func Byte(name string) byte  { return byte(word(name, 0)) }
func U16(name string) uint16 { return uint16(word(name, 0)) }
func U32(name string) uint32 { return uint32(word(name, 0)) }
func U64(name string) uint64 { return word(name, 0) }

// Bytes is an arbitrary byte string of n bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(word(name, i))
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose is an arbitrary value in [0,n); the engine explores each one.
func Choose(name string, n int) int { return int(word(name, 0) % uint64(n)) }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		if searching {
			panic(searchStop{"assume", ""})
		}
		fmt.Println("ASSUME")
		os.Exit(0)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		if searching {
			panic(searchStop{"assert", msg})
		}
		fmt.Println("ASSERT-FAIL " + msg)
		os.Exit(3)
	}
}

func Fail(msg string) { Assert(false, msg) }

// Unsupported ends a path the stand-ins cannot follow (reported as not explored).
func Unsupported(msg string) { panic("unsupported: " + msg) }

// Reach marks a point that must be reachable for the check not to be vacuous.
func Reach(label string) {
	if !searching {
		fmt.Println("REACH " + label)
	}
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func Eq(a, b []byte) bool    { return bytes.Equal(a, b) }
func EqStr(a, b string) bool { return a == b }
func Symbolic() bool         { return false }
func Concretize(n int) int   { return n }
func Observe(l string, b []byte) {
	if searching {
		return
	}
	fmt.Println("OBS " + l + " " + hex.EncodeToString(b))
}

// Both runs f and g as two goroutines would be run: the engine looks for accesses of both to
// the same memory that nothing orders; VBOTH runs them in two goroutines, for the race detector.
func Both(f, g func()) {
	if os.Getenv("VBOTH") == "" {
		f()
		g()
		return
	}
	start, done := make(chan bool), make(chan bool)
	for _, h := range []func(){f, g} {
		go func(h func()) {
			<-start
			h()
			done <- true
		}(h)
	}
	close(start)
	<-done
	<-done
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Run is the entry point of native replays.
func Run(h func()) {
	if os.Getenv("VSEARCH") != "" {
		Search(h)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			os.Exit(4)
		}
	}()
	h()
	fmt.Println("DONE")
}
