// Package vapi is the interface between the harnesses and the checker. The
// symbolic executor intercepts every function here; compiled natively, the
// same harness replays one concrete assignment against the real code.
package vapi

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
)

var Model = map[string]int64{}
var Tier int
var Failed []string
var Files map[string][]byte
var FilesHook func(map[string][]byte)

type assumeFailed struct{}

// VInt: any integer in [lo, hi].
func VInt(name string, lo, hi int) int {
	if v, ok := Model[name]; ok {
		return int(v)
	}
	return lo
}

// VBool: either truth value.
func VBool(name string) bool { return VInt(name, 0, 1) == 1 }

// VStr: any of the given texts.
func VStr(name string, opts ...string) string { return opts[VInt(name, 0, len(opts)-1)] }

// VAssume restricts the exploration; it states a bound or a precondition.
func VAssume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// VAssert is the property.
func VAssert(b bool, label string) {
	if !b {
		Failed = append(Failed, label)
		fmt.Println("ASSERT-FAIL", label)
	}
}

// VShared: from here on several callers do the same at once. Natively two
// of them do, under the race detector.
func VShared() {
	if gate != nil {
		before.Unlock()
		gate.Done()
		gate.Wait()
	}
}

var gate *sync.WaitGroup
var before sync.Mutex

// RunShared executes a harness in two goroutines. What comes before VShared
// is ordered; what comes after is not.
func RunShared(fn func()) {
	var wg sync.WaitGroup
	gate = new(sync.WaitGroup)
	gate.Add(2)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); before.Lock(); fn() }()
	}
	wg.Wait()
	fmt.Println("DONE")
}

// VObs records a value that replay compares with the solver's prediction.
func VObs(name string, v int) { fmt.Println("OBS", name, v) }

func VTier() int             { return Tier }
func VFork(v int) int        { return v }
func VForkS(v string) string { return v }
func VForkB(v bool) bool     { return v }
func VIsNative() bool        { return true }

func VAnd(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func VOr(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func VImp(a, b bool) bool { return !a || b }
func VIff(a, b bool) bool { return a == b }
func VIte(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// VFile puts a JSON document into the embedded file system.
func VFile(name string, exists bool, doc any) {
	if Files == nil {
		Files = map[string][]byte{}
	}
	if exists {
		b, err := json.Marshal(doc)
		if err != nil {
			panic(err)
		}
		Files[name] = b
	}
	if FilesHook != nil {
		FilesHook(Files)
	}
}

// VTemp names a scratch file that is there for one run.
func VTemp(name string) string {
	d, err := os.MkdirTemp(filepath.Dir(os.Args[0]), "files")
	if err != nil {
		panic(err)
	}
	return filepath.Join(d, name)
}

// Run executes one harness natively.
func Run(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				fmt.Println("ASSUME-FALSE")
				os.Exit(0)
			}
			fmt.Printf("PANIC %v\n", r)
			os.Exit(0)
		}
		fmt.Println("DONE")
	}()
	fn()
}
