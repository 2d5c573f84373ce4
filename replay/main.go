// Command replay looks for a concrete input on which the real code of /repo breaks a property.
//
// It is run when the verifier leaves an obligation of that property open.  Each property has an
// oracle written from the property's statement; the code under test is called through its
// exported API only, except for what no exported name reaches.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// Failure is a violation on a concrete input.
type Failure struct {
	Property string `json:"property"`
	Input    string `json:"input,omitempty"`
	InputHex string `json:"input_hex,omitempty"`
	Setup    string `json:"setup,omitempty"`
	Detail   string `json:"detail"`
	Stack    string `json:"stack,omitempty"`
}

// oracle says why the property does not hold on src, or "".
type oracle func(src []byte) string

var byteOracles = map[string]oracle{}

// directed are searches that are not over source texts.
var directed = map[string]func(r *rand.Rand, deadline time.Time) *Failure{}

var (
	outPath = flag.String("out", "", "where to write the failure")
	outMu   sync.Mutex
)

func report(f *Failure) {
	outMu.Lock()
	b, _ := json.MarshalIndent(f, "", " ")
	if *outPath != "" {
		os.WriteFile(*outPath, append(b, '\n'), 0o644)
	}
	fmt.Println(string(b))
	os.Exit(3)
}

// guarded runs the oracle, a panic being a failure.
func guarded(o oracle, src []byte) (msg, stack string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			stack = string(debug.Stack())
			if len(stack) > 3000 {
				stack = stack[:3000]
			}
		}
	}()
	return o(src), ""
}

func fail(prop string, src []byte, msg, stack string) *Failure {
	return &Failure{Property: prop, Input: string(src), InputHex: fmt.Sprintf("%x", src), Detail: msg, Stack: stack}
}

func main() {
	prop := flag.String("prop", "", "property")
	secs := flag.Int("secs", 60, "time budget")
	seed := flag.Int64("seed", 1, "seed")
	input := flag.String("input", "", "replay this file instead of searching")
	flag.Parse()
	if *input != "" {
		replayFile(*prop, *input)
		return
	}
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	if d := directed[*prop]; d != nil {
		if f := func() (f *Failure) {
			defer func() {
				if r := recover(); r != nil {
					f = &Failure{Property: *prop, Detail: fmt.Sprintf("panic: %v", r), Stack: string(debug.Stack())}
				}
			}()
			return d(rand.New(rand.NewSource(*seed)), deadline)
		}(); f != nil {
			f.Property = *prop
			report(f)
		}
	}
	o := byteOracles[*prop]
	if o == nil {
		fmt.Println("no failing input found")
		return
	}
	const workers = 8
	type slot struct {
		start atomic.Int64
		src   atomic.Value
	}
	slots := make([]slot, workers)
	var done atomic.Bool
	var tried atomic.Int64
	ch := make(chan []byte, 1024)
	go func() {
		generate(*prop, *seed, deadline, func(b []byte) bool {
			if done.Load() {
				return false
			}
			ch <- b
			return true
		})
		close(ch)
	}()
	go func() { // hangs
		for {
			time.Sleep(200 * time.Millisecond)
			for i := range slots {
				if s := slots[i].start.Load(); s != 0 && time.Now().UnixNano()-s > 3e9 {
					if src, ok := slots[i].src.Load().([]byte); ok {
						report(fail(*prop, src, "does not terminate within 3 s", ""))
					}
				}
			}
		}
	}()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var best *Failure
	var bestSrc []byte
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for src := range ch {
				if done.Load() {
					continue
				}
				slots[w].src.Store(src)
				slots[w].start.Store(time.Now().UnixNano())
				msg, st := guarded(o, append([]byte{}, src...))
				slots[w].start.Store(0)
				tried.Add(1)
				if msg != "" {
					mu.Lock()
					if best == nil || len(src) < len(bestSrc) {
						best, bestSrc = fail(*prop, src, msg, st), src
					}
					mu.Unlock()
					done.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if best != nil {
		src := minimise(o, bestSrc)
		msg, st := guarded(o, append([]byte{}, src...))
		if msg == "" { // depends on more than the input; keep the original
			report(best)
		}
		report(fail(*prop, src, msg, st))
	}
	fmt.Printf("no failing input found (%d inputs)\n", tried.Load())
}

// minimise removes chunks while the oracle still fails; hangs are cut off by the monitor.
func minimise(o oracle, src []byte) []byte {
	end := time.Now().Add(2 * time.Second)
	for n := len(src) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(src) && time.Now().Before(end); {
			c := append(append([]byte{}, src[:i]...), src[i+n:]...)
			res := make(chan string, 1)
			go func() { m, _ := guarded(o, append([]byte{}, c...)); res <- m }()
			var m string
			select {
			case m = <-res:
			case <-time.After(time.Second):
				return src
			}
			if m != "" {
				src = c
			} else {
				i += n
			}
		}
	}
	return src
}

func replayFile(prop, path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f Failure
	var src []byte
	if json.Unmarshal(data, &f) == nil {
		fmt.Sscanf(f.InputHex, "%x", &src)
	} else {
		src = data
	}
	go func() {
		time.Sleep(5 * time.Second)
		fmt.Println("does not terminate within 5 s")
		os.Exit(3)
	}()
	if o := byteOracles[prop]; o != nil {
		m, st := guarded(o, src)
		fmt.Println(m)
		fmt.Println(st)
		if m != "" {
			os.Exit(3)
		}
	}
}
