// Driver of the conformance checks: executes scripted calls against the public API of the
// library and records what came back. It contains no expectations.
//
// Input and output are JSON lines. Each line is a scenario {id, kind, ..., events: [...]};
// the output repeats it with a result "res" in each event.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"sync"
	"time"
)

type obj = map[string]any

// rat formats a float exactly.
func rat(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if math.IsInf(f, 1) {
		return "+Inf"
	}
	if math.IsInf(f, -1) {
		return "-Inf"
	}
	return new(big.Rat).SetFloat64(f).RatString()
}

func rats(f []float64) []string {
	r := make([]string, len(f))
	for i, v := range f {
		r[i] = rat(v)
	}
	return r
}

// num parses a rational to the nearest float.
func num(s string) float64 {
	switch s {
	case "NaN":
		return math.NaN()
	case "+Inf":
		return math.Inf(1)
	case "-Inf":
		return math.Inf(-1)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("driver: bad number " + s)
	}
	f, _ := r.Float64()
	return f
}

func nums(s []string) []float64 {
	r := make([]float64, len(s))
	for i, v := range s {
		r[i] = num(v)
	}
	return r
}

// guarded runs a call, and records panics and hangs as results.
func guarded(call func() obj) (res obj) {
	done := make(chan obj, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- obj{"st": "panic", "msg": fmt.Sprint(r)}
			}
		}()
		done <- call()
	}()
	select {
	case res = <-done:
		return res
	case <-time.After(60 * time.Second):
		return obj{"st": "hang", "msg": "no answer within 60 s"}
	}
}

func failure(err error) obj {
	return obj{"st": "err", "msg": err.Error()}
}

type scenario struct {
	raw    map[string]json.RawMessage
	Kind   string            `json:"kind"`
	Events []json.RawMessage `json:"events"`
}

type executor interface {
	run(op string, ev json.RawMessage) obj
}

func main() {
	in, err := os.Open(os.Args[1])
	check(err)
	out, err := os.Create(os.Args[2])
	check(err)
	w := bufio.NewWriterSize(out, 1<<20)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	par, err := strconv.Atoi(os.Getenv("DRIVER_PARALLEL"))
	if err != nil {
		par = 1
	}
	batch := [][]byte{}
	for {
		more := sc.Scan()
		if more {
			batch = append(batch, append([]byte{}, sc.Bytes()...))
		}
		if len(batch) == par || !more {
			for _, b := range runBatch(batch) {
				w.Write(b)
				w.WriteByte('\n')
			}
			if par > 1 {
				check(w.Flush())
			}
			batch = batch[:0]
		}
		if !more {
			break
		}
	}
	check(sc.Err())
	check(w.Flush())
	check(out.Close())
}

// runBatch runs scenarios at the same time.
func runBatch(lines [][]byte) [][]byte {
	res := make([][]byte, len(lines))
	var wg sync.WaitGroup
	for i, line := range lines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var s scenario
			check(json.Unmarshal(line, &s))
			check(json.Unmarshal(line, &s.raw))
			runScenario(&s, line)
			b, err := json.Marshal(s.raw)
			check(err)
			res[i] = b
		}()
	}
	wg.Wait()
	return res
}

func runScenario(s *scenario, line []byte) {
	var ex executor
	switch s.Kind {
	case "session":
		ex = newSession(line)
	case "algebra":
		ex = newAlgebra(line)
	case "large":
		a := newAlgebra(line)
		a.large = true
		ex = a
	case "logic":
		ex = newLogic()
	case "cli":
		ex = &cli{}
	case "tui":
		t := &tui{}
		defer t.close()
		ex = t
	case "docs":
		ex = newDocs(line)
	default:
		panic("driver: unknown kind " + s.Kind)
	}
	dead := false
	events := make([]json.RawMessage, len(s.Events))
	for i, ev := range s.Events {
		var m map[string]json.RawMessage
		check(json.Unmarshal(ev, &m))
		var op string
		check(json.Unmarshal(m["op"], &op))
		var res obj
		if dead {
			res = obj{"st": "skipped"}
		} else {
			res = guarded(func() obj { return ex.run(op, ev) })
			if res["st"] == "hang" {
				dead = true
			}
		}
		b, err := json.Marshal(res)
		check(err)
		m["res"] = b
		events[i], err = json.Marshal(m)
		check(err)
	}
	b, err := json.Marshal(events)
	check(err)
	s.raw["events"] = b
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func decode(ev json.RawMessage, v any) {
	check(json.Unmarshal(ev, v))
}
