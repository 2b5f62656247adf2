// Command replay runs concrete instances of symbolic paths against the real build.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"

	"zzverif/harness"
	"zzverif/nd"
)

type input struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
}
type obs struct {
	Label string `json:"label"`
	Hex   string `json:"hex"`
}
type trace struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Prop    string  `json:"prop"`
	Inputs  []input `json:"inputs"`
	Obs     []obs   `json:"observations"`
	Label   string  `json:"label"`
	Message string  `json:"message"`
}
type result struct {
	Idx    int    `json:"idx"`
	Status string `json:"status"` // ok, fail, panic, infeasible, hang, mismatch
	Label  string `json:"label,omitempty"`
	Msg    string `json:"msg,omitempty"`
}

func emit(r result) {
	b, _ := json.Marshal(r)
	os.Stdout.Write(append(b, '\n'))
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: replay TRACES.json SCRATCHDIR [first]")
		os.Exit(2)
	}
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(64 << 20)
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ts []trace
	if len(data) > 0 && data[0] == '{' {
		var t trace
		err = json.Unmarshal(data, &t)
		ts = []trace{t}
	} else {
		err = json.Unmarshal(data, &ts)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	first := 0
	if len(os.Args) > 3 {
		fmt.Sscan(os.Args[3], &first)
	}
	for i := first; i < len(ts); i++ {
		dir := filepath.Join(os.Args[2], fmt.Sprintf("t%d", i))
		os.MkdirAll(dir, 0o755)
		ch := make(chan result, 1)
		go func() { ch <- runOne(i, &ts[i], dir) }()
		select {
		case r := <-ch:
			emit(r)
		case <-time.After(20 * time.Second):
			emit(result{Idx: i, Status: "hang", Msg: "no result within 20 s"})
			os.RemoveAll(dir)
			os.Exit(0)
		}
		os.RemoveAll(dir)
	}
}

func runOne(i int, t *trace, dir string) (res result) {
	debug.SetPanicOnFault(true)
	res = result{Idx: i, Status: "ok"}
	r := &nd.Replay{Vals: map[string]uint64{}, TierV: t.Tier, Prop: t.Prop, Dir: dir}
	for _, in := range t.Inputs {
		r.Vals[in.Name] = in.Val
	}
	defer func() {
		e := recover()
		switch x := e.(type) {
		case nil:
		case nd.Failure:
			res = result{Idx: i, Status: "fail", Label: x.Label}
			return
		case nd.Infeasible:
			res = result{Idx: i, Status: "infeasible"}
			return
		default:
			res = result{Idx: i, Status: "panic", Label: "panic", Msg: fmt.Sprint(e)}
			if os.Getenv("VERIF_DEBUG") != "" {
				res.Msg += "\n" + string(debug.Stack())
			}
			return
		}
		if t.Label == "" {
			if len(t.Obs) != len(r.Labels) {
				res = result{Idx: i, Status: "mismatch", Msg: fmt.Sprintf("%d observations natively, %d symbolically", len(r.Labels), len(t.Obs))}
				return
			}
			for k := range t.Obs {
				if t.Obs[k].Label != r.Labels[k] || t.Obs[k].Hex != fmt.Sprintf("%x", r.Bytes[k]) {
					res = result{Idx: i, Status: "mismatch", Msg: fmt.Sprintf("observation %d: native %s=%x, symbolic %s=%s", k, r.Labels[k], r.Bytes[k], t.Obs[k].Label, t.Obs[k].Hex)}
					return
				}
			}
		}
	}()
	nd.Start(r)
	for _, h := range harness.All {
		if h.Name == t.Harness {
			h.Fn()
			return
		}
	}
	return result{Idx: i, Status: "mismatch", Msg: "no such harness"}
}
