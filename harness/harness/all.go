// Package harness holds the entry points that the engine explores.
package harness

// Entry describes one harness.
type Entry struct {
	Name   string
	Props  string // properties whose checks run it
	Bounds string // what is symbolic and within which bounds
	Quick  bool   // part of the quick tier
	Split  int    // number of leading choices explored as separate jobs
	Fn     func()
}

// All lists every harness.
var All []Entry

func add(e ...Entry) { All = append(All, e...) }
