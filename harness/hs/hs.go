// Package hs holds the harnesses. They use only the public API of the library.
package hs

// H is one harness.
type H struct {
	Prop   string // property id
	Name   string
	Fn     func()
	Bounds string // what is symbolic and how far it goes
	Tiers  string // "" both, "quick", "thorough"
	Budget int    // seconds in the quick tier (0: default)
	Race   bool   // confirm with the race detector
}

// Registry lists all harnesses.
var Registry []H

func reg(h ...H) { Registry = append(Registry, h...) }
