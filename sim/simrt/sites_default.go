package simrt

// Sites and Pkgs are filled by the init of a file the instrumenter generates.
var Sites = map[int]string{}
var Pkgs []string

// Counters of probes and faults, per process; reset by the harness.
var Counters = map[string]int{}

// Count a probe or an injected fault.
func Count(name string) { Counters[name]++ }
