// Package filepath is path/filepath on the simulated disk.
package filepath

import "verif/sim/simfs"

func EvalSymlinks(p string) (string, error) { return simfs.Get().EvalSymlinks(p) }
