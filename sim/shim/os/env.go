package os

import (
	p "os"

	"verif/sim/simrt"
)

// the environment of a run: empty at its start.
func env() map[string]string {
	return simrt.Val("environ", func() any { return map[string]string{} }).(map[string]string)
}

func Environ() (l []string) {
	if simrt.Cur() == nil {
		return p.Environ()
	}
	e := env()
	for _, k := range simrt.SortedKeys(e) {
		l = append(l, k+"="+e[k])
	}
	return
}

func LookupEnv(k string) (string, bool) {
	if simrt.Cur() == nil {
		return p.LookupEnv(k)
	}
	v, ok := env()[k]
	return v, ok
}

func Setenv(k, v string) error {
	if simrt.Cur() == nil {
		return p.Setenv(k, v)
	}
	env()[k] = v
	return nil
}

func Unsetenv(k string) error {
	if simrt.Cur() == nil {
		return p.Unsetenv(k)
	}
	delete(env(), k)
	return nil
}

func Clearenv() {
	if simrt.Cur() == nil {
		p.Clearenv()
		return
	}
	clear(env())
}

func Getenv(k string) string    { v, _ := LookupEnv(k); return v }
func ExpandEnv(s string) string { return p.Expand(s, Getenv) }
