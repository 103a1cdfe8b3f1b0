package scen

import (
	"fmt"
	"sort"
	"strings"
)

// A register history of one key, checked for linearizability (Wing and Gong,
// with memoised states).

type linOp struct {
	inv, ret int64 // ret 0: not returned (or: may take effect any time later)
	write    bool
	v        string
	swap     bool // a write which returned the value it replaced
	old      string
	opt      bool // a write which may do nothing
	who      string
}

func (o linOp) String() string {
	k := "read"
	if o.write {
		k = "write"
	}
	if o.swap {
		k = "swap " + o.old + " for"
	}
	return fmt.Sprintf("[%d,%d] %s %s %s", o.inv, o.ret, o.who, k, o.v)
}

// is: "*" stands for any value but an absent one.
func is(v, cur string) bool { return v == cur || v == "*" && cur != absent }

// linearizable: is there an order consistent with real time in which each
// read returns the latest written value?
func linearizable(init string, ops []linOp) bool {
	const never = int64(1) << 62
	ops = append([]linOp{}, ops...)
	for i := range ops {
		if ops[i].ret == 0 {
			ops[i].ret = never
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n := len(ops)
	seen := map[string]bool{}
	done := make([]bool, n)
	var rec func(first int, left int, cur string) bool
	rec = func(first, left int, cur string) bool {
		for first < n && done[first] {
			first++
		}
		must := false
		for i := first; i < n; i++ {
			if !done[i] && ops[i].ret != never {
				must = true
				break
			}
		}
		if !must {
			return true // the rest never returned
		}
		var sb strings.Builder
		for i := first; i < n; i++ {
			if done[i] {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		k := fmt.Sprint(first, sb.String(), cur)
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := never
		for i := first; i < n; i++ {
			if !done[i] && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		// reads of the current value first: they never hurt
		for i := first; i < n && ops[i].inv <= minRet; i++ {
			if !done[i] && !ops[i].write && is(ops[i].v, cur) {
				done[i] = true
				ok := rec(first, left-1, cur)
				done[i] = false
				return ok
			}
		}
		for i := first; i < n && ops[i].inv <= minRet; i++ {
			if done[i] || !ops[i].write || ops[i].swap && !is(ops[i].old, cur) {
				continue
			}
			done[i] = true
			ok := rec(first, left-1, ops[i].v) || ops[i].opt && rec(first, left-1, cur)
			done[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	return rec(0, n, init)
}
