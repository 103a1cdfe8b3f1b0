// Package runtime is runtime with the simulated scheduler.
package runtime

import "verif/sim/simrt"

func Gosched() {
	if simrt.Cur() != nil && !simrt.Killed() {
		simrt.Yield()
	}
}
func NumGoroutine() int { return len(simrt.LiveBg()) + 1 }
