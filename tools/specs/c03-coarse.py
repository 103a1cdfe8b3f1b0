id='c03-coarse'; prop='C03'
needs='a TTL that is not a whole number of milliseconds'
breaks='timers are coalesced to whole milliseconds and ring early'
edits=[('radix/trie.go','''		timer := time.NewTimer(job.duration)
''','''		wait := job.duration
		if wait > 10*time.Millisecond {
			wait = wait.Truncate(10 * time.Millisecond) // let the runtime coalesce the timers
		}
		timer := time.NewTimer(wait)
''')]
demo='''
package store_test

import (
	"testing"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func TestDemo(t *testing.T) {
	s := store.New()
	defer s.Close()
	s.Set("a.b", 1)
	ch := make(chan time.Time, 1)
	t0 := time.Now()
	s.SetTTL("a.b", 209*time.Millisecond, func(*radix.TTL[any], radix.Node[any]) { ch <- time.Now() })
	if d := (<-ch).Sub(t0); d < 209*time.Millisecond {
		t.Fatalf("rang early: %v", d)
	}
}
'''
