id='c15-fast'; prop='C15'
needs='a key overwritten by two goroutines at once, or removed by one while another one overwrites it'
breaks='overwriting goes through the node found before: two writers get the same old value, and a value set while its key is being removed and added again is lost'
edits=[('radix/trie.go','''	s.mu.Lock()
	defer s.mu.Unlock()
	return s.root.insert([]rune(path), path, data, s, nil)
''','''	word := []rune(path)
	s.mu.RLock()
	nd, _, partialMatched := s.search(path, nil)
	s.mu.RUnlock()
	if nd != nil && !partialMatched && !nd.isBranch() && nd.pathS == path { // only its value has to be changed
		oldData = nd.Data()
		nd.SetData(data)
		return nd, oldData, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.root.insert(word, path, data, s, nil)
''')]
demo='''
package store_test

import (
	"sync"
	"testing"
	"time"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		s := store.New()
		s.Set("app.name", 0)
		const n, m = 8, 2000
		olds := make([][]any, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < m; j++ {
					_, old := s.Set("app.name", 1+i*m+j)
					olds[i] = append(olds[i], old)
				}
			}()
		}
		wg.Wait()
		seen := map[any]bool{s.MustGet("app.name"): true}
		for _, l := range olds {
			for _, v := range l {
				if seen[v] {
					t.Fatalf("%v was replaced twice", v)
				}
				seen[v] = true
			}
		}
		if time.Until(end) < 50*time.Second {
			break
		}
	}
}
'''
