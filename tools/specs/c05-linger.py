id='c05-linger'; prop='C05'
needs='Close while a TTL is pending'
breaks='the goroutine of a pending TTL outlives Close until its timer fires'
edits=[('radix/trie.go','''				case <-s.done:
					return
				}
			}
		}(timer, job)
''','''				}
			}
		}(timer, job)
''')]
demo='''
package store_test

import (
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	s.Set("a.b", 1)
	s.SetTTL("a.b", time.Hour, nil)
	time.Sleep(50 * time.Millisecond)
	s.Close()
	time.Sleep(200 * time.Millisecond)
	buf := make([]byte, 1<<20)
	if strings.Contains(string(buf[:runtime.Stack(buf, true)]), "radix.(*TTL") {
		t.Fatal("a TTL goroutine is still there after Close")
	}
}
'''
