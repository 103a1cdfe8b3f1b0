id='c14-dedupe'; prop='C14'
pkg='providers/file'
needs='a write of the watched file within 5 ms of a change of another file in its folder'
breaks='an event is taken for a repetition of the previous one although it is of another file: the write is not reported'
edits=[('providers/file/file.go','''			if event.String() == lastChange.lastEvent && time''','''			if lastChange.lastEvent != "" && time''')]
demo='''
package file

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	f, other := filepath.Join(dir, "x.conf"), filepath.Join(dir, "y.conf")
	for _, n := range []string{f, other} {
		if err := os.WriteFile(n, []byte("1"), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	p := New(f, WithWatchEnabled(true))
	defer p.Close()
	wrote := make(chan struct{}, 999)
	if err := p.Watch(context.Background(), func(ev any, err error) {
		if err == nil {
			wrote <- struct{}{}
		}
	}); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		_ = os.WriteFile(other, []byte("2"), 0o600)
		h, err := os.OpenFile(f, os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		_, _ = h.Write([]byte("2"))
		_ = h.Close()
		select {
		case <-wrote:
		case <-time.After(3 * time.Second):
			t.Fatal("the write was not reported")
		}
		time.Sleep(20 * time.Millisecond)
	}
}
'''
