id='c14-notrunc'; prop='C14'
pkg='providers/file'
needs='a Save that writes less than the file has'
breaks='the file is not truncated when it is written back: the tail of the old content stays'
edits=[('providers/file/file.go','''		err = os.WriteFile(s.file, data, 0644)
''','''		var f *os.File
		if f, err = os.OpenFile(s.file, os.O_WRONLY|os.O_CREATE, 0644); err != nil {
			return
		}
		if _, err = f.Write(data); err == nil {
			err = f.Sync()
		}
		if e := f.Close(); err == nil {
			err = e
		}
''')]
demo='''
package file

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.conf")
	p := New(f, WithWriteBackEnabled(true))
	for _, c := range []string{"a longer content", "short", ""} {
		if err := p.Write([]byte(c)); err != nil {
			t.Fatal(err)
		}
		if b, _ := os.ReadFile(f); string(b) != c {
			t.Fatalf("%q instead of %q", b, c)
		}
	}
}
'''
