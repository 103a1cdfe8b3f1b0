id='c06-yaml'; prop='C06'
pkg='codecs/yaml'
needs='a YAML source in which the decoder rejects some of the entries (a key given twice)'
breaks='the decoding error is swallowed when some of the entries could be decoded: Load succeeds with a part of the data'
edits=[('codecs/yaml/yaml.go','''	err = yamlv3.Unmarshal(b, &data)
''','''	err = yamlv3.Unmarshal(b, &data)
	if _, ok := err.(*yamlv3.TypeError); ok && len(data) > 0 {
		err = nil // the other entries are usable
	}
''')]
demo='''
package yaml

import (
	"context"
	"testing"

	"github.com/hedzr/store"
)

type demoSrc struct{}

func (demoSrc) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (demoSrc) ReadBytes() ([]byte, error) {
	return []byte("half: 1\\nmap:\\n  x: 1\\n  x: 2\\n"), nil
}
func (demoSrc) Write([]byte) error      { return store.ErrNotImplemented }
func (demoSrc) GetCodec() store.Codec   { return New() }
func (demoSrc) GetPosition() string     { return "" }
func (demoSrc) WithCodec(store.Codec)   {}
func (demoSrc) WithPosition(string)     {}

func TestDemo(t *testing.T) {
	s := store.New()
	if _, err := s.Load(context.TODO(), store.WithProvider(demoSrc{})); err == nil {
		t.Fatal("the decoder failed, Load succeeded")
	}
	if s.Has("half") {
		t.Fatal("a part of the data was loaded")
	}
}
'''
