package scen

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"

	hjsonlib "github.com/hjson/hjson-go/v4"
	"github.com/npillmayer/nestext"
	"github.com/npillmayer/nestext/ntenc"
	tomllib "github.com/pelletier/go-toml/v2"
	yamllib "gopkg.in/yaml.v3"

	"github.com/hedzr/store"
	cgob "github.com/hedzr/store/codecs/gob"
	chjson "github.com/hedzr/store/codecs/hjson"
	cjson "github.com/hedzr/store/codecs/json"
	cnestext "github.com/hedzr/store/codecs/nestext"
	ctoml "github.com/hedzr/store/codecs/toml"
	cyaml "github.com/hedzr/store/codecs/yaml"

	"verif/sim/simrt"
)

// cdc is a codec under test and its oracle: the same library, used directly.
type cdc struct {
	name string
	mk   func() store.Codec
	enc  func(m map[string]any) ([]byte, error)
	dec  func(b []byte) (map[string]any, error)
}

func decWith(f func(b []byte, v any) error) func(b []byte) (map[string]any, error) {
	return func(b []byte) (m map[string]any, err error) {
		err = f(b, &m)
		return
	}
}

var codecList = []string{"json", "yaml", "toml", "hjson", "nestext", "gob"}

var codecs = map[string]*cdc{
	"json": {"json", func() store.Codec { return cjson.New() },
		func(m map[string]any) ([]byte, error) { return json.Marshal(m) }, decWith(json.Unmarshal)},
	"yaml": {"yaml", func() store.Codec { return cyaml.New() },
		func(m map[string]any) ([]byte, error) { return yamllib.Marshal(m) }, decWith(yamllib.Unmarshal)},
	"toml": {"toml", func() store.Codec { return ctoml.New() },
		func(m map[string]any) ([]byte, error) { return tomllib.Marshal(m) }, decWith(tomllib.Unmarshal)},
	"hjson": {"hjson", func() store.Codec { return chjson.New() },
		func(m map[string]any) ([]byte, error) { return hjsonlib.Marshal(m) },
		decWith(func(b []byte, v any) error { return hjsonlib.Unmarshal(b, v) })},
	"nestext": {"nestext", func() store.Codec { return cnestext.New() },
		func(m map[string]any) ([]byte, error) {
			var b bytes.Buffer
			_, err := ntenc.Encode(m, &b)
			return b.Bytes(), err
		},
		func(b []byte) (map[string]any, error) {
			r, err := nestext.Parse(bytes.NewReader(b), nestext.TopLevel("dict"))
			if err != nil {
				return nil, err
			}
			m, ok := r.(map[string]any)
			if !ok {
				return nil, errors.New("not a dict")
			}
			return m, nil
		}},
	"gob": {"gob", func() store.Codec { return cgob.New() },
		func(m map[string]any) ([]byte, error) {
			gob.Register(map[string]any{})
			var b bytes.Buffer
			err := gob.NewEncoder(&b).Encode(m)
			return b.Bytes(), err
		},
		func(b []byte) (m map[string]any, err error) {
			gob.Register(map[string]any{})
			err = gob.NewDecoder(bytes.NewReader(b)).Decode(&m)
			return
		}},
}

// decode with the oracle; strange: the library panics on these bytes.
func (c *cdc) decode(b []byte) (m map[string]any, err error, strange bool) {
	defer func() {
		if r := recover(); r != nil {
			if simrt.Killed() {
				panic(r)
			}
			m, err, strange = nil, nil, true
		}
	}()
	m, err = c.dec(b)
	return
}

// norm makes values comparable across formats: numbers lose their Go type,
// slices their element type.
func (c *cdc) norm(v any) string {
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	pre := func(k string) string {
		if c.name == "nestext" {
			return "" // everything is a string there
		}
		return k + ":"
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return pre("num") + strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return pre("num") + strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return pre("num") + strconv.FormatFloat(rv.Float(), 'f', -1, 64)
	case reflect.Bool:
		return pre("bool") + strconv.FormatBool(rv.Bool())
	case reflect.String:
		return pre("str") + rv.String()
	case reflect.Slice:
		s := "["
		for i := 0; i < rv.Len(); i++ {
			s += c.norm(rv.Index(i).Interface()) + ","
		}
		return s + "]"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// failing codec: Marshal or Unmarshal return an error (and a part of the data).
type badCodec struct {
	store.Codec
	un, mar *bool
}

func (c badCodec) Unmarshal(b []byte) (map[string]any, error) {
	if *c.un {
		count("fault:decoder fails")
		return map[string]any{"half": "decoded"}, errors.New("injected decode error")
	}
	return c.Codec.Unmarshal(b)
}

func (c badCodec) Marshal(m map[string]any) ([]byte, error) {
	if *c.mar {
		count("fault:encoder fails")
		return []byte("half encoded"), errors.New("injected encode error")
	}
	return c.Codec.Marshal(m)
}
