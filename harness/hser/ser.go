// Package hser: harnesses for the serializers.
package hser

import (
	"errors"
	"time"

	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

type inner struct {
	N int64
	S string
}

type record struct {
	ID    uint64
	Small int8
	On    bool
	Name  string
	Data  []byte
	List  []int
	Map   map[string]string
	Ptr   *inner
	In    inner
	For   time.Duration
}

func text(name string) string {
	s := vx.StringN(name, vx.Choose("len", 1+vx.Param("len", 2)))
	for i := range len(s) {
		vx.Assume(vx.And(s[i] >= ' ', s[i] < 0x7f))
	}
	return s
}

func coder() serializer.ISerializer {
	s, err := serializer.New("default")
	vx.Assert(err == nil && s != nil, "the default serializer is there")
	return s
}

// Structs decides T01 for structs.
func Structs() {
	s := coder()
	v := record{ID: vx.Uint64("id"), Small: int8(vx.Byte("small")), On: vx.Bool("on"), Name: text("name"),
		In: inner{vx.Int64("n"), "x"}, For: time.Duration(vx.Int64("for"))}
	if vx.Choose("data", 2) == 1 {
		v.Data = []byte{vx.Byte("b"), 0, vx.Byte("b")}
	}
	for range vx.Choose("list", 3) {
		v.List = append(v.List, vx.Int("item"))
	}
	if vx.Choose("map", 2) == 1 {
		v.Map = map[string]string{"a": text("value"), "b": ""}
	}
	if vx.Choose("ptr", 2) == 1 {
		v.Ptr = &inner{N: vx.Int64("m"), S: text("s")}
	}
	var data []byte
	var err error
	if vx.Choose("pointer", 2) == 1 {
		data, err = s.Marshal(&v)
	} else {
		data, err = s.Marshal(v)
	}
	vx.Assert(err == nil && len(data) > 0, "a value is encoded")
	var got record
	vx.Assert(s.Unmarshal(data, &got) == nil, "what was encoded is decoded")
	vx.Assert(vx.And(got.ID == v.ID, vx.And(got.Small == v.Small, vx.And(got.On == v.On, vx.And(got.Name == v.Name, vx.And(got.In == v.In, got.For == v.For))))),
		"decoding gives what was encoded")
	vx.Assert(string(got.Data) == string(v.Data) && (got.Data == nil) == (v.Data == nil), "bytes come back")
	vx.Assert(len(got.List) == len(v.List), "a list comes back")
	for i := range v.List {
		vx.Assert(got.List[i] == v.List[i], "a list comes back in order")
	}
	vx.Assert(len(got.Map) == len(v.Map), "a map comes back")
	for k, w := range v.Map {
		g, ok := got.Map[k]
		vx.Assert(ok && g == w, "each entry of a map comes back")
	}
	vx.Assert((got.Ptr == nil) == (v.Ptr == nil), "a pointer comes back")
	if v.Ptr != nil {
		vx.Assert(*got.Ptr == *v.Ptr, "what a pointer points to comes back")
	}
	vx.Reach("end")
}

// Plain decides T01 for the plain kinds.
func Plain() {
	s := coder()
	same := func(v, p any, eq func() bool) {
		data, err := s.Marshal(v)
		vx.Assert(err == nil, "a value is encoded")
		vx.Assert(s.Unmarshal(data, p) == nil, "what was encoded is decoded")
		vx.Assert(eq(), "decoding gives what was encoded")
	}
	switch vx.Choose("kind", 6) {
	case 0:
		v, g := vx.Int64("v"), int64(7)
		same(v, &g, func() bool { return g == v })
	case 1:
		v, g := vx.Uint64("v"), uint64(7)
		same(v, &g, func() bool { return g == v })
	case 2:
		v, g := text("v"), "?"
		same(v, &g, func() bool { return g == v })
	case 3:
		v, g := vx.Bool("v"), vx.Bool("was")
		same(v, &g, func() bool { return g == v })
	case 4:
		v, g := []byte{vx.Byte("b"), vx.Byte("b")}, []byte(nil)
		same(v, &g, func() bool { return string(g) == string(v) })
	case 5:
		v, g := []string{text("v"), "b"}, []string(nil)
		same(v, &g, func() bool { return len(g) == 2 && g[0] == v[0] && g[1] == "b" })
	}
	vx.Reach("end")
}

type mine struct{ n int }

func (*mine) Marshal(any) ([]byte, error) { return nil, nil }
func (*mine) Unmarshal([]byte, any) error { return nil }

// Names decides T01 for the registries.
func Names() {
	names := []string{"default", "msgpack", "own", "", "json", "Default"}
	name := names[vx.Choose("name", len(names))]
	if vx.Choose("any", 2) == 1 {
		name = text("text")
	}
	check := func(s serializer.ISerializer, err error, known bool) bool {
		if name == "" {
			vx.Assert(s == nil && errors.Is(err, sentinel.ErrParamCannotBeEmpty), "a serializer without a name is an error")
			return false
		}
		if !known {
			vx.Assert(s == nil && errors.Is(err, sentinel.ErrSerializerNotFound), "a name nobody registered is an error")
			return false
		}
		vx.Assert(err == nil && s != nil, "a registered name is found")
		return true
	}
	std := name == "default" || name == "msgpack"
	s, err := serializer.New(name)
	if check(s, err, std) {
		_, def := s.(*serializer.DefaultJSONSerializer)
		vx.Assert(def == (name == "default"), "a name gives the serializer registered under it")
		if !def {
			_, err := s.Marshal(1)
			vx.Assert(err != nil && s.Unmarshal([]byte("1"), new(int)) != nil, "a disabled serializer refuses everything")
		}
	}
	empty := vx.Choose("empty", 2) == 1
	reg := serializer.NewSerializerRegistry()
	if empty {
		reg, std = serializer.NewEmptySerializerRegistry(), false
	}
	own := ""
	for i := range vx.Choose("registered", 3) {
		own = names[vx.Choose("as", 3)]
		reg.Register(own, func() serializer.ISerializer { return &mine{i} })
		s, err := reg.New(name)
		if check(s, err, std || name == own) && name == own {
			m, ok := s.(*mine)
			vx.Assert(ok && m.n == i, "the last registered under a name is used")
			std = true
		}
	}
	s, err = serializer.New(name)
	check(s, err, name == "default" || name == "msgpack")
	vx.Reach("end")
}

// Broken decides T01: what is not an encoding is refused.
func Broken() {
	s := coder()
	docs := []string{"", "{", "nul", "[1", "{\"ID\":}", "\"a", "1 2", "{\"ID\":\"x\"}", "[]", "{} {}", "{\"ID\":1}]", "{},"}
	var got record
	vx.Assert(s.Unmarshal([]byte(docs[vx.Choose("doc", len(docs))]), &got) != nil, "what is not an encoding of the type is an error")
	var out chan int = make(chan int)
	_, err := s.Marshal(out)
	vx.Assert(err != nil, "what has no encoding is an error")
	vx.Reach("end")
}
