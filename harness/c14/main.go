// C14: serialized values decode to what was encoded, or fail loudly.
package main

import (
	"bytes"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
)

type inner struct {
	Name string            `json:"name"`
	Tags []string          `json:"tags,omitempty"`
	M    map[string]int64  `json:"m"`
	P    *int              `json:"p"`
	Raw  []byte            `json:"raw"`
	Sub  map[string]string `json:"sub,omitempty"`
}

type record struct {
	ID      int64         `json:"id"`
	U       uint64        `json:"u"`
	F       float64       `json:"f"`
	B       bool          `json:"b"`
	S       string        `json:"s"`
	T       time.Time     `json:"t"`
	D       time.Duration `json:"d"`
	In      inner         `json:"in"`
	PIn     *inner        `json:"pin"`
	List    []inner       `json:"list"`
	Any     any           `json:"any"`
	Arr     [3]int8       `json:"arr"`
	Skipped string        `json:"-"`
	Default int
}

// itemLike has the shape of what the cache stores.
type itemLike struct {
	Key         string
	Value       any
	Size        int64
	Expiration  time.Duration
	LastAccess  time.Time
	AccessCount uint
}

func main() {
	kit.Main("C14", "random values of 14 Go shapes (nested structs, pointers, maps, bytes, times, extreme numbers, any unicode) through the default serializer obtained by name, compared after decoding and with encoding/json as independent decoder; "+
		"truncated and mutated encodings; shared use by 8 goroutines under the race detector; non-trivial = encoding longer than 4 bytes", run)
}

func str(rng *rand.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return ""
	case 1:
		return "plain ascii text"
	case 2:
		return "q\"\\/\b\f\n\r\t\x00\x1f<>&\u2028\u2029"
	case 3:
		r := make([]rune, rng.Intn(12))
		for i := range r {
			for {
				r[i] = rune(rng.Intn(0x10ffff))
				if r[i] < 0xd800 || r[i] > 0xdfff {
					break
				}
			}
		}
		return string(r)
	case 4:
		return fmt.Sprint(rng.Int63())
	default:
		b := make([]byte, rng.Intn(300))
		for i := range b {
			b[i] = byte(32 + rng.Intn(95))
		}
		return string(b)
	}
}

func num(rng *rand.Rand) int64 {
	return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, rng.Int63(), -rng.Int63(), int64(rng.Intn(100))}[rng.Intn(10)]
}

func flt(rng *rand.Rand) float64 {
	return []float64{0, 1.5, -1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 123456789.123456789, rng.NormFloat64(), 1e-7, -0.0}[rng.Intn(10)]
}

func genInner(rng *rand.Rand) inner {
	in := inner{Name: str(rng), M: map[string]int64{}}
	for k := rng.Intn(4); k > 0; k-- {
		in.M[str(rng)] = num(rng)
		in.Tags = append(in.Tags, str(rng))
	}
	if rng.Intn(2) == 0 {
		p := int(num(rng))
		in.P = &p
	}
	in.Raw = make([]byte, rng.Intn(40))
	rng.Read(in.Raw)
	return in
}

func anyVal(rng *rand.Rand, depth int) any {
	switch rng.Intn(7) {
	case 0:
		return nil
	case 1:
		return str(rng)
	case 2:
		return flt(rng)
	case 3:
		return rng.Intn(2) == 0
	case 4:
		if depth > 2 {
			return "leaf"
		}
		l := []any{}
		for k := rng.Intn(4); k > 0; k-- {
			l = append(l, anyVal(rng, depth+1))
		}
		return l
	default:
		if depth > 2 {
			return float64(rng.Intn(9))
		}
		m := map[string]any{}
		for k := rng.Intn(4); k > 0; k-- {
			m[str(rng)] = anyVal(rng, depth+1)
		}
		return m
	}
}

func genRecord(rng *rand.Rand) record {
	x := record{ID: num(rng), U: rng.Uint64(), F: flt(rng), B: rng.Intn(2) == 0, S: str(rng), D: time.Duration(num(rng)),
		T: time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), In: genInner(rng), Any: anyVal(rng, 0), Default: rng.Intn(1000)}
	if rng.Intn(2) == 0 {
		p := genInner(rng)
		x.PIn = &p
	}
	for k := rng.Intn(3); k > 0; k-- {
		x.List = append(x.List, genInner(rng))
	}
	for i := range x.Arr {
		x.Arr[i] = int8(rng.Intn(256) - 128)
	}
	return x
}

// gen returns a value and a fresh destination of the same type.
func gen(rng *rand.Rand) (string, any, any) {
	switch rng.Intn(14) {
	case 0:
		return "string", str(rng), new(string)
	case 1:
		return "int64", num(rng), new(int64)
	case 2:
		return "uint64", rng.Uint64(), new(uint64)
	case 3:
		return "float64", flt(rng), new(float64)
	case 4:
		return "bool", rng.Intn(2) == 0, new(bool)
	case 5:
		b := make([]byte, rng.Intn(100))
		rng.Read(b)
		return "bytes", b, new([]byte)
	case 6:
		var l []string
		for k := rng.Intn(5) + 1; k > 0; k-- {
			l = append(l, str(rng))
		}
		return "[]string", l, new([]string)
	case 7:
		m := map[string]int64{}
		for k := rng.Intn(5); k > 0; k-- {
			m[str(rng)] = num(rng)
		}
		return "map", m, new(map[string]int64)
	case 8:
		m := map[int]string{}
		for k := rng.Intn(5); k > 0; k-- {
			m[rng.Intn(100)-50] = str(rng)
		}
		return "map[int]", m, new(map[int]string)
	case 9:
		return "any", anyVal(rng, 0), new(any)
	case 10:
		return "time", time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), new(time.Time)
	case 11:
		return "item", itemLike{Key: str(rng), Value: anyVal(rng, 0), Size: num(rng), Expiration: time.Duration(num(rng)), LastAccess: time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC(), AccessCount: uint(rng.Uint32())}, new(itemLike)
	case 12:
		x := genRecord(rng)
		return "*record", &x, new(*record)
	default:
		return "record", genRecord(rng), new(record)
	}
}

func run(r *kit.Run) {
	s, err := serializer.New("default")
	if err != nil || s == nil {
		r.Violate("registry", "the default serializer is not available: %v", err)
		return
	}
	if r.Phase("roundtrip") {
		for i := 0; i < r.N(20000, 300000); i++ {
			roundtrip(r, s, r.Rand("rt", i), i)
		}
	}
	if r.Phase("overwrite") {
		// decoding into a zeroed destination must not depend on what the serializer decoded before
		for i := 0; i < r.N(300, 5000); i++ {
			rng := r.Rand("ow", i)
			a, b := genRecord(rng), genRecord(rng)
			da, _ := s.Marshal(a)
			db, _ := s.Marshal(b)
			keep := bytes.Clone(da)
			var x, y record
			if s.Unmarshal(da, &x) != nil || s.Unmarshal(db, &y) != nil || !reflect.DeepEqual(x, a) || !reflect.DeepEqual(y, b) {
				r.ViolateWith("independence", string(da), "decoding two values in turn altered one of them")
			}
			if !bytes.Equal(da, keep) {
				r.ViolateWith("input-modified", string(keep), "encoding or decoding another value changed bytes handed out earlier")
			}
			// the decoded value must not alias the input buffer
			for q := range da {
				da[q] = 'Z'
			}
			if !reflect.DeepEqual(x, a) {
				r.ViolateWith("aliasing", string(keep), "reusing the input buffer changed an already decoded value")
			}
			r.Case("ow|"+string(keep), true)
		}
	}
	if r.Phase("reject") {
		for i := 0; i < r.N(6000, 100000); i++ {
			reject(r, s, r.Rand("rej", i), i)
		}
		for _, bad := range []any{make(chan int), func() {}, math.NaN(), math.Inf(1), map[string]any{"x": make(chan int)}, []any{1, func() {}}} {
			r.Guard(func() {
				if b, err := s.Marshal(bad); err == nil {
					r.Violate("unsupported-encoded", "encoding a %T succeeded with %q", bad, b)
				}
			})
			r.Case(fmt.Sprintf("unsupported %T", bad), true)
		}
		for _, dst := range []any{nil, record{}, 3, (*record)(nil)} {
			r.Guard(func() {
				if err := s.Unmarshal([]byte(`{"id":1}`), dst); err == nil {
					r.Inconclusive(fmt.Sprintf("decoding into %T reports success", dst))
				}
			})
		}
	}
	if r.Phase("shared") {
		shared(r, s)
	}
	if r.Phase("registry") {
		registry(r)
	}
}

func roundtrip(r *kit.Run, s serializer.ISerializer, rng *rand.Rand, i int) {
	kind, v, dst := gen(rng)
	r.Guard(func() {
		data, err := s.Marshal(v)
		if err != nil {
			r.ViolateWith("encode-"+kind, fmt.Sprintf("%#v", v), "cannot encode a %s: %v", kind, err)
			return
		}
		if err := s.Unmarshal(data, dst); err != nil {
			r.ViolateWith("decode-"+kind, string(data), "cannot decode what it encoded (%s): %v", kind, err)
			return
		}
		got := reflect.ValueOf(dst).Elem().Interface()
		if !reflect.DeepEqual(got, v) {
			r.ViolateWith("roundtrip-"+kind, map[string]any{"value": fmt.Sprintf("%#v", v), "encoded": string(data)}, "a %s came back different: %#v -> %#v", kind, v, got)
		}
		// an independent decoder must read the same value
		ind := reflect.New(reflect.TypeOf(dst).Elem())
		if err := stdjson.Unmarshal(data, ind.Interface()); err != nil || !reflect.DeepEqual(ind.Elem().Interface(), v) {
			r.ViolateWith("encoding-"+kind, string(data), "an independent JSON decoder reads another value (err %v)", err)
		}
		r.Case(string(data), len(data) > 4)
		r.Seen("shapes", kind)
		if i < 3 {
			r.Sample("roundtrip", map[string]any{"shape": kind, "encoded": string(data)})
		}
	})
}

func reject(r *kit.Run, s serializer.ISerializer, rng *rand.Rand, i int) {
	x := genRecord(rng)
	data, err := s.Marshal(x)
	if err != nil {
		return
	}
	var bad []byte
	mode := ""
	switch rng.Intn(4) {
	case 0:
		bad, mode = data[:rng.Intn(len(data))], "truncated"
	case 1:
		bad, mode = append(bytes.Clone(data), []string{"x", "}", "{}", ",", "\"", " 1"}[rng.Intn(6)]...), "trailing"
	case 2:
		bad = make([]byte, rng.Intn(50))
		rng.Read(bad)
		mode = "random"
	default:
		bad = bytes.Clone(data)
		for k := 1 + rng.Intn(3); k > 0; k-- {
			bad[rng.Intn(len(bad))] = byte(rng.Intn(256))
		}
		mode = "mutated"
	}
	r.Guard(func() {
		in := bytes.Clone(bad)
		var y record
		err := s.Unmarshal(bad, &y)
		var z record
		serr := stdjson.Unmarshal(in, &z)
		r.Case(mode+"|"+string(in), true)
		r.Seen("corruptions", fmt.Sprintf("%s rejected=%v", mode, err != nil))
		if err == nil && mode == "truncated" {
			r.ViolateWith("truncated-accepted", string(in), "a truncated encoding (%d of %d bytes) was decoded without error", len(in), len(data))
		}
		if err == nil && serr == nil && mode == "mutated" && !reflect.DeepEqual(y, z) {
			r.Add("mutated_decoded_differently_from_encoding_json", 1)
		}
		if err == nil && serr != nil {
			r.Add("accepted_beyond_encoding_json", 1)
		}
		if !bytes.Equal(in, bad) {
			r.ViolateWith("input-modified", string(in), "decoding modified its input")
		}
	})
}

func shared(r *kit.Run, s serializer.ISerializer) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < r.N(400, 5000); i++ {
				rng := r.Rand("shared", g, i)
				x := genRecord(rng)
				d, err := s.Marshal(x)
				var y record
				if err == nil {
					err = s.Unmarshal(d, &y)
				}
				if err != nil || !reflect.DeepEqual(x, y) {
					r.ViolateWith("shared", string(d), "a value encoded while others encode came back different (err %v)", err)
				}
				r.Case("shared|"+string(d), true)
			}
		}()
	}
	wg.Wait()
}

type fake struct{ id int }

func (f *fake) Marshal(any) ([]byte, error) { return []byte{byte(f.id)}, nil }
func (f *fake) Unmarshal([]byte, any) error { return errors.New("fake") }

func registry(r *kit.Run) {
	if s, err := serializer.New(""); !errors.Is(err, sentinel.ErrParamCannotBeEmpty) || s != nil {
		r.Violate("registry", "empty serializer name gives %v, %v", s, err)
	}
	for _, n := range []string{"json", "Default", "default ", "xml", "Msgpack"} {
		if s, err := serializer.New(n); !errors.Is(err, sentinel.ErrSerializerNotFound) || s != nil {
			r.Violate("registry", "unknown serializer %q gives %T, %v", n, s, err)
		}
	}
	// the disabled serializer must fail loudly in both directions
	m, err := serializer.New("msgpack")
	if err == nil && m != nil {
		d, e1 := m.Marshal(record{ID: 3})
		var x record
		if e1 == nil {
			if e2 := m.Unmarshal(d, &x); e2 != nil || x.ID != 3 {
				r.Violate("msgpack", "msgpack encodes but decodes to %+v (%v)", x.ID, e2)
			}
		} else if e2 := m.Unmarshal([]byte(`{"id":1}`), &x); e2 == nil {
			r.Violate("msgpack", "a serializer that cannot encode reports a successful decode")
		}
	}
	d, _ := serializer.New("default")
	if _, ok := d.(*serializer.DefaultJSONSerializer); !ok {
		r.Violate("registry", "serializer %q is a %T", "default", d)
	}
	e := serializer.NewEmptySerializerRegistry()
	if _, err := e.New("default"); !errors.Is(err, sentinel.ErrSerializerNotFound) {
		r.Violate("registry", "an empty registry knows a serializer")
	}
	for id := 1; id <= 3; id++ {
		e.Register("mine", func() serializer.ISerializer { return &fake{id} })
		s, err := e.New("mine")
		f, ok := s.(*fake)
		if err != nil || !ok || f.id != id {
			r.Violate("registry", "registered serializer %d not returned: %T %v", id, s, err)
		}
	}
	full := serializer.NewSerializerRegistry()
	full.Register("default", func() serializer.ISerializer { return &fake{9} })
	if s, _ := full.New("default"); s == nil || reflect.TypeOf(s) != reflect.TypeOf(&fake{}) {
		r.Violate("registry", "overriding a serializer is ignored")
	}
	if s, _ := serializer.New("default"); reflect.TypeOf(s) == reflect.TypeOf(&fake{}) {
		r.Violate("registry", "overriding in one registry leaks into the default one")
	}
	r.Case("registry", true)
}
