// Command registry replays registry and serializer behaviours.
package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/eviction"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

type customAlgo struct {
	eviction.IAlgorithm

	name string
}

type customStats struct {
	stats.ICollector

	name string
}

type customSer struct {
	serializer.ISerializer

	name string
}

type inner struct {
	A int64
	B []string
	C map[string]float64
	D *inner
	E time.Time
	F []byte
	G bool
	H any
}

var values = map[string]any{
	"nil": nil, "true": true, "false": false, "zero": 0, "neg": -42, "maxint": int64(math.MaxInt64), "minint": int64(math.MinInt64),
	"maxuint": uint64(math.MaxUint64), "float": 3.141592653589793, "tiny": 5e-324, "huge": math.MaxFloat64, "empty": "", "text": "hello",
	"uni": "日本語 ✓ 🔑", "html": `<a href="x">&amp;</a>`, "ctl": "\x00\x01\t\r\n\u2028\u2029\"\\/", "bytes": []byte{0, 255, 1, 254}, "nobytes": []byte{},
	"big": strings.Repeat("0123456789é", 20000), "ints": []int{1, -2, 3}, "none": []string{}, "strs": []string{"", "a", "\""},
	"map": map[string]int{"a": 1, "": 2, "ключ": 3}, "intkeys": map[int]string{-1: "x", 7: "y"}, "nested": map[string][]map[string]bool{"k": {{"x": true}, {}}},
	"struct": inner{A: math.MinInt64, B: []string{"x", ""}, C: map[string]float64{"pi": 3.5}, D: &inner{A: 1, B: []string{}, C: map[string]float64{}, F: []byte("z"), H: "s"},
		E: time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.UTC), F: []byte("bin\x00\xff"), G: true, H: []any{"a", 1.5, nil, false}},
	"any": map[string]any{"a": []any{1.0, "x", nil, true, map[string]any{}}, "b": nil}, "dur": 90 * time.Minute, "array": [3]string{"a", "b", "c"},
	"ptr": &inner{A: 9, B: []string{"p"}, C: map[string]float64{}, F: []byte{1}, H: nil, E: time.Unix(0, 0).UTC()}, "i8": int8(-128), "nan": math.NaN(), "inf": math.Inf(-1), "chan": make(chan int), "func": func() {}, "f32": float32(0.1),
}

type sys struct {
	alg  map[string]*eviction.AlgorithmRegistry
	col  map[string]*stats.CollectorRegistry
	ser  map[string]*serializer.Registry
	blob map[string][]byte
	from map[string]any
	seen []any
}

func newSys(vlib.Step) vlib.System {
	return &sys{map[string]*eviction.AlgorithmRegistry{}, map[string]*stats.CollectorRegistry{}, map[string]*serializer.Registry{}, map[string][]byte{}, map[string]any{}, nil}
}

func (s *sys) given(x any, err error) vlib.Obs {
	o := vlib.Obs{"fresh": true}

	if err != nil {
		o["given"] = "?" + err.Error()

		switch {
		case errors.Is(err, sentinel.ErrParamCannotBeEmpty):
			o["given"] = "empty"
		case errors.Is(err, sentinel.ErrInvalidCapacity):
			o["given"] = "capacity"
		case errors.Is(err, sentinel.ErrAlgorithmNotFound), errors.Is(err, sentinel.ErrStatsCollectorNotFound), errors.Is(err, sentinel.ErrSerializerNotFound):
			o["given"] = "unknown"
		}

		return o
	}

	// every resolution makes its own instance
	if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && v.Type().Elem().Size() > 0 {
		for _, y := range s.seen {
			if reflect.ValueOf(y).Kind() == reflect.Pointer && reflect.ValueOf(y).Pointer() == v.Pointer() {
				o["fresh"] = false
			}
		}

		s.seen = append(s.seen, x)
	}

	switch t := x.(type) {
	case *customAlgo:
		o["given"] = t.name
	case *customStats:
		o["given"] = t.name
	case *customSer:
		o["given"] = t.name
	case *eviction.LRU:
		o["given"] = "std:lru"
	case *eviction.LFUAlgorithm:
		o["given"] = "std:lfu"
	case *eviction.ClockAlgorithm:
		o["given"] = "std:clock"
	case *eviction.CAWOLFU:
		o["given"] = "std:cawolfu"
	case *stats.HistogramStatsCollector:
		o["given"] = "std:default"
	case *serializer.DefaultJSONSerializer:
		o["given"] = "std:default"
	case *serializer.MsgpackSerializer:
		o["given"] = "std:msgpack"
	default:
		o["given"] = fmt.Sprintf("?%T", x)
	}

	if c, ok := x.(stats.ICollector); ok && o["given"] == "std:default" {
		c.Incr(constants.StatIncr, 2)
	}

	return o
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	r, name, c := st.Str("r"), st.Str("name"), st.Str("c")

	switch st.Op() {
	case "make":
		e := st.Bool("empty")

		switch st.Str("kind") {
		case "eviction":
			s.alg[r] = eviction.NewAlgorithmRegistry()
			if e {
				s.alg[r] = eviction.NewEmptyAlgorithmRegistry()
			}
		case "stats":
			s.col[r] = stats.NewCollectorRegistry()
			if e {
				s.col[r] = stats.NewEmptyCollectorRegistry()
			}
		case "serializer":
			s.ser[r] = serializer.NewSerializerRegistry()
			if e {
				s.ser[r] = serializer.NewEmptySerializerRegistry()
			}
		}

		return vlib.Obs{"done": true}
	case "register":
		if x := s.alg[r]; x != nil {
			x.Register(name, func(int) (eviction.IAlgorithm, error) { return &customAlgo{name: c}, nil })
		}

		if x := s.col[r]; x != nil {
			x.Register(name, func() (stats.ICollector, error) { return &customStats{name: c}, nil })
		}

		if x := s.ser[r]; x != nil {
			x.Register(name, func() serializer.ISerializer { return &customSer{name: c} })
		}

		return vlib.Obs{"done": true}
	case "registermany":
		m := map[string]func(int) (eviction.IAlgorithm, error){}
		for _, n := range st.Strs("names") {
			m[n] = func(int) (eviction.IAlgorithm, error) { return &customAlgo{name: c}, nil }
		}

		s.alg[r].RegisterMultiple(m)
		clear(m)

		return vlib.Obs{"done": true}
	case "resolve":
		if x := s.alg[r]; x != nil {
			return s.refused(st, func() (any, error) { return x.NewAlgorithm(name, st.Int("cap")) })
		}

		if x := s.col[r]; x != nil {
			return s.refused(st, func() (any, error) { return x.NewCollector(name) })
		}

		return s.refused(st, func() (any, error) { return s.ser[r].New(name) })
	case "direct":
		switch st.Str("kind") {
		case "eviction":
			return s.refused(st, func() (any, error) { return eviction.NewEvictionAlgorithm(name, st.Int("cap")) })
		case "stats":
			return s.refused(st, func() (any, error) { return stats.NewCollector(name) })
		}

		return s.refused(st, func() (any, error) { return serializer.New(name) })
	case "encode":
		ser, err := serializer.New(st.Str("ser"))
		if err != nil {
			return vlib.Obs{"err": "?" + err.Error()}
		}

		b, err := ser.Marshal(values[st.Str("v")])
		if err == nil {
			s.blob[st.Str("slot")], s.from[st.Str("slot")] = b, values[st.Str("v")]
		}

		return vlib.Obs{"err": err != nil}
	case "decode":
		ser, err := serializer.New(st.Str("ser"))
		if err != nil {
			return vlib.Obs{"err": "?" + err.Error()}
		}

		slot := st.Str("slot")
		orig := s.from[slot]

		var dst reflect.Value
		if orig == nil {
			dst = reflect.ValueOf(new(any))
		} else {
			dst = reflect.New(reflect.TypeOf(orig))
		}

		if err = ser.Unmarshal(s.blob[slot], dst.Interface()); err != nil {
			o := vlib.Obs{"err": true, "v": "none"}
			if !reflect.DeepEqual(dst.Elem().Interface(), reflect.Zero(dst.Type().Elem()).Interface()) {
				o["v"] = "data with an error"
			}

			return o
		}

		want := st.Exp().Str("v")
		got := dst.Elem().Interface()

		if !reflect.DeepEqual(got, values[want]) {
			return vlib.Obs{"err": false, "v": fmt.Sprintf("?%.200v", got)}
		}

		return vlib.Obs{"err": false, "v": want}
	}

	panic("verif-driver: op " + st.Op())
}

// refused: with two things wrong either refusal will do.
func (s *sys) refused(st vlib.Step, f func() (any, error)) vlib.Obs {
	x, err := f()
	o := s.given(x, err)

	if st.Exp().Str("given") == "refused" && (o["given"] == "capacity" || o["given"] == "unknown") {
		o["given"] = "refused"
	}

	return o
}

func (s *sys) Close() {}

func main() { vlib.Replay(newSys) }
