package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/neilotoole/jsoncolor"
)

// ---- types used as destinations and values ----

type (
	myInt    int32
	myString string
	textVal  struct{ s string } // TextMarshaler by value
	textPtr  struct{ s string } // TextMarshaler by pointer
	textKey  string             // map key with MarshalText
	intKey   int                // int key with MarshalText
	jsonVal  struct{ s string } // Marshaler by value
	jsonPtr  struct{ s string } // Marshaler by pointer
	jsonStr  string             // Marshaler returning itself
	inlPtr   struct{ P *int }   // stored in the interface word
	inlArr   [1]*string         // likewise
	recT     struct {
		N    int     `json:"n"`
		Next *recT   `json:"next,omitempty"`
		Kids []*recT `json:"kids,omitempty"`
	}
	Emb struct {
		E1 int    `json:"e1"`
		E2 string `json:"e2,omitempty"`
	}
	EmbP struct {
		P1 int     `json:"p1"`
		P2 *string `json:"p2,omitempty"`
	}
	withEmb struct {
		A int `json:"a"`
		Emb
		Z string `json:"z"`
	}
	withEmbP struct {
		*EmbP
		Q []int `json:"q"`
		*Emb
	}
	onlyEmbP struct {
		*EmbP
	}
	embMid struct {
		X int
		*EmbP
		Y int
	}
	tagged struct {
		S  string  `json:"s"`
		HT string  `json:"<k&>"`
		I  int     `json:"i,string"`
		F  float64 `json:"f,string"`
		B  bool    `json:"b,string"`
		T  string  `json:"t,string"`
		PI *int    `json:"pi,string,omitempty"`
		Ig int     `json:"-"`
		Da int     `json:"-,"`
		U  string  `json:"é"`
		LS string  `json:"sep\u2028"`
	}
	empties struct {
		A int                  `json:"a,omitempty"`
		B string               `json:"b,omitempty"`
		C []int                `json:"c,omitempty"`
		D map[string]int       `json:"d,omitempty"`
		E *int                 `json:"e,omitempty"`
		F interface{}          `json:"f,omitempty"`
		G bool                 `json:"g,omitempty"`
		H float64              `json:"h,omitempty"`
		I jsoncolor.RawMessage `json:"i,omitempty"`
		J []byte               `json:"j,omitempty"`
		K [0]int               `json:"k,omitempty"`
		L uint8                `json:"l,omitempty"`
	}
	mixed struct {
		Null  interface{}
		Bool  bool
		Int   int
		I8    int8
		U16   uint16
		U64   uint64
		F32   float32
		F64   float64
		Num   jsoncolor.Number
		Str   string
		Bytes []byte
		Time  time.Time
		Dur   time.Duration
		Raw   jsoncolor.RawMessage
		Any   interface{}
		Arr   [2]int
		Sl    []string
		M     map[string]interface{}
		MI    map[int]bool
		MR    map[string]jsoncolor.RawMessage
		Txt   textVal
		Jsn   jsonVal
		P     *mixedSmall
		TP    *textPtr
		JP    *jsonPtr
	}
	mixedSmall struct {
		S  string `json:"s"`
		TP textPtr
		JP jsonPtr
		M  map[string]string
	}
	emptyT struct{}
	nested struct {
		A []emptyT
		B []map[string]int
		C [][]int
		D map[string][]int
		E emptyT
		F [0]string
		G *emptyT
	}
	inlines struct {
		I inlPtr
		A inlArr
		M map[string]inlPtr
		N map[string]*int
		F interface{}
	}
)

func (t textVal) MarshalText() ([]byte, error) { return textOf(t.s) }
func (t *textPtr) MarshalText() ([]byte, error) {
	return textOf(t.s)
}
func (t textKey) MarshalText() ([]byte, error) { return textOf("k:" + string(t)) }
func (t intKey) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("n%03d", 500-int(t))), nil }
func (j jsonVal) MarshalJSON() ([]byte, error) { return jsonOf(j.s) }
func (j *jsonPtr) MarshalJSON() ([]byte, error) {
	return jsonOf(j.s)
}
func (j jsonStr) MarshalJSON() ([]byte, error) { return jsonOf(string(j)) }

var errMarshal = errors.New("no")

func textOf(s string) ([]byte, error) {
	if strings.HasPrefix(s, "!!") {
		return nil, errMarshal
	}
	return []byte(s), nil
}

func jsonOf(s string) ([]byte, error) {
	if s == "" {
		return []byte("null"), nil
	}
	if strings.HasPrefix(s, "!!") {
		return nil, errMarshal
	}
	return []byte(s), nil
}

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// encTypes are the types whose values are encoded.
var encTypes = []reflect.Type{
	ty[bool](), ty[int](), ty[int8](), ty[int16](), ty[int32](), ty[int64](), ty[uint](), ty[uint8](), ty[uint16](), ty[uint32](), ty[uint64](), ty[uintptr](),
	ty[float32](), ty[float64](), ty[string](), ty[[]byte](), ty[jsoncolor.Number](), ty[time.Time](), ty[time.Duration](), ty[jsoncolor.RawMessage](), ty[interface{}](),
	ty[[]int](), ty[[]string](), ty[[]interface{}](), ty[[3]int](), ty[[0]int](), ty[[1]string](), ty[[2][]byte](), ty[[]bool](), ty[[][]int](), ty[[]*int](), ty[[]float32](), ty[[]uint16](),
	ty[map[string]interface{}](), ty[map[string]jsoncolor.RawMessage](), ty[map[string]string](), ty[map[string]int](), ty[map[int]string](), ty[map[int8]int](), ty[map[uint16]bool](), ty[map[uint64]string](), ty[map[int64]string](), ty[map[myString]int](), ty[map[myInt]int](),
	ty[map[textKey]int](), ty[map[intKey]string](), ty[map[string][]int](), ty[map[string]map[string]int](), ty[map[string]*int](), ty[map[string]inlPtr](), ty[map[textVal]int](),
	ty[*int](), ty[*string](), ty[**int](), ty[*mixed](), ty[mixed](), ty[mixedSmall](), ty[*mixedSmall](), ty[tagged](), ty[empties](), ty[withEmb](), ty[withEmbP](), ty[onlyEmbP](), ty[embMid](), ty[recT](), ty[nested](), ty[inlines](), ty[inlPtr](), ty[inlArr](), ty[emptyT](),
	ty[textVal](), ty[*textPtr](), ty[jsonVal](), ty[*jsonPtr](), ty[jsonStr](), ty[[]textVal](), ty[[]jsonVal](), ty[[]textPtr](), ty[map[string]textVal](), ty[map[string]jsonVal](), ty[myInt](), ty[myString](), ty[[]jsoncolor.RawMessage](), ty[[]jsoncolor.Number](), ty[[]time.Time](), ty[*jsoncolor.RawMessage](), ty[*time.Time](), ty[*jsoncolor.Number](), ty[[2]mixedSmall](), ty[[]mixedSmall](),
}

// decTypes are the destinations of decoding (no methods involved).
var decTypes = []reflect.Type{
	ty[bool](), ty[int](), ty[int8](), ty[int16](), ty[int32](), ty[int64](), ty[uint](), ty[uint8](), ty[uint16](), ty[uint32](), ty[uint64](), ty[uintptr](),
	ty[float32](), ty[float64](), ty[string](), ty[[]byte](), ty[jsoncolor.Number](), ty[jsoncolor.RawMessage](), ty[interface{}](),
	ty[[]int](), ty[[]string](), ty[[]interface{}](), ty[[3]int](), ty[[0]int](), ty[[2]string](), ty[[][]int](), ty[[]*int](), ty[[2][2]int](), ty[[]jsoncolor.RawMessage](), ty[[]jsoncolor.Number](), ty[[][]byte](), ty[[2]interface{}](), ty[[]bool](),
	ty[map[string]interface{}](), ty[map[string]jsoncolor.RawMessage](), ty[map[string]string](), ty[map[string]int](), ty[map[int]string](), ty[map[int8]int](), ty[map[uint16]interface{}](), ty[map[string][]int](), ty[map[myString]int](), ty[map[string]map[string]int](), ty[map[string]jsoncolor.Number](), ty[map[string][]byte](), ty[map[string]*string](),
	ty[*int](), ty[*string](), ty[**int](), ty[*interface{}](), ty[recT](), ty[tagged](), ty[empties](), ty[withEmb](), ty[withEmbP](), ty[embMid](), ty[nested](), ty[decStruct](), ty[[]decStruct](), ty[map[string]decStruct](), ty[*decStruct](), ty[emptyT](), ty[time.Duration](), ty[time.Time](),
}

type decStruct struct {
	A   interface{}          `json:"a"`
	B   string               `json:"b"`
	Key int                  `json:"key"`
	K   jsoncolor.RawMessage `json:"k"`
	N   jsoncolor.Number     `json:"n"`
	L   []interface{}        `json:"l"`
	M   map[string]string    `json:"m"`
	BS  []byte               `json:"bs"`
	P   *decStruct           `json:"p"`
	I   int                  `json:"i,string"`
	S   string               `json:"s,string"`
	Arr [2]int               `json:"arr"`
}

// ---- random values ----

func randStr(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"a", "b", "ab", "A", "z", "10", "9", "key"}[r.Intn(8)]
	}
	ps := []string{"a", "Z", " ", "<", ">", "&", "/", `"`, `\`, "\b", "\f", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "é", "世", "😀", "\u2028", "\u2029", "\u2027", "\u202a", "\xff", "\xc3", "\xe2\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "\ufffd", "12345678", "abcdefghijklmnop", "true", "\x1b[31m"}
	var sb strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		sb.WriteString(ps[r.Intn(len(ps))])
	}
	return sb.String()
}

func randRaw(r *rand.Rand) string {
	d := genJSON(r, 3)
	if r.Intn(3) == 0 {
		d = []string{" ", "\n", "\t ", ""}[r.Intn(4)] + d + []string{" ", "\n", "", "\r\n"}[r.Intn(4)]
	}
	return d
}

func badRaw(r *rand.Rand) string {
	bad := []string{"", " ", "{", "[1,", `{"a":}`, "tru", "1 2", `{"a":1}x`, `"abc`, "[1 2]", "01", "nul", `{"a":1,}`, "]", `{"a" 1}`, "<", `"<`, "[1]]"}
	return bad[r.Intn(len(bad))]
}

func randFloat(r *rand.Rand, nan bool) float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Intn(2000) - 1000)
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		return float64(r.Intn(1000)) / 8
	case 3:
		return []float64{0, math.Copysign(0, -1), 1e20, 1e21, 9.99e20, 1e-6, 9.9e-7, 1e-7, 1e-9, 1e-10, 1e100, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 123456789.125, 1e22, 1.5e-8}[r.Intn(18)]
	case 4:
		return math.Pow(10, float64(r.Intn(60)-30)) * float64(r.Intn(9)+1)
	case 5:
		return r.NormFloat64()
	case 6:
		if nan {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
		}
		return 0.1
	}
	return r.Float64()
}

type genOpt struct {
	bad    bool // values which cannot be encoded
	maxMap int
}

func randValue(r *rand.Rand, t reflect.Type, depth int, o genOpt) reflect.Value {
	v := reflect.New(t).Elem()
	bad := o.bad && r.Intn(25) == 0
	switch t {
	case ty[jsoncolor.Number]():
		v.SetString([]string{"", "0", "-1.5e3", genNumber(r)}[r.Intn(4)])
		if bad {
			v.SetString([]string{"x", "1x", "01", " 1", "1 ", "-", "1e", "0x1", "NaN", "<1>"}[r.Intn(10)])
		}
		return v
	case ty[time.Time]():
		v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), int64(r.Intn(1e9))).UTC()))
		return v
	case ty[jsoncolor.RawMessage]():
		if r.Intn(8) == 0 {
			return v
		}
		s := randRaw(r)
		if bad {
			s = badRaw(r)
		}
		v.SetBytes([]byte(s))
		return v
	case ty[textVal](), ty[textPtr]():
		s := randStr(r)
		if bad {
			s = "!!"
		}
		if t == ty[textVal]() {
			v.Set(reflect.ValueOf(textVal{s}))
		} else {
			v.Set(reflect.ValueOf(textPtr{s}))
		}
		return v
	case ty[jsonVal](), ty[jsonPtr](), ty[jsonStr]():
		s := randRaw(r)
		if bad {
			s = []string{"!!", badRaw(r)}[r.Intn(2)]
		}
		switch t {
		case ty[jsonVal]():
			v.Set(reflect.ValueOf(jsonVal{s}))
		case ty[jsonPtr]():
			v.Set(reflect.ValueOf(jsonPtr{s}))
		default:
			v.SetString(s)
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt([]int64{0, -1, int64(r.Intn(300) - 150), int64(r.Uint64()), math.MinInt64, math.MaxInt64, math.MinInt32, 127, -128}[r.Intn(9)] >> (uint(r.Intn(2)) * uint(64-t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint([]uint64{0, 1, uint64(r.Intn(300)), r.Uint64(), math.MaxUint64, 1 << 63, 255, 10}[r.Intn(8)] >> (uint(r.Intn(2)) * uint(64-t.Bits())))
	case reflect.Float32:
		f := float32(randFloat(r, bad))
		if !bad && (f != f || math.IsInf(float64(f), 0)) {
			f = 1.25
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := randFloat(r, bad)
		if !bad && (f != f || math.IsInf(f, 0)) {
			f = 2.5
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(randStr(r))
	case reflect.Slice:
		if r.Intn(6) == 0 {
			return v
		}
		n := r.Intn(4)
		if depth <= 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
		for i := 0; i < n; i++ {
			v.Index(i).Set(randValue(r, t.Elem(), depth-1, o))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(randValue(r, t.Elem(), depth-1, o))
		}
	case reflect.Map:
		if r.Intn(6) == 0 {
			return v
		}
		v.Set(reflect.MakeMap(t))
		n := r.Intn(o.maxMap + 1)
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			ko := o
			ko.bad = false
			v.SetMapIndex(randValue(r, t.Key(), depth-1, ko), randValue(r, t.Elem(), depth-1, o))
		}
	case reflect.Pointer:
		if depth <= 0 || r.Intn(4) == 0 {
			return v
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(randValue(r, t.Elem(), depth-1, o))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				v.Field(i).Set(randValue(r, t.Field(i).Type, depth-1, o))
			}
		}
	case reflect.Interface:
		if r.Intn(6) == 0 {
			return v
		}
		k := encTypes[r.Intn(len(encTypes))]
		if depth <= 0 {
			k = encTypes[r.Intn(20)]
		}
		if k.Kind() == reflect.Pointer && k.Elem().Kind() == reflect.Pointer {
			return v
		}
		x := randValue(r, k, depth-1, o)
		if bad && r.Intn(3) == 0 {
			v.Set(reflect.ValueOf([]interface{}{func() {}, make(chan int), complex(1, 2)}[r.Intn(3)]))
			return v
		}
		if x.Kind() == reflect.Pointer && x.IsNil() && r.Intn(2) == 0 {
			return v
		}
		v.Set(x)
	}
	return v
}

// ---- the model: the tokens which a value is to be encoded to ----

type kind int

const (
	kNull kind = iota
	kBool
	kNumber
	kString
	kBytes
	kTime
	kText
	kArr
	kObj
)

type node struct {
	k     kind
	text  string
	keys  []string // JSON text of the keys
	elems []*node
}

type mopt struct {
	flags    jsoncolor.AppendFlags
	clrs     *jsoncolor.Colors
	indented bool
	prefix   string
	indent   string
}

const hexd = "0123456789abcdef"

// quote is the JSON text of a string.
func quote(s string, html bool) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		rn, n := decodeRune(s[i:])
		switch {
		case rn < 0:
			sb.WriteString(`\ufffd`)
		case rn == '"' || rn == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(byte(rn))
		case rn == '\n':
			sb.WriteString(`\n`)
		case rn == '\r':
			sb.WriteString(`\r`)
		case rn == '\t':
			sb.WriteString(`\t`)
		case rn < 0x20 || html && (rn == '<' || rn == '>' || rn == '&') || rn == 0x2028 || rn == 0x2029:
			fmt.Fprintf(&sb, `\u%04x`, rn)
		default:
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	sb.WriteByte('"')
	return sb.String()
}

// decodeRune decodes one UTF-8 sequence by its definition; rn is -1 for an
// invalid byte.
func decodeRune(s string) (rn rune, n int) {
	c := s[0]
	if c < 0x80 {
		return rune(c), 1
	}
	need, lo, v := 0, rune(0), rune(0)
	switch {
	case c>>5 == 6:
		need, lo, v = 1, 0x80, rune(c&0x1f)
	case c>>4 == 14:
		need, lo, v = 2, 0x800, rune(c&0xf)
	case c>>3 == 30:
		need, lo, v = 3, 0x10000, rune(c&7)
	default:
		return -1, 1
	}
	if len(s) <= need {
		return -1, 1
	}
	for i := 1; i <= need; i++ {
		if s[i]>>6 != 2 {
			return -1, 1
		}
		v = v<<6 | rune(s[i]&0x3f)
	}
	if v < lo || v > 0x10ffff || v >= 0xd800 && v <= 0xdfff {
		return -1, 1
	}
	return v, need + 1
}

// rawText is the text of a string token of raw JSON with HTML escaping.
func rawText(t string, html bool) string {
	if !html {
		return t
	}
	return strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`, "\u2028", `\u2028`, "\u2029", `\u2029`).Replace(t)
}

func marshalerType(v reflect.Value) (json.Marshaler, bool) {
	m, ok := v.Interface().(json.Marshaler)
	return m, ok
}

type textMarshaler interface{ MarshalText() ([]byte, error) }

func isNilable(v reflect.Value) bool {
	return (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil()
}

// model gives the tree of tokens for v; addr says whether v is reached through
// a pointer or slice, so that pointer methods apply.
func model(v reflect.Value, o *mopt, addr bool) (*node, error) {
	html := o.flags&jsoncolor.EscapeHTML != 0
	if !v.IsValid() {
		return &node{k: kNull, text: "null"}, nil
	}
	t := v.Type()
	switch x := v.Interface().(type) {
	case jsoncolor.Number:
		if x == "" {
			x = "0"
		}
		if !isNumber(string(x)) {
			return nil, errMarshal
		}
		return &node{k: kNumber, text: string(x)}, nil
	case []byte:
		if t != ty[[]byte]() {
			break
		}
		if x == nil {
			return &node{k: kNull, text: "null"}, nil
		}
		b, _ := json.Marshal(x)
		return &node{k: kBytes, text: string(b)}, nil
	case time.Duration:
		return &node{k: kNumber, text: fmt.Sprint(int64(x))}, nil
	case time.Time:
		return &node{k: kTime, text: `"` + x.Format(time.RFC3339Nano) + `"`}, nil
	case jsoncolor.RawMessage:
		return rawModel(x, o)
	case *jsoncolor.RawMessage, *time.Time, *time.Duration, *jsoncolor.Number:
		if v.IsNil() {
			return &node{k: kNull, text: "null"}, nil
		}
		return model(v.Elem(), o, true)
	}
	var m json.Marshaler
	var tm textMarshaler
	if addr && t.Kind() != reflect.Pointer && reflect.PointerTo(t).Implements(ty[json.Marshaler]()) || t.Implements(ty[json.Marshaler]()) {
		if isNilable(v) {
			return &node{k: kNull, text: "null"}, nil
		}
		p := v
		if !t.Implements(ty[json.Marshaler]()) {
			p = reflect.New(t)
			p.Elem().Set(v)
		}
		m = p.Interface().(json.Marshaler)
	} else if addr && t.Kind() != reflect.Pointer && reflect.PointerTo(t).Implements(ty[textMarshaler]()) || t.Implements(ty[textMarshaler]()) {
		if isNilable(v) {
			return &node{k: kNull, text: "null"}, nil
		}
		p := v
		if !t.Implements(ty[textMarshaler]()) {
			p = reflect.New(t)
			p.Elem().Set(v)
		}
		tm = p.Interface().(textMarshaler)
	}
	if m != nil {
		j, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		return rawModel(j, o)
	}
	if tm != nil {
		s, err := tm.MarshalText()
		if err != nil {
			return nil, err
		}
		return &node{k: kText, text: quote(string(s), html)}, nil
	}
	switch t.Kind() {
	case reflect.Bool:
		return &node{k: kBool, text: fmt.Sprint(v.Bool())}, nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &node{k: kNumber, text: fmt.Sprint(v.Int())}, nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return &node{k: kNumber, text: fmt.Sprint(v.Uint())}, nil
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f != f || math.IsInf(f, 0) {
			return nil, errMarshal
		}
		var b []byte
		if t.Kind() == reflect.Float32 {
			b, _ = json.Marshal(float32(f))
		} else {
			b, _ = json.Marshal(f)
		}
		return &node{k: kNumber, text: string(b)}, nil
	case reflect.String:
		return &node{k: kString, text: quote(v.String(), html)}, nil
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return &node{k: kNull, text: "null"}, nil
		}
		return model(v.Elem(), o, t.Kind() == reflect.Pointer)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return &node{k: kNull, text: "null"}, nil
		}
		n := &node{k: kArr}
		for i := 0; i < v.Len(); i++ {
			e, err := model(v.Index(i), o, addr || t.Kind() == reflect.Slice)
			if err != nil {
				return nil, err
			}
			n.elems = append(n.elems, e)
		}
		return n, nil
	case reflect.Map:
		if v.IsNil() {
			return &node{k: kNull, text: "null"}, nil
		}
		type ent struct {
			k string
			v *node
		}
		var es []ent
		for _, k := range v.MapKeys() {
			kt, err := mapKeyText(k)
			if err != nil {
				return nil, err
			}
			e, err := model(v.MapIndex(k), o, false)
			if err != nil {
				return nil, err
			}
			es = append(es, ent{kt, e})
		}
		for i := range es {
			for j := i; j > 0 && es[j].k < es[j-1].k; j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		n := &node{k: kObj}
		for _, e := range es {
			n.keys = append(n.keys, quote(e.k, html))
			n.elems = append(n.elems, e.v)
		}
		return n, nil
	case reflect.Struct:
		n := &node{k: kObj}
		err := modelStruct(n, v, o, addr)
		return n, err
	}
	return nil, errMarshal
}

func mapKeyText(k reflect.Value) (string, error) {
	if tm, ok := k.Interface().(textMarshaler); ok {
		b, err := tm.MarshalText()
		return string(b), err
	}
	if k.Kind() == reflect.String {
		return k.String(), nil
	}
	return fmt.Sprint(k.Interface()), nil
}

func modelStruct(n *node, v reflect.Value, o *mopt, addr bool) error {
	html := o.flags&jsoncolor.EscapeHTML != 0
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if tag == "-" || !f.IsExported() {
			continue
		}
		fv := v.Field(i)
		if f.Anonymous && name == "" {
			a := addr
			if fv.Kind() == reflect.Pointer {
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			if err := modelStruct(n, fv, o, a); err != nil {
				return err
			}
			continue
		}
		if name == "" || strings.ContainsAny(name, "\u2028") {
			name = f.Name
		}
		if strings.Contains(opts, "omitempty") && isEmpty(fv) {
			continue
		}
		e, err := model(fv, o, addr)
		if err != nil {
			return err
		}
		if strings.Contains(opts, "string") {
			e = &node{k: kString, text: quote(e.text, html)}
		}
		n.keys = append(n.keys, quote(name, html))
		n.elems = append(n.elems, e)
	}
	return nil
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	case reflect.Interface:
		return v.IsNil() || nilWord(v.Elem())
	}
	return v.IsZero()
}

// nilWord: omitempty also leaves out an interface which holds a nil pointer.
func nilWord(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map, reflect.Pointer, reflect.Chan, reflect.Func:
		return v.IsNil()
	case reflect.Struct:
		return v.NumField() == 1 && nilWord(v.Field(0))
	case reflect.Array:
		return v.Len() == 1 && nilWord(v.Index(0))
	}
	return false
}

// isNumber: a complete number literal of RFC 8259.
func isNumber(s string) bool {
	if s == "" || s[0] != '-' && (s[0] < '0' || s[0] > '9') || s[len(s)-1] < '0' || s[len(s)-1] > '9' {
		return false
	}
	return json.Valid([]byte(s))
}

// rawModel is the model of raw JSON.
func rawModel(b []byte, o *mopt) (*node, error) {
	if b == nil {
		return &node{k: kNull, text: "null"}, nil
	}
	if !json.Valid(b) {
		return nil, errMarshal
	}
	p := &rawParser{b: b, html: o.flags&jsoncolor.EscapeHTML != 0}
	return p.value(), nil
}

type rawParser struct {
	b    []byte
	i    int
	html bool
}

func (p *rawParser) ws() {
	for p.i < len(p.b) && strings.IndexByte(" \t\r\n", p.b[p.i]) >= 0 {
		p.i++
	}
}

func (p *rawParser) str() string {
	s := p.i
	for p.i++; p.b[p.i] != '"'; p.i++ {
		if p.b[p.i] == '\\' {
			p.i++
		}
	}
	p.i++
	return string(p.b[s:p.i])
}

func (p *rawParser) value() *node {
	p.ws()
	switch c := p.b[p.i]; {
	case c == '"':
		return &node{k: kString, text: rawText(p.str(), p.html)}
	case c == '[' || c == '{':
		n := &node{k: kArr}
		if c == '{' {
			n.k = kObj
		}
		p.i++
		for {
			p.ws()
			if p.b[p.i] == ']' || p.b[p.i] == '}' {
				p.i++
				return n
			}
			if p.b[p.i] == ',' {
				p.i++
				p.ws()
			}
			if n.k == kObj {
				n.keys = append(n.keys, rawText(p.str(), p.html))
				p.ws()
				p.i++ // colon
			}
			n.elems = append(n.elems, p.value())
		}
	}
	s := p.i
	for p.i < len(p.b) && strings.IndexByte(" \t\r\n,]}", p.b[p.i]) < 0 {
		p.i++
	}
	t := string(p.b[s:p.i])
	switch t {
	case "null":
		return &node{k: kNull, text: t}
	case "true", "false":
		return &node{k: kBool, text: t}
	}
	return &node{k: kNumber, text: t}
}

const reset = "\x1b[0m"

func (o *mopt) paint(sb *strings.Builder, c jsoncolor.Color, s string) {
	if o.clrs == nil {
		sb.WriteString(s)
		return
	}
	sb.Write(c)
	sb.WriteString(s)
	sb.WriteString(reset)
}

func (o *mopt) punc(sb *strings.Builder, c string) {
	if o.clrs == nil {
		sb.WriteString(c)
		return
	}
	var k jsoncolor.Color
	switch c {
	case "[", "]":
		k = o.clrs.Brackets
	case "{", "}":
		k = o.clrs.Braces
	case ",":
		k = o.clrs.Comma
	case ":":
		k = o.clrs.Colon
	}
	if len(k) == 0 {
		k = o.clrs.Punc
	}
	o.paint(sb, k, c)
}

func (o *mopt) nl(sb *strings.Builder, depth int) {
	if o.indented {
		sb.WriteString("\n" + o.prefix + strings.Repeat(o.indent, depth))
	}
}

func (o *mopt) render(sb *strings.Builder, n *node, depth int) {
	switch n.k {
	case kArr, kObj:
		op, cl := "[", "]"
		if n.k == kObj {
			op, cl = "{", "}"
		}
		o.punc(sb, op)
		for i, e := range n.elems {
			if i > 0 {
				o.punc(sb, ",")
			}
			o.nl(sb, depth+1)
			if n.k == kObj {
				var kc jsoncolor.Color
				if o.clrs != nil {
					kc = o.clrs.Key
				}
				o.paint(sb, kc, n.keys[i])
				o.punc(sb, ":")
				if o.indented {
					sb.WriteByte(' ')
				}
			}
			o.render(sb, e, depth+1)
		}
		if len(n.elems) > 0 {
			o.nl(sb, depth)
		}
		o.punc(sb, cl)
		return
	}
	var c jsoncolor.Color
	if o.clrs != nil {
		c = map[kind]jsoncolor.Color{kNull: o.clrs.Null, kBool: o.clrs.Bool, kNumber: o.clrs.Number, kString: o.clrs.String, kBytes: o.clrs.Bytes, kTime: o.clrs.Time, kText: o.clrs.TextMarshaler}[n.k]
	}
	o.paint(sb, c, n.text)
}

func (o *mopt) text(n *node) string {
	var sb strings.Builder
	o.render(&sb, n, 0)
	return sb.String()
}
