package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"github.com/go-restruct/restruct"
)

// C09: faults give errors, and leave everything else alone.

// op is one of the four operations.
type op int

const (
	opPack op = 1 << iota
	opUnpack
	opSize
	opBits
	opAll   = opPack | opUnpack | opSize | opBits
	opCodec = opPack | opUnpack
)

func (o op) String() string {
	return map[op]string{opPack: "Pack", opUnpack: "Unpack", opSize: "SizeOf", opBits: "BitSize"}[o]
}

var eachOp = []op{opPack, opUnpack, opSize, opBits}

// outcomeOf runs one operation on any argument at all.
func outcomeOf(o op, order binary.ByteOrder, data []byte, arg interface{}) (out string, err error, pan string) {
	var n int
	switch o {
	case opPack:
		var b []byte
		b, err, pan = pack(order, arg)
		out = fmt.Sprintf("%x", b)
	case opUnpack:
		err, pan = unpack(data, order, arg)
	case opSize:
		n, err, pan = sizeOf(arg)
		out = fmt.Sprint(n)
	default:
		n, err, pan = bitSize(arg)
		out = fmt.Sprint(n)
	}
	if err != nil && pan == "" {
		func() {
			defer guard(&pan)
			out = "error"
			_ = err.Error()
		}()
	}
	return
}

// ---- canaries: operations whose results are known beforehand

type canary struct {
	v      reflect.Value
	little bool
	bytes  []byte
	bits   int
	back   reflect.Value
	expr   bool
}

var canaries []*canary

type (
	QPlain struct {
		A uint8
		B int32 `struct:"int16,big"`
		C []uint16
		N string `struct:"[3]byte"`
		D [2]QSub
	}
	QSub struct {
		X uint8 `struct:"uint8:3"`
		Y int16 `struct:"int16:13"`
		Z *float32
	}
	QLinks struct {
		N uint8 `struct:"sizeof=L"`
		L []QLink
		C CVar
	}
	QLink struct {
		Up  *QLinks `struct:"parent"`
		Top *QLinks `struct:"root"`
		V   bool    `struct:"uint16:9,variantbool"`
		W   uint8   `struct:"uint8:7,skip=1"`
	}
)

func makeCanaries() {
	vg := newVgen(newRng(4711), &prof{})
	for _, t := range []reflect.Type{reflect.TypeOf(QPlain{}), reflect.TypeOf(QLinks{}), reflect.TypeOf(SRec{}), reflect.TypeOf(SEmb{}), reflect.TypeOf(SMut{}), reflect.TypeOf(SCnt{}), reflect.TypeOf(SNum{}), reflect.TypeOf(sameName1()), reflect.TypeOf(sameName2()), reflect.TypeOf(sameName3()), reflect.TypeOf(LOuter{})} {
		for i := 0; i < 6; i++ {
			v := vg.fresh(t)
			if i == 0 {
				v = reflect.New(t).Elem()
			}
			if t == reflect.TypeOf(QPlain{}) {
				v.FieldByName("C").SetLen(0)
			}
			little := i%2 == 0
			e, _, err := reference(v, little, false)
			if err != nil {
				continue
			}
			_, back, err := refUnpack(e.w.b, reflect.New(t).Elem(), little, false)
			if err != nil {
				continue
			}
			canaries = append(canaries, &canary{v, little, e.w.b, e.w.n, back, hasExprs(t, nil)})
		}
	}
}

// canaries checks n operations that have nothing to do with the ones before.
func (c *Ctx) canaries(n int, exprs bool) {
	if canaries == nil {
		makeCanaries()
	}
	for ; n > 0; n-- {
		k := pick(c.R, canaries...)
		if k.expr && !exprs {
			continue
		}
		c.Count("canaries", 1)
		c.Eval(1)
		t := k.v.Type()
		if c.R.p(50) {
			in := deepCopy(k.v)
			b, err, pan := pack(orderOf(k.little), in.Addr().Interface())
			if err != nil || pan != "" || !bytes.Equal(b, k.bytes) {
				c.Fail("an unrelated Pack of %s goes wrong: %s (%v %s), want %s", t, hx(b), err, pan, hx(k.bytes))
			}
			m, err, pan := bitSize(k.v.Interface())
			if err != nil || pan != "" || m != k.bits {
				c.Fail("an unrelated BitSize of %s goes wrong: %d (%v %s), want %d", t, m, err, pan, k.bits)
			}
			continue
		}
		got := reflect.New(t)
		err, pan := unpack(append([]byte(nil), k.bytes...), orderOf(k.little), got.Interface())
		if err != nil || pan != "" {
			c.Fail("an unrelated Unpack of %s goes wrong: %v %s", t, err, pan)
		} else if s := diff(k.back, got.Elem(), diffAll); s != "" {
			c.Fail("an unrelated Unpack of %s goes wrong: %s", t, s)
		}
	}
}

// hasExprs tells whether any expression is attached to a type.
func hasExprs(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Array, reflect.Slice:
		return hasExprs(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			for _, k := range exprKeys {
				if f.Tag.Get("struct-"+k) != "" || strings.Contains(f.Tag.Get("struct"), k+"=") {
					return true
				}
			}
			if hasExprs(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// wrap hides a value inside others, in a way that keeps it reachable.
func wrap(r *rng, v reflect.Value, depth int) reflect.Value {
	u8 := reflect.TypeOf(uint8(0))
	for i := r.n(depth + 1); i > 0; i-- {
		switch r.n(5) {
		case 0:
			w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "P", Type: u8}, {Name: "In", Type: v.Type()}})).Elem()
			w.Field(1).Set(v)
			v = w
		case 1:
			w := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
			w.Index(0).Set(v)
			w.Index(1).Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Arr", Type: w.Type()}})).Elem()
			v.Field(0).Set(w)
		case 2:
			w := reflect.New(v.Type())
			w.Elem().Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Ptr", Type: w.Type()}, {Name: "Q", Type: u8}})).Elem()
			v.Field(0).Set(w)
		case 3:
			w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "In", Type: v.Type(), Tag: `struct:"little"`}, {Name: "R", Type: reflect.TypeOf(uint32(0)), Tag: `struct:"uint32:9,skip=1"`}})).Elem()
			w.Field(0).Set(v)
			v = w
		default:
			w := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
			w.Index(0).Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: u8, Tag: `struct:"sizeof=Sl"`}, {Name: "Sl", Type: w.Type()}})).Elem()
			v.Field(0).SetUint(1)
			v.Field(1).Set(w)
		}
	}
	return v
}

// ---- faults that must be reported

type fault struct {
	v     reflect.Value
	ops   op // which must fail
	class string
}

var (
	tU8   = reflect.TypeOf(uint8(0))
	tU16  = reflect.TypeOf(uint16(0))
	tI32  = reflect.TypeOf(int32(0))
	tStr  = reflect.TypeOf("")
	tBS   = reflect.TypeOf([]byte(nil))
	tU16S = reflect.TypeOf([]uint16(nil))
	tBool = reflect.TypeOf(false)
	tF64  = reflect.TypeOf(float64(0))
)

func fieldOf(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	if tag != "" {
		f.Tag = reflect.StructTag("struct:" + quoteTag(tag))
	}
	return f
}

// filled gives every slice and string three elements and every pointer a target.
func filled(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Slice:
			v.Set(reflect.MakeSlice(v.Type(), 3, 3))
			for i := 0; i < 3; i++ {
				rec(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.String:
			v.SetString("abc")
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			rec(v.Elem())
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(1)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			v.SetInt(1)
		}
	}
	rec(v)
	return v
}

// Wire types by the class of Go types they can stand for.
var wireClasses = map[string][]string{
	"int":     {"int", "int8", "int16", "int32", "int64", "rune", "int32:7", "int16:9"},
	"uint":    {"uint", "uint8", "uint16", "uint32", "uint64", "byte", "uint32:7", "uint16:9"},
	"float":   {"float32", "float64"},
	"complex": {"complex64", "complex128"},
	"list":    {"string", "[]byte", "[]uint16", "[3]byte", "[5]uint16", "[4]uint32", "[][2]byte"},
	"ptr":     {"*uint8", "*int32", "*float64"},
}

var nativeClasses = map[string][]reflect.Type{
	"int":     intTypes,
	"uint":    uintTypes,
	"float":   floatTypes,
	"complex": cplxTypes,
	"bool":    boolTypes,
	"list":    {tBS, tU16S, tStr, reflect.TypeOf([]int32(nil)), reflect.TypeOf(NBytes(nil)), reflect.TypeOf([4]uint8{}), reflect.TypeOf([2]uint32{}), reflect.TypeOf([]QSub(nil))},
	"ptr":     {reflect.TypeOf((*uint8)(nil)), reflect.TypeOf((*QSub)(nil)), reflect.TypeOf((*string)(nil))},
	"struct":  {reflect.TypeOf(QSub{}), reflect.TypeOf(struct{ A uint16 }{}), reflect.TypeOf(struct{}{})},
	"other":   {reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {})},
}

var classNames = []string{"int", "uint", "float", "complex", "list", "ptr", "bool", "struct", "other"}

var unknownTypes = []string{"foo", "int33", "uint7", "float16", "map[string]int", "chan int", "func()", "struct{}", "interface{}", "[x]int", "[-1]byte", "[1.5]byte", "['a']byte", "[n]byte", "[]", "[3]", "*", "[]foo", "[4]bar", "*baz", "error", "any", "unsafe.Pointer", "time.Time", "int8.x", "(int8", "int8)", "1", "\"int8\"", "int8 int8", "u int8", "[3byte", "3]byte", "uint8:0", "uint8:8", "uint8:9", "uint16:16", "uint32:32", "uint64:64", "uint8:-1", "uint8:", "uint8:x", "uint8:300", "uint8:1:1", "bool:1", "string:3", "[4]byte:3", "[]byte:3", "*uint8:3", "int16:0x", "float64:3", "uintptr:3"}

// Expressions that fail or have the wrong type wherever they are evaluated, in a
// struct with A, B uint8 (both 1), S []uint8 (two elements), N string, T bool.
var failingExprs = []string{
	"A / (B - 1)", "A % (B - A)", "A / (A - A) == 1", "Nope", "Nope == 1", "A + Nope", "Nope()", "A.X", "A.X == 1", "S.X", "A[0]", "A[0] == 1",
	"A(1)", "A()", "S[2]", "S[9] == 1", "S[A + 100]", "S[-1]", "N[9]", "N[50] == 1", "S[N]", "S[T]", "S[\"x\"]", "A == N", "A == T", "A + N", "A + T", "T + T", "A && true", "false || A", "!A", "!N", "-N", "^N", "-T", "A ? 1 : 2", "N ? true : false",
	"bits.Nope(A)", "bits.Len8(N)", "bits.Len8()", "bits.Len8(A, B)", "Nope.Len8(A)", "bits.Len8(A).X", "A & N", "T & A", "A << N", "S + S", "S == S", "A < T", "T < T", "S < S",
	"S * 2", "S && T", "true && N == 1", "1 + T", "\"x\" - 1", "N * 2", "1.5 & 1", "A % 0", "A / 0", "1 / 0 == 1", "5 % 0",
}

// Results of the wrong kind for a use.
var wrongKind = map[string][]string{
	"if":    {"A", "1", "N", "\"true\"", "1.5", "S", "A + B", "bits", "bits.Len8", "S[0]"},
	"while": {"A", "1", "N", "\"true\"", "1.5", "S", "A + B", "bits", "bits.Len8"},
	"size":  {"T", "N", "\"2\"", "true", "S", "A == 1", "bits", "bits.Len8"},
	"bits":  {"T", "N", "\"2\"", "true", "S", "A == 1", "bits", "bits.Len8"},
	"in":    {"T", "N", "\"2\"", "true", "S", "A == 1", "bits", "bits.Len8"},
	"out":   {"N", "\"2\"", "S", "bits", "bits.Len8"},
}

func exprField(r *rng, name string, t reflect.Type, opts, key, text string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t}
	var parts []string
	if opts != "" {
		parts = append(parts, opts)
	}
	tag := ""
	if r.p(50) {
		parts = append(parts, key+"="+text)
	} else {
		tag = " struct-" + key + ":" + quoteTag(text)
	}
	f.Tag = reflect.StructTag("struct:" + quoteTag(strings.Join(parts, ",")) + tag)
	return f
}

func exprBase() []reflect.StructField {
	return []reflect.StructField{
		fieldOf("A", tU8, ""), fieldOf("B", tU8, ""), fieldOf("S", tBS, "size=2"), fieldOf("N", tStr, "[3]byte"), fieldOf("T", tBool, ""),
	}
}

func newFault(r *rng) fault {
	st := func(fs ...reflect.StructField) reflect.Value {
		if r.p(40) {
			fs = append([]reflect.StructField{fieldOf("Lead", pick(r, tU8, tU16, tI32), "")}, fs...)
		}
		if r.p(40) {
			fs = append(fs, fieldOf("Trail", pick(r, tU8, tU16, tI32), ""))
		}
		return filled(reflect.StructOf(fs))
	}
	switch r.n(9) {
	case 0:
		tx := pick(r, unknownTypes...)
		t := pick(r, pick(r, intTypes, uintTypes, floatTypes, boolTypes, nativeClasses["list"])...)
		if r.p(30) {
			tx = pick(r, "big,", "skip=1,", "invertedbool,", "if=true,") + tx
		}
		return fault{st(fieldOf("F", t, tx)), opAll, "unknown type"}
	case 1:
		for {
			n, w := pick(r, classNames...), pick(r, classNames[:6]...)
			if n == w || n == "bool" && (w == "int" || w == "uint") || n == "other" && w == "ptr" {
				continue
			}
			return fault{st(fieldOf("F", pick(r, nativeClasses[n]...), pick(r, wireClasses[w]...))), opCodec, "unsuitable type " + n + " as " + w}
		}
	case 2: // links
		cnt := pick(r, tU8, tU16, tI32)
		list := pick(r, tBS, tU16S, tStr, reflect.TypeOf([]QSub(nil)))
		fixed := pick(r, tU8, tI32, tBool, tF64, reflect.TypeOf([4]byte{}), reflect.TypeOf(QSub{}), reflect.TypeOf((*uint8)(nil)))
		notInt := pick(r, tStr, tBool, tF64, reflect.TypeOf([1]uint8{}), reflect.TypeOf(complex64(0)))
		switch r.n(14) {
		case 0:
			return fault{st(fieldOf("C", cnt, "sizeof=Gone"), fieldOf("L", list, "")), opAll, "sizeof nothing"}
		case 1:
			return fault{st(fieldOf("C", cnt, ""), fieldOf("L", list, "sizefrom=Gone")), opAll, "sizefrom nothing"}
		case 2:
			return fault{st(fieldOf("C", cnt, "sizeof=L"), fieldOf("L", fixed, "")), opAll, "sizeof a fixed size"}
		case 3:
			return fault{st(fieldOf("C", cnt, ""), fieldOf("L", fixed, "sizefrom=C")), opAll, "sizefrom on a fixed size"}
		case 4:
			return fault{st(fieldOf("L", list, "sizefrom=C"), fieldOf("C", cnt, "")), opAll, "sizefrom a later field"}
		case 5:
			return fault{st(fieldOf("L", list, ""), fieldOf("C", cnt, "sizeof=L")), opAll, "sizeof an earlier field"}
		case 6:
			return fault{st(fieldOf("C", cnt, "sizeof=L"), fieldOf("L", list, "-")), opAll, "sizeof an ignored field"}
		case 7:
			return fault{st(fieldOf("C", cnt, "-"), fieldOf("L", list, "sizefrom=C")), opAll, "sizefrom an ignored field"}
		case 8:
			return fault{st(fieldOf("L", list, "sizefrom=L")), opAll, "sizefrom itself"}
		case 9:
			return fault{st(fieldOf("L", list, "sizeof=L")), opAll, "sizeof itself"}
		case 10:
			return fault{st(fieldOf("C", notInt, "sizeof=L"), fieldOf("L", list, "")), opAll, "a counter that is no integer"}
		case 11:
			// One end of a link at the other end of another.
			return fault{st(fieldOf("C", cnt, "sizeof=L"), fieldOf("L", list, "sizeof=M"), fieldOf("M", list, "")), opAll, "a counted counter"}
		case 12:
			return fault{st(fieldOf("C", cnt, ""), fieldOf("L", list, "sizefrom=C,sizeof=M"), fieldOf("M", list, "")), opAll, "a counted counter"}
		default:
			return fault{st(fieldOf("C", notInt, ""), fieldOf("L", list, "sizefrom=C")), opAll, "a counter that is no integer"}
		}
	case 3: // size, bits on other types
		switch r.n(3) {
		case 0:
			t := pick(r, tU8, tI32, tBool, tF64, reflect.TypeOf([4]byte{}), reflect.TypeOf(QSub{}), reflect.TypeOf((*uint8)(nil)))
			return fault{st(exprField(r, "F", t, "", "size", pick(r, "1", "2", "0"))), opAll, "size of a fixed size"}
		case 1:
			t := pick(r, tBool, tF64, reflect.TypeOf([4]byte{}), reflect.TypeOf(QSub{}), reflect.TypeOf((*uint8)(nil)), tStr, tBS)
			return fault{st(exprField(r, "F", t, "", "bits", pick(r, "1", "2", "5"))), opAll, "bits of a type without"}
		default:
			t := pick(r, tU8, tU16, tI32, reflect.TypeOf(int64(0)))
			n := r.in(int(t.Size())*8+1, 255)
			return fault{st(exprField(r, "F", t, "", "bits", fmt.Sprint(n))), opCodec, "more bits than the type has"}
		}
	case 4: // failing expressions
		fs := exprBase()
		if r.p(20) { // results of another kind than the field
			// A B S N T: uint8 uint8 []byte string bool
			t, xs := tStr, []string{"A", "65", "S", "T", "A + B", "'a'", "1.5", "N[0]", "N == N", "U"}
			switch r.n(4) {
			case 0:
				t, xs = tBS, []string{"N", "A", "T", "\"ab\"", "N + N", "65", "U", "S[0]"}
			case 1:
				t, xs = pick(r, tU8, tU16, tI32, tF64), []string{"N", "S", "T", "\"a\"", "A == B", "N + \"1\"", "U"}
			case 2:
				t, xs = tBool, []string{"A", "1", "0", "N", "S", "\"true\"", "U"}
			}
			fs = append(fs, fieldOf("U", tU16S, "size=1"))
			key := pick(r, "in", "out")
			fs = append(fs, exprField(r, "F", t, map[reflect.Type]string{tStr: "[2]byte", tBS: "[2]byte"}[t], key, pick(r, xs...)))
			return fault{filled(reflect.StructOf(fs)), map[string]op{"in": opUnpack, "out": opPack}[key], "result of another kind for " + key}
		}
		x := pick(r, failingExprs...)
		key := pick(r, "if", "if", "size", "bits", "while", "in", "out", "switch", "case")
		if xs := wrongKind[key]; xs != nil && r.p(30) {
			x = pick(r, xs...)
		}
		return fault{exprFault(r, fs, key, x), map[string]op{"if": opAll, "size": opCodec, "bits": opAll, "while": opUnpack, "in": opUnpack, "out": opPack, "switch": opAll, "case": opAll}[key], "expression for " + key}
	case 5: // switches
		fs := []reflect.StructField{fieldOf("A", tU8, "")}
		u := func(t reflect.Type) reflect.Value {
			return st(append(fs, exprField(r, "F", t, "", "switch", "A"))...)
		}
		switch r.n(3) {
		case 0:
			return fault{u(pick(r, tU8, tStr, tBS, tU16S, reflect.TypeOf([2]QSub{}), reflect.TypeOf((*uint8)(nil)), tF64)), opAll, "switch on something else than a struct"}
		case 1:
			return fault{u(reflect.StructOf([]reflect.StructField{fieldOf("X", tU8, "default"), fieldOf("Y", tU16, "default")})), opAll, "two defaults"}
		default:
			return fault{u(reflect.StructOf([]reflect.StructField{fieldOf("X", tU8, "case=0"), fieldOf("Y", tU16, ""), fieldOf("Z", tU8, "case=1")})), opAll, "no case"}
		}
	case 6: // values too long
		switch r.n(4) {
		case 0:
			v := st(fieldOf("F", pick(r, tStr, tBS, tU16S), pick(r, "[2]byte", "[1]byte", "[0]byte")))
			return fault{v, opPack, "longer than the array"}
		case 1:
			v := st(fieldOf("C", tU8, pick(r, "uint8:1,sizeof=L", "int8:2,sizeof=L")), fieldOf("P", tU8, "uint8:6"), fieldOf("L", pick(r, tStr, tBS, tU16S), ""))
			return fault{v, opPack, "count does not fit"}
		case 2:
			v := st(fieldOf("C", pick(r, tU8, reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0))), "sizeof=L"), fieldOf("L", pick(r, tStr, tBS, tU16S), ""))
			n := 65536
			if v.FieldByName("C").Type().Size() == 1 {
				n = 256
			}
			resize(v.FieldByName("L"), n+r.n(3))
			return fault{v, opPack, "count does not fit"}
		default:
			v := st(exprField(r, "F", pick(r, tStr, tBS, tU16S), "", "size", pick(r, "2", "4", "0", "1 + 1")))
			return fault{v, opPack, "not the length of the expression"}
		}
	case 7: // codecs
		return rudeFault(r)
	default: // tags
		return fault{st(fieldOf("F", pick(r, tU8, tU16, tI32, tBool, tBS, tStr), badTag(r))), opAll, "malformed tag"}
	}
}

// exprFault attaches an expression that must fail.
func exprFault(r *rng, fs []reflect.StructField, key, x string) reflect.Value {
	switch key {
	case "if":
		fs = append(fs, exprField(r, "F", pick(r, tU8, tStr, tBS, tF64, reflect.TypeOf(QSub{})), "", key, x))
	case "size":
		fs = append(fs, exprField(r, "F", pick(r, tStr, tBS, tU16S), "", key, x))
	case "while":
		fs = append(fs, exprField(r, "F", pick(r, tBS, tU16S), "", key, x))
	case "bits", "in", "out":
		fs = append(fs, exprField(r, "F", pick(r, tU8, tU16, tI32), "", key, x))
	case "switch":
		fs = append(fs, exprField(r, "F", reflect.StructOf([]reflect.StructField{fieldOf("X", tU8, "case=1"), fieldOf("Y", tU16, "default")}), "", key, x))
	default:
		g := []reflect.StructField{exprField(r, "X", tU8, "", "case", x), fieldOf("Y", tU16, "default")}
		if r.p(50) {
			g[0], g[1] = g[1], g[0]
		}
		fs = append(fs, fieldOf("F", reflect.StructOf(g), "switch=A"))
	}
	v := filled(reflect.StructOf(fs))
	v.Field(2).SetLen(2)
	return v
}

// Codecs that misbehave. What they do is up to the rude variable.
type (
	Rude    struct{ X uint16 }
	RudeVal uint8
)

var rude int

var rudeErr = errors.New("rude")

func (q *Rude) SizeOf() int {
	switch rude {
	case 1:
		panic("size")
	case 2:
		return -1
	case 3:
		panic(rudeErr)
	case 29:
		var x interface{} = "x"
		return x.(int)
	case 30:
		return 1 / (rude - 30)
	case 31:
		panic(oddError{1, "odd"})
	case 32:
		return *(*int)(nil)
	}
	return 2
}

func rudely(buf []byte) ([]byte, error) {
	switch rude {
	case 4:
		panic("codec")
	case 5:
		return nil, rudeErr
	case 6:
		panic(rudeErr)
	case 7:
		return buf, rudeErr
	case 8:
		return nil, nil
	case 9:
		return make([]byte, 1), nil
	case 10:
		return buf, nil
	case 11:
		_ = buf[len(buf)]
	case 12:
		var m map[string]int
		m["x"] = 1
	case 13:
		return append(make([]byte, 0, 64), buf...), nil
	case 14:
		var x interface{} = "x"
		_ = x.(int)
	case 15:
		_ = 1 / len(buf[:0])
	case 16:
		reflect.ValueOf(1).SetInt(2)
	case 17:
		panic(oddError{len(buf), "odd"})
	case 18:
		panic(errors.Join(rudeErr, io.EOF))
	case 19:
		panic(nil)
	case 20:
		panic(len(buf))
	case 21:
		var p *Rude
		p.X++
	case 22:
		reflect.ValueOf(buf).Field(1)
	case 23:
		panic(&oddError{1, "odd"})
	case 24:
		panic(buf)
	case 25:
		return nil, io.EOF
	case 26:
		return buf, io.ErrUnexpectedEOF
	case 27:
		_ = make([]byte, len(buf)-1<<40)
	case 28:
		var f func()
		f()
	}
	return buf[2:], nil
}

// oddError is an error of its own kind.
type oddError struct {
	n int
	s string
}

func (e oddError) Error() string { return e.s }

func (q *Rude) Pack(buf []byte, o binary.ByteOrder) ([]byte, error)   { return rudely(buf) }
func (q *Rude) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) { return rudely(buf) }

func (q RudeVal) SizeOf() int {
	if rude == 2 {
		return -5
	}
	if rude == 1 || rude == 3 || rude >= 29 {
		panic(fmt.Sprint("size ", rude))
	}
	return 2
}
func (q RudeVal) Pack(buf []byte, o binary.ByteOrder) ([]byte, error)    { return rudely(buf) }
func (q *RudeVal) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) { return rudely(buf) }

func rudeFault(r *rng) fault {
	t := pick(r, reflect.TypeOf(Rude{}), reflect.TypeOf(RudeVal(0)))
	if r.p(40) {
		t = pick(r, reflect.PtrTo(t), reflect.ArrayOf(2, t))
	}
	fs := []reflect.StructField{fieldOf("F", t, "")}
	if r.p(50) {
		fs = append(fs, fieldOf("G", tU16, ""))
	}
	v := filled(reflect.StructOf(fs))
	rude = r.in(1, 32)
	switch {
	case rude == 2 && t.Kind() != reflect.Array && len(fs) == 1:
		return fault{v, opPack, "codec of negative size"}
	case rude == 1 || rude == 3 || rude >= 29:
		return fault{v, opPack | opSize | opBits, "codec whose size fails"}
	case rude >= 4 && rude <= 7 || rude == 11 || rude == 12 || rude >= 14:
		return fault{v, opCodec, "codec that fails"}
	}
	return fault{v, 0, "codec that misbehaves"}
}

func (c *Ctx) mustFail(o op, order binary.ByteOrder, data []byte, arg interface{}, why string) bool {
	out, err, pan := outcomeOf(o, order, data, arg)
	c.Eval(1)
	if pan != "" {
		c.Fail("%s panics on %s: %s\n type %T %s", o, why, pan, arg, describe(arg))
		return false
	}
	if err == nil {
		c.Fail("%s accepts %s: %s\n type %T %s", o, why, out, arg, describe(arg))
		return false
	}
	return true
}

func describe(arg interface{}) string {
	if v := reflect.ValueOf(arg); v.Kind() == reflect.Ptr && !v.IsNil() && v.Type().Elem().Kind() == reflect.Struct {
		if s := v.Type().String(); !strings.Contains(s, "main.Q") {
			return dump(v.Elem())
		}
	}
	return ""
}

func faultCase(c *Ctx) {
	r := c.R
	rude = 0
	f := newFault(r)
	defer func() { rude = 0 }()
	v := wrap(r, f.v, 3)
	c.Distinct(hashStr(f.class + tname(f.v.Type())))
	c.Count("fault_"+strings.ReplaceAll(f.class, " ", "_"), 1)
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	ones := bytes.Repeat([]byte{1}, 256)
	for i := 0; i < 2; i++ {
		for _, k := range r.perm(4) {
			o := eachOp[k]
			arg := p.Interface()
			if o != opUnpack && r.p(30) {
				arg = v.Interface()
			}
			if o == opUnpack {
				arg = reflect.New(v.Type()).Interface()
			}
			order := orderOf(r.p(50))
			if f.ops&o != 0 {
				c.mustFail(o, order, ones, arg, f.class)
				continue
			}
			if _, _, pan := outcomeOf(o, order, ones, arg); pan != "" {
				c.Fail("%s panics on %s: %s\n type %s", o, f.class, pan, tname(v.Type()))
			}
		}
	}
	rude = 0
	if f.class == "longer than the array" || f.class == "count does not fit" || strings.HasPrefix(f.class, "codec") {
		// There is nothing wrong with the type: it must be usable afterwards.
		c.recovers(v.Type())
	}
}

// recovers uses a type with fitting values after a failure.
func (c *Ctx) recovers(t reflect.Type) {
	if strings.Contains(t.String(), "Rude") {
		w := reflect.New(t)
		if err, pan := unpack(bytes.Repeat([]byte{1}, 256), orderOf(c.R.p(50)), w.Interface()); err != nil || pan != "" {
			c.Fail("Unpack fails after codecs stopped failing: %v %s\n type %s", err, pan, tname(t))
		}
		if _, err, pan := pack(orderOf(c.R.p(50)), w.Interface()); err != nil || pan != "" {
			c.Fail("Pack fails after codecs stopped failing: %v %s\n type %s", err, pan, tname(t))
		}
		return
	}
	v := reflect.New(t).Elem()
	little := c.R.p(50)
	c.checkBytes(v, little, false)
	if e, _, err := reference(v, little, false); err == nil {
		c.checkUnpack(e.w.b, reflect.New(t).Elem(), little, "after a failure", diffAll)
	}
}

// ---- arguments of every kind

type hiddenPair struct{ a, b int }

func oddArgs(r *rng) []interface{} {
	x, s, m := 5, []byte("abc"), map[string]int{"a": 1}
	var np *QPlain
	var ni interface{}
	var ne error
	pp := &np
	qp := &QPlain{}
	qpp := &qp
	var u *CVar
	ch := make(chan int)
	a3 := [3]uint16{1, 2, 3}
	return []interface{}{
		nil, np, pp, &pp, qpp, &qpp, &ni, &ne, x, &x, s, &s, "str", new(string), m, &m, ch, &ch, func() {}, a3, &a3, 1.5, new(float32), complex(1, 2), true, new(bool),
		uintptr(7), new(uintptr), hiddenPair{1, 2}, &hiddenPair{}, struct{}{}, &struct{}{}, []QSub{{}, {}}, &[]QSub{{}, {}}, []*QSub{nil, {}}, [2]QSub{}, &[2]QSub{}, []interface{}{1, nil, "x"}, &[]interface{}{1},
		reflect.ValueOf(1), reflect.TypeOf(1), errors.New("x"), QPlain{}, u, &u, CVar{}, &CVar{}, CFix{}, (*CFix)(nil), unsafe.Pointer(nil), new(unsafe.Pointer), struct{ E error }{}, &struct{ E error }{errors.New("y")},
		struct{ I interface{} }{5}, &struct{ I interface{} }{&x}, struct{ P **uint8 }{}, &struct{ P **uint8 }{}, &struct{ M map[string]QPlain }{}, &struct{ C chan int }{}, &struct{ F func() }{}, &struct{ A [0]func() }{}, &struct {
			R reflect.Value
			T reflect.Type
		}{},
	}
}

// settable tells whether an argument can be unpacked into at all.
func settable(arg interface{}) bool {
	if _, ok := arg.(restruct.Unpacker); ok {
		return true
	}
	v := reflect.ValueOf(arg)
	return v.Kind() == reflect.Ptr && !v.IsNil()
}

func oddCase(c *Ctx) {
	r := c.R
	args := oddArgs(r)
	i := r.n(len(args))
	arg := args[i]
	c.Distinct(hashStr(fmt.Sprintf("%d %T", i, arg)))
	c.Count("odd_arguments", 1)
	order := orderOf(r.p(50))
	if r.p(10) {
		order = nil
	}
	data := r.bytes(r.n(40))
	v := reflect.ValueOf(arg)
	isNil := arg == nil || v.Kind() == reflect.Ptr && v.IsNil()
	for k := 0; k < 3; k++ {
		o := pick(r, eachOp...)
		switch {
		case isNil:
			c.mustFail(o, order, data, arg, "a nil argument")
		case o == opUnpack && !settable(arg):
			c.mustFail(o, order, data, arg, "a destination that cannot be set")
		default:
			_, err, pan := outcomeOf(o, order, data, arg)
			c.Eval(1)
			if pan != "" {
				c.Fail("%s(%T) panics: %s", o, arg, pan)
			}
			if err != nil {
				c.Count("rejected", 1)
			}
		}
	}
}

// Values without an end.
func endless(c *Ctx) {
	l := &DList{More: 1}
	l.Next = l
	k := &DKids{N: 1, Kids: make([]DKids, 1)}
	k.Kids[0] = DKids{1, k.Kids}
	s := &DSwitch{N: 1}
	s.S.A = s
	x := &DList{More: 1, Next: &DList{More: 1}}
	x.Next.Next = x
	arg := []interface{}{l, k, s, x}[c.N%4]
	c.Count("endless", 1)
	c.Distinct(uint64(c.N % 4))
	for _, o := range eachOp {
		if o != opUnpack {
			_, err, pan := outcomeOf(o, orderOf(true), nil, arg)
			c.Eval(1)
			if err == nil || pan != "" {
				c.Fail("%s of a value that contains itself gives %v %s (%T)", o, err, pan, arg)
			}
		}
	}
	c.canaries(2, true)
}

// ---- arbitrary definitions

var (
	soupTypes = []string{"uint8", "int8", "uint16", "int16:9", "uint32:31", "int", "uint", "uint64", "int64:33", "bool", "float32", "float64", "complex64", "complex128", "string", "byte", "rune", "uintptr",
		"[]byte", "[3]byte", "[0]byte", "[2]uint16", "[]int16", "[4]bool", "*uint8", "**int", "[2][3]byte", "[]string", "[]*uint8", "[7]float32", "float32:9", "complex64:7", "foo", "[1", "uint8:9"}
	soupIdents = []string{"A", "B", "C", "D", "E", "F", "_eof", "bits", "N", "S[0]", "A.B", "nil", "true", "false"}
	soupAtoms  = []string{"0", "1", "2", "3", "5", "9", "\"x\"", "'a'", "1.5", "A", "B", "C", "D", "E", "_eof", "true", "false", "bits.Len8(A)", "B[0]", "C[1]", "D.A", "Nope", "nil"}
	soupOps    = []string{"+", "-", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "%", "/", "&^", ">>"}
)

func soupExpr(r *rng, depth int) string {
	switch {
	case depth == 0 || r.p(30):
		return pick(r, soupAtoms...)
	case r.p(60):
		return soupExpr(r, depth-1) + " " + pick(r, soupOps...) + " " + soupExpr(r, depth-1)
	case r.p(30):
		return pick(r, "-", "!", "^", "+", "*", "&") + soupExpr(r, depth-1)
	case r.p(30):
		return "(" + soupExpr(r, depth-1) + ")"
	case r.p(30):
		return soupExpr(r, depth-1) + " ? " + soupExpr(r, depth-1) + " : " + soupExpr(r, depth-1)
	}
	return soupExpr(r, depth-1) + pick(r, ".A", "[0]", "(1)", "()", " ?", ")", "(", "[", " 1")
}

func soupTag(r *rng) string {
	if r.p(5) {
		return "-"
	}
	var parts []string
	for i := r.n(4); i > 0; i-- {
		var s string
		switch r.n(9) {
		case 0, 1, 2:
			s = pick(r, soupTypes...)
		case 3:
			s = pick(r, "big", "little", "lsb", "msb", "network", "variantbool", "invertedbool", "default", "default")
		case 4:
			s = pick(r, "sizeof=", "sizefrom=") + pick(r, soupIdents...)
		case 5:
			s = "skip=" + fmt.Sprint(r.n(20))
			if r.p(5) {
				s = "skip=" + pick(r, "0x10", "010", "9223372036854775807", "2305843009213693952", "4611686018427387904", "x", "", "-1")
			}
		case 6:
			s = pick(r, "root", "parent")
		default:
			s = pick(r, exprKeys...) + "=" + soupExpr(r, 2)
		}
		parts = append(parts, s)
	}
	s := strings.Join(parts, ",")
	if r.p(6) && len(s) > 0 {
		b := []byte(s)
		switch r.n(3) {
		case 0:
			b[r.n(len(b))] = byte(r.in(1, 126))
		case 1:
			b = b[:r.n(len(b))]
		default:
			b = append(b, byte(r.in(1, 126)))
		}
		s = string(b)
	}
	return s
}

var soupNatives = []reflect.Type{
	tU8, tU8, tU16, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), tBool, tF64, reflect.TypeOf(float32(0)), reflect.TypeOf(complex64(0)), tStr, tStr, tBS, tBS, tU16S, reflect.TypeOf([3]uint8{}), reflect.TypeOf([2]uint16{}),
	reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*uint8)(nil)), reflect.TypeOf((**uint8)(nil)),
	reflect.TypeOf([]string(nil)), reflect.TypeOf([]*uint8(nil)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(CVar{}), reflect.TypeOf(CFix{}), reflect.TypeOf(CByte(0)), reflect.TypeOf((*CNest)(nil)), reflect.TypeOf(CMap(nil)),
	reflect.TypeOf(Rude{}), reflect.TypeOf(RudeVal(0)), reflect.TypeOf([0]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([2]struct{}{}), reflect.TypeOf([]bool(nil)), reflect.TypeOf(NBool(false)), reflect.TypeOf(NString("")), reflect.TypeOf(OSize{}), reflect.TypeOf(OBits{}),
}

func soupStruct(r *rng, depth int) reflect.Type {
	names := []string{"A", "B", "C", "D", "E", "F", "N", "S"}
	var fs []reflect.StructField
	n := r.in(1, 6)
	sw := r.p(10)
	for i := 0; i < n; i++ {
		t := pick(r, soupNatives...)
		if depth > 0 && r.p(25) {
			t = soupStruct(r, depth-1)
			switch r.n(6) {
			case 0:
				t = reflect.SliceOf(t)
			case 1:
				t = reflect.ArrayOf(r.n(4), t)
			case 2:
				t = reflect.PtrTo(t)
			}
		}
		f := reflect.StructField{Name: names[i], Type: t}
		if r.p(5) {
			f.Name, f.PkgPath = pick(r, "_", "low"+names[i]), pkgPath
			if i > 0 && fs[i-1].Name == "_" {
				f.Name = "low" + names[i]
			}
		}
		tag := soupTag(r)
		if sw && r.p(80) {
			tag = pick(r, "case=", "case=", "default,case=") + soupExpr(r, 1) + "," + tag
			tag = strings.TrimSuffix(tag, ",")
		}
		if i > 0 && r.p(25) && (t.Kind() == reflect.Slice || t.Kind() == reflect.String) {
			tag = pick(r, "sizefrom="+names[r.n(i)], "size="+names[r.n(i)])
		}
		text := ""
		if tag != "" || r.p(10) {
			text = "struct:" + quoteTag(tag)
		}
		if r.p(15) {
			text += " struct-" + pick(r, exprKeys...) + ":" + quoteTag(soupExpr(r, 2))
		}
		f.Tag = reflect.StructTag(text)
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func fillSoup(r *rng, v reflect.Value, depth int) {
	if !v.CanSet() || depth == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.p(50))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(int64(pick(r, 0, 1, 2, 3, -1, r.n(256)-128)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		v.SetUint(uint64(pick(r, 0, 1, 2, 3, r.n(256))))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.n(100)) / 4)
	case reflect.String:
		v.SetString(string(r.bytes(r.n(6))))
	case reflect.Slice:
		n := r.n(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fillSoup(r, v.Index(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillSoup(r, v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillSoup(r, v.Field(i), depth-1)
		}
	case reflect.Ptr:
		if r.p(70) {
			v.Set(reflect.New(v.Type().Elem()))
			fillSoup(r, v.Elem(), depth-1)
		}
	case reflect.Map:
		if r.p(50) {
			v.Set(reflect.MakeMap(v.Type()))
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(pick(r, []interface{}{5, "x", []byte{1}, 1.5, true, &QSub{}}...)))
		}
	}
}

func soupCase(c *Ctx) {
	r := c.R
	rude = pick(r, 0, 0, 0, 0, r.n(14))
	defer func() { rude = 0 }()
	t := soupStruct(r, 2)
	c.Distinct(hashStr(t.String()))
	c.Count("arbitrary_definitions", 1)
	for i := 0; i < 3; i++ {
		seed := r.u64()
		make := func() reflect.Value {
			v := reflect.New(t)
			fillSoup(newRng(seed), v.Elem(), 6)
			return v
		}
		data := r.bytes(r.n(60))
		if r.p(30) {
			data = bytes.Repeat([]byte{byte(r.n(4))}, r.n(60))
		}
		order := orderOf(r.p(50))
		var first [4]string
		for round := 0; round < 2; round++ {
			for _, k := range r.perm(4) {
				o := eachOp[k]
				v := make()
				arg := v.Interface()
				out, err, pan := outcomeOf(o, order, append([]byte(nil), data...), arg)
				c.Eval(1)
				if pan != "" {
					c.Fail("%s panics: %s\n type %s", o, pan, tname(t))
					return
				}
				if err != nil {
					c.Count("rejected", 1)
				} else {
					c.Count("accepted", 1)
				}
				if o == opUnpack && err == nil {
					out = "unpacked"
				}
				if round == 0 {
					first[k] = out
				} else if first[k] != out {
					c.Fail("%s gives %s the first time and %s the second\n data %s\n type %s", o, first[k], out, hx(data), tname(t))
				}
			}
		}
	}
	if c.N%97 == 0 {
		c.Sample("%s", tname(t))
	}
}

// ---- failing and valid calls on the same type

type fickle struct {
	A, B uint8
	X    uint8    `struct:"if=A / B == 1"`
	S    []uint8  `struct:"size=2"`
	Y    uint16   `struct-if:"S[A & 3] == 7"`
	N    uint8    `struct:"uint8:7,sizeof=L"`
	Z    uint8    `struct-bits:"B + 1"`
	L    []uint16 `struct-if:"B < 100"`
}

func interleaved(c *Ctx) {
	r := c.R
	var t reflect.Type
	var q *prof
	p := generalProf
	p.Cust, p.Fixed, p.Count = 15, 15, 20
	t, q = c.newType(p)
	vg := newVgen(r, q)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		e, _, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		for j := r.in(1, 3); j > 0; j-- {
			c.Count("failing_calls", 1)
			switch r.n(7) {
			case 0:
				if len(e.w.b) > 0 {
					unpack(e.w.b[:r.n(len(e.w.b))], orderOf(little), reflect.New(t).Interface())
				}
			case 1:
				c.mustFail(opUnpack, orderOf(little), e.w.b, reflect.Zero(t).Interface(), "a destination that cannot be set")
			case 2:
				c.mustFail(pick(r, eachOp...), orderOf(little), e.w.b, reflect.Zero(reflect.PtrTo(t)).Interface(), "a nil argument")
			case 3:
				if w := deepCopy(v); tooLong(r, w) {
					if _, _, err := reference(w, little, false); err == errBad {
						c.mustFail(opPack, orderOf(little), nil, w.Addr().Interface(), "a value that is too long")
					}
				}
			case 4:
				var n int
				withLog(0, func() { pack(orderOf(little), deepCopy(v).Addr().Interface()) })
				l := withLog(0, func() { pack(orderOf(little), deepCopy(v).Addr().Interface()) })
				n = len(callsOf(l, "pack"))
				if n > 0 {
					withLog(r.in(1, n), func() {
						_, err, pan := pack(orderOf(little), deepCopy(v).Addr().Interface())
						c.Eval(1)
						if pan != "" || err != errInjected {
							c.Fail("Pack returns %v %s for a codec that failed\n type %s", err, pan, tname(t))
						}
					})
				}
			case 5:
				if w := deepCopy(v); wrongLength(r, w) {
					pack(orderOf(little), w.Addr().Interface())
				}
			default:
				unpack(hostile(r, e.w.b), orderOf(little), reflect.New(t).Interface())
			}
		}
		switch r.n(3) {
		case 0:
			c.checkBytes(v, little, r.p(30))
		case 1:
			c.checkUnpack(e.w.b, reflect.New(t).Elem(), little, "after failures", diffAll)
		default:
			c.checkRoundTrip(v, little)
		}
	}
}

// fickleCase uses one definition, whose expressions fail for some values only,
// again and again.
func fickleCase(c *Ctx) {
	r := c.R
	c.Distinct(hashStr("fickle") + uint64(c.N%64))
	t := reflect.TypeOf(fickle{})
	for i := 0; i < 12; i++ {
		s := pick(r, 2, 2, 2, 2, 1)
		v := fickle{A: uint8(r.n(6)), B: uint8(pick(r, 0, 1, 2, 3, 7, 8, 9)), S: make([]uint8, s), L: make([]uint16, pick(r, 0, 1, 5, 127, 128))}
		for j := range v.S {
			v.S[j] = uint8(pick(r, 7, 8))
		}
		bad := v.B == 0 || len(v.S) != 2 || int(v.A&3) >= 2 || len(v.L) > 127 || v.B+1 > 8
		little := r.p(50)
		order := orderOf(little)
		if bad {
			c.Count("fickle_failures", 1)
			c.mustFail(opPack, order, nil, &v, "values its expressions fail for")
			continue
		}
		c.Count("fickle_successes", 1)
		c.checkBytes(reflect.ValueOf(&v).Elem(), little, r.p(30))
		w := reflect.ValueOf(&v).Elem()
		if e, _, err := reference(w, little, false); err == nil {
			c.checkUnpack(e.w.b, reflect.New(t).Elem(), little, "image", diffAll)
		}
	}
}

// ---- expressions that were not enabled

func disabledCase(c *Ctx) {
	r := c.R
	p := generalProf
	p.If, p.SizeE, p.BitsE, p.InOut, p.Sw, p.While, p.Stat = 12, 12, 8, 8, 8, 8, 0
	if r.p(30) {
		p.If, p.SizeE, p.BitsE, p.InOut, p.Sw, p.While = 0, 0, 0, 0, 0, 0
	}
	t, q := c.newType(p)
	exprs := hasExprs(t, nil)
	vg := newVgen(r, q)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		e, _, err := reference(v, little, false)
		if err != nil {
			continue
		}
		refEvals = 0
		after := deepCopy(v)
		prep(after)
		refEvals = 0
		refEncode(after, little, false)
		used := refEvals
		b, err, pan := pack(orderOf(little), deepCopy(v).Addr().Interface())
		c.Eval(1)
		c.judgeDisabled("Pack", exprs, used, err, pan, bytes.Equal(b, e.w.b), t)
		n, err, pan := sizeOf(deepCopy(v).Addr().Interface())
		c.judgeDisabled("SizeOf", exprs, 0, err, pan, n == len(e.w.b), t)
		n, err, pan = bitSize(deepCopy(v).Interface())
		c.judgeDisabled("BitSize", exprs, 0, err, pan, n == e.w.n, t)
		refEvals = 0
		_, want, err := refUnpack(e.w.b, reflect.New(t).Elem(), little, false)
		if err != nil {
			continue
		}
		used = refEvals
		got := reflect.New(t)
		err, pan = unpack(e.w.b, orderOf(little), got.Interface())
		c.judgeDisabled("Unpack", exprs, used, err, pan, err != nil || diff(want, got.Elem(), diffWire) == "", t)
	}
	c.canaries(1, false)
}

func (c *Ctx) judgeDisabled(what string, exprs bool, used int, err error, pan string, same bool, t reflect.Type) {
	c.Eval(1)
	switch {
	case pan != "":
		c.Fail("%s with expressions disabled panics: %s\n type %s", what, pan, tname(t))
	case used > 0 && err == nil:
		c.Fail("%s succeeds though it needs expressions, which are disabled\n type %s", what, tname(t))
	case used > 0:
		c.Count("disabled_refused", 1)
	case err != nil && !exprs:
		c.Fail("%s of a type without expressions fails when they are disabled: %v\n type %s", what, err, tname(t))
	case err == nil && !same:
		c.Fail("%s with expressions disabled gives another result\n type %s", what, tname(t))
	default:
		c.Count("disabled_allowed", 1)
	}
}

func init() {
	const disabled = 2500
	register(&Check{ID: "C09",
		Rule:  fmt.Sprintf("The first %d cases run before expressions are enabled, on generated definitions with and without them: whatever needs an expression must fail, the rest must work. The others mix: a catalogue of faults of ten classes at any nesting (each operation named by its class must return an error, twice); odd and nil arguments; values that contain themselves; arbitrary structs with arbitrary tags, values and misbehaving codecs (nothing may panic or depend on repetition); failing calls followed by judged valid calls on the same type. After each case, operations on other types are compared with results known beforehand. Non-trivial: distinct definitions.", disabled),
		Quick: 200000, Thorough: 3000000, NoExpr: disabled,
		Case: func(c *Ctx) {
			resetGenerated()
			if c.N < disabled {
				disabledCase(c)
				return
			}
			if c.N < disabled+4 {
				endless(c)
				return
			}
			switch k := c.R.n(100); {
			case k < 35:
				faultCase(c)
			case k < 70:
				soupCase(c)
			case k < 78:
				oddCase(c)
			case k < 81:
				fickleCase(c)
			default:
				interleaved(c)
			}
			c.canaries(1, true)
		}})
}
