package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

// ---- C14

// callsOf extracts the pack or unpack calls of a log.
func callsOf(l *codecLog, op string) (out []codecCall) {
	for _, k := range l.calls {
		if k.Op == op {
			out = append(out, k)
		}
	}
	return
}

// judgeCalls compares observed codec calls with the ones the reference makes.
func (c *Ctx) judgeCalls(got []codecCall, events []Event, op string, total, first int, what string) {
	var want []Event
	for _, ev := range events {
		if k := customByName[ev.Type]; ev.Custom && (op == "pack" && k.Enc != nil || op == "unpack" && k.Dec != nil) {
			want = append(want, ev)
		}
	}
	c.Eval(1)
	c.Count("codec_calls", len(got))
	if len(got) != len(want) {
		c.Fail("%s: %d calls of custom codecs, want %d\n got %v\n want %v", what, len(got), len(want), got, want)
		return
	}
	for i, k := range got {
		w := want[i]
		if k.Type != w.Type {
			c.Fail("%s: call %d is for %s, want %s at %s", what, i, k.Type, w.Type, w.Path)
			return
		}
		if n := total - w.Pos/8; k.Len != n {
			c.Fail("%s: call %d (%s at %s) is given %d bytes, want the %d not consumed", what, i, k.Type, w.Path, k.Len, n)
			return
		}
		if k.Order == nil || isLittle(k.Order) != w.Little {
			c.Fail("%s: call %d (%s at %s) is given order %v", what, i, k.Type, w.Path, k.Order)
			return
		}
	}
}

func withLog(fail int, fn func()) *codecLog {
	l := &codecLog{fail: fail}
	errInjected = someErrors[fail%len(someErrors)]
	theLog.Store(l)
	fn()
	theLog.Store(nil)
	return l
}

func checkCalls(c *Ctx, v reflect.Value, little bool) {
	r := c.R
	e, after, err := reference(v, little, true)
	if err != nil {
		c.Count("outside_domain", 1)
		return
	}
	t := v.Type()
	o := orderOf(little)
	where := fmt.Sprintf("%s\n value %s\n type %s", lname(little), dump(v), tname(t))
	in := deepCopy(v)
	arg := in.Addr().Interface()
	if r.p(30) {
		arg = in.Interface()
	}
	var b []byte
	var perr error
	var pan string
	log := withLog(0, func() { b, perr, pan = pack(o, arg) })
	if perr != nil || pan != "" || !bytes.Equal(b, e.w.b) {
		c.Fail("Pack gives %s (%v %s), want %s: %s", hx(b), perr, pan, hx(e.w.b), where)
		return
	}
	packs := callsOf(log, "pack")
	c.judgeCalls(packs, e.events, "pack", len(e.w.b), 0, "Pack "+where)
	for _, arg := range []interface{}{in.Interface(), in.Addr().Interface()} {
		n, err, pan := sizeOf(arg)
		if err != nil || pan != "" || n != len(e.w.b) {
			c.Fail("SizeOf is %d (%v %s), want %d: %s", n, err, pan, len(e.w.b), where)
		}
		n, err, pan = bitSize(arg)
		if err != nil || pan != "" || n != e.w.n {
			c.Fail("BitSize is %d (%v %s), want %d: %s", n, err, pan, e.w.n, where)
		}
		c.Eval(2)
	}
	if len(packs) > 0 {
		k := r.in(1, len(packs))
		log := withLog(k, func() { b, perr, pan = pack(o, arg) })
		c.Eval(1)
		c.Count("injected_failures", 1)
		if pan != "" || !errors.Is(perr, errInjected) {
			c.Fail("call %d of %d of a codec fails, but Pack returns %v %s: %s", k, len(packs), perr, pan, where)
		} else if n := len(callsOf(log, "pack")); n != k {
			c.Fail("Pack calls %d codecs after a failure: %s", n-k, where)
		} else if len(b) != 0 {
			c.Fail("Pack returns data %s along with an error: %s", hx(b), where)
		}
	}
	if hasNil(v) {
		return
	}
	// Unpacking, with something left over or not.
	data := append(append([]byte(nil), e.w.b...), r.bytes(r.n(2)*r.n(6))...)
	dst := newVgen(r, &prof{}).fresh(t)
	if r.p(50) {
		dst = reflect.New(t).Elem()
	}
	d := &refDec{in: bitbuf{b: data, n: 8 * len(data)}, end: 8 * len(data), trace: true}
	want := deepCopy(dst)
	if err := d.run(want, little); err != nil {
		if noExpect(err) {
			return
		}
		// Fields that reach to the end, or depend on what was there before.
		c.checkUnpack(data, dst, little, "image", diffAll)
		return
	}
	got := deepCopy(dst)
	var uerr error
	log = withLog(0, func() { uerr, pan = unpack(data, o, got.Addr().Interface()) })
	if uerr != nil || pan != "" {
		c.Fail("Unpack fails: %v %s\n data %s: %s", uerr, pan, hx(data), where)
		return
	}
	unpacks := callsOf(log, "unpack")
	c.judgeCalls(unpacks, d.events, "unpack", len(data), 0, "Unpack "+where)
	if s := diff(want, got, diffAll); s != "" {
		c.Fail("Unpack gives the wrong value (want != got): %s\n data %s: %s", s, hx(data), where)
	}
	_ = after
	if len(unpacks) > 0 {
		k := r.in(1, len(unpacks))
		got := deepCopy(dst)
		log := withLog(k, func() { uerr, pan = unpack(data, o, got.Addr().Interface()) })
		c.Eval(1)
		c.Count("injected_failures", 1)
		if pan != "" || !errors.Is(uerr, errInjected) {
			c.Fail("call %d of %d of a codec fails, but Unpack returns %v %s: %s", k, len(unpacks), uerr, pan, where)
		} else if n := len(callsOf(log, "unpack")); n != k {
			c.Fail("Unpack calls %d codecs after a failure: %s", n-k, where)
		}
	}
	c.checkUnpack(perturb(r, data), dst, little, "damaged image", diffAll)
	if len(data) > 0 {
		c.checkUnpack(data[:r.n(len(data))], dst, little, "cut image", diffAll)
	}
}

// MVal is a codec that unpacks without a pointer.
type MVal map[string]int

func (m MVal) SizeOf() int { return 2 }
func (m MVal) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	o.PutUint16(buf, uint16(m["x"]))
	return buf[2:], nil
}
func (m MVal) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, errSmall
	}
	m["x"] = int(o.Uint16(buf))
	return buf[2:], nil
}

// topCodec uses a codec as the top-level value.
func topCodec(c *Ctx) {
	r := c.R
	k := pick(r, customList...)
	if r.p(5) {
		m := MVal{"x": r.n(60000)}
		little := r.p(50)
		b, err, pan := pack(orderOf(little), m)
		m2 := MVal{}
		uerr, pan2 := unpack(b, orderOf(little), m2)
		c.Eval(2)
		if err != nil || uerr != nil || pan+pan2 != "" || len(b) != 2 || int(g16(b, little)) != m["x"] || m2["x"] != m["x"] {
			c.Fail("a codec with value receivers at top level: packed %v to %s (%v %s), unpacked %v (%v %s)", m, hx(b), err, pan, m2, uerr, pan2)
		}
		if err, pan := unpack(b[:1], orderOf(little), m2); err == nil || pan != "" {
			c.Fail("a failing codec with value receivers at top level: %v %s", err, pan)
		}
		return
	}
	c.Distinct(hashStr("top " + k.Name))
	for i := 0; i < 4; i++ {
		v := reflect.New(k.T).Elem()
		k.Gen(r, v)
		checkCalls(c, v, r.p(50))
	}
}

// ---- C15, C16

// leaves lists the fields that are encoded as part of v.
func leaves(v reflect.Value, fn func(f *Fd, sv, fv reflect.Value)) {
	walkPresent(v, func(st *St, sv reflect.Value) {
		for _, f := range st.F {
			if !f.active() || f.Root || f.Parent || f.Pad {
				continue
			}
			if g, fv, err := leaf(f, sv, sv.Field(f.Idx)); err == nil && g != nil && !g.Pad {
				fn(g, sv, fv)
			}
		}
	})
}

// resize changes the length of a slice or string.
func resize(fv reflect.Value, n int) {
	if fv.Kind() == reflect.String {
		s := []byte(fv.String())
		for len(s) < n {
			s = append(s, 'y')
		}
		fv.SetString(string(s[:n]))
		return
	}
	s := reflect.MakeSlice(fv.Type(), n, n)
	reflect.Copy(s, fv)
	fv.Set(s)
}

// wrongLength gives a field with a size expression another length.
func wrongLength(r *rng, v reflect.Value) bool {
	var fs []reflect.Value
	leaves(v, func(f *Fd, sv, fv reflect.Value) {
		if f.Size != nil && f.Out == nil {
			fs = append(fs, fv)
		}
	})
	if len(fs) == 0 {
		return false
	}
	fv := pick(r, fs...)
	n := fv.Len() + r.in(1, 3)
	if fv.Len() > 0 && r.p(60) {
		n = r.n(fv.Len())
	}
	resize(fv, n)
	return true
}

// presence runs all layout oracles on values of a profile rich in expressions.
func presence(c *Ctx, p prof, mutate bool) {
	r := c.R
	t, q := c.newType(p)
	vg := newVgen(r, q)
	vg.rest = true
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		c.checkBytes(v, little, r.p(30))
		checkSizes(c, v, little)
		if i%3 == 0 {
			c.images(v, little, func(data []byte, what string) {
				dst := reflect.New(t).Elem()
				if r.p(40) {
					dst = vg.fresh(t)
					what += " (used destination)"
				}
				c.checkUnpack(data, dst, little, what, diffAll)
			})
		}
		if mutate {
			if w := deepCopy(v); wrongLength(r, w) {
				if _, _, err := reference(w, little, false); err == errBad {
					c.Count("wrong_lengths", 1)
					c.checkBytes(w, little, r.p(30))
				}
			}
		}
	}
	c.Sample("%s", tname(t))
}

type (
	XEof struct {
		A uint8
		B []uint16 `struct-while:"!_eof && A < 128"`
		C uint8    `struct-if:"!_eof"`
		D []byte   `struct-while:"!_eof"`
	}
	XTerm struct { // reads records up to a terminator
		N    uint8
		Recs []XTermRec `struct-while:"!_eof"`
		End  uint16     `struct-if:"!_eof"`
	}
	XTermRec struct {
		K uint8
		V []byte `struct:"size=K & 3"`
	}
	XArr struct {
		N uint8
		A [3]uint16 `struct:"[]uint16" struct-while:"!_eof"`
		B uint8     `struct-if:"!_eof"`
	}
	XStr struct {
		A uint8
		S string `struct:"[6]byte" struct-out:"S + \"q\"" struct-in:"S + \"z\""`
		T string `struct:"size=A & 7" struct-if:"S != \"abz\""`
		U uint8  `struct-if:"S == \"abqz\""`
	}
	XOut struct {
		L uint8 `struct:"out=A + B"`
		A uint8
		B uint8  `struct:"in=B ^ L,out=B ^ 1"`
		D []byte `struct:"size=A & 3"`
		E uint16 `struct:"in=E * 2" struct-if:"false"`
	}
	XNeg struct {
		A int8
		B []byte   `struct:"size=A"`
		C int16    `struct:"big"`
		D []uint16 `struct:"size=C - 1"`
	}
	XBits struct {
		W int8
		V uint32 `struct-bits:"W"`
		X uint8
		Y int16 `struct-bits:"W + X"`
		Z uint8 `struct:"uint8:3"`
	}
	XBitsN struct { // a width that changes among elements
		N    uint8
		Recs []XBitsR `struct:"size=N & 3"`
		T    uint8
	}
	XBitsR struct {
		W uint8  `struct:"uint8:4"`
		V uint16 `struct-bits:"W"`
	}
	XIn struct { // mapped values seen by later expressions
		A uint8  `struct:"in=A + 1,out=A - 1"`
		B []byte `struct:"size=A & 7"`
		C bool   `struct:"uint8,in=!C,out=!C"`
		D uint16 `struct:"if=C"`
		E int32  `struct:"int16,in=E * 2,out=E / 2"`
		F uint8  `struct:"if=E > 100"`
	}
)

var exprStatics = []interface{}{XEof{}, XTerm{}, XArr{}, XStr{}, XOut{}, XNeg{}, XBits{}, XBitsN{}, XIn{}}

// staticExpr decodes arbitrary bytes into a hand-written definition, and packs
// arbitrary values of it.
func staticExpr(c *Ctx) {
	r := c.R
	resetGenerated()
	t := reflect.TypeOf(pick(r, exprStatics...))
	c.Distinct(hashStr(t.String()))
	for i := 0; i < 8; i++ {
		little := r.p(50)
		data := r.bytes(r.n(24))
		for j := range data {
			if r.p(40) {
				data[j] = byte(r.n(6))
			}
		}
		if r.p(30) && len(data) > 1 {
			copy(data[1:], pick(r, "ab\x00", "abq\x00", "abcdef", "abq"))
		}
		c.checkUnpack(poison(r, data), reflect.New(t).Elem(), little, "hand-written definition", diffAll)
		// What was decoded must pack to what the reference packs.
		d := reflect.New(t).Elem()
		if _, err := refDecode(data, d, little, false); err == nil {
			c.checkBytes(d, little, r.p(50))
			if w := deepCopy(d); wrongLength(r, w) {
				c.checkBytes(w, little, r.p(50))
			}
		}
	}
}

// ---- C17

type (
	TNode struct {
		Up   *TNode `struct:"parent"`
		V    uint8
		Top  *TNode  `struct:"root"`
		Kids []TNode `struct:"size=V % 3"`
		P    *TNode  `struct-if:"V == 7"`
		W    uint8   `struct-if:"V & 4 == 4 && Top.V > 3"`
	}
	LD0 struct { // links over many levels
		V  uint8
		L1 LD1
		W  []LD1 `struct:"size=V & 1"`
	}
	LD1 struct {
		L2 LD2
		P  *LD2
	}
	LD2 struct {
		V  uint8
		L3 [2]LD3
	}
	LD3 struct{ L4 *LD4 }
	LD4 struct {
		L5  LD5  `struct:"switch=true"`
		Top *LD0 `struct:"parent"`
	}
	LD5 struct {
		L6 []LD6 `struct:"default,size=2"`
	}
	LD6 struct{ L7 LD7 }
	LD7 struct {
		A *LD0   `struct:"parent"`
		B *LD1   `struct:"parent"`
		C *LD2   `struct:"parent"`
		D *LD3   `struct:"parent"`
		E *LD4   `struct:"parent"`
		F *LD6   `struct:"parent"`
		T *LD0   `struct:"root"`
		X uint8  `struct:"if=A.V > 7"`
		Y uint8  `struct:"if=C.V == T.V"`
		Z []byte `struct:"size=B.L2.V & 3"`
	}
	where  interface{ Where() string }
	LIface struct {
		A    uint8
		Mid  LIMid
		Mids []LIMid `struct:"size=A & 1"`
	}
	LIMid struct {
		Low  LILow
		Lows [2]*LILow
	}
	LILow struct {
		Up  where       `struct:"parent"`
		Any interface{} `struct:"parent"`
		Top where       `struct:"root"`
		Out *LIface     `struct:"root"`
		Bad *TNode      `struct:"root"`
		B   uint8
	}
)

func (l *LIface) Where() string { return "LIface" }
func (l *LILow) Where() string  { return "LILow" }

var linkStatics = []interface{}{LOuter{}, TNode{}, LIface{}, LD0{}}

// junkLinks makes the links of a value point somewhere else.
func junkLinks(r *rng, v reflect.Value) {
	links(v, false, nil, "", func(_ string, f *Fd, v reflect.Value, stack []reflect.Value) {
		if _, ok := linkTarget(f, v.Type(), stack); !ok || r.p(40) {
			return
		}
		switch {
		case v.Kind() == reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
		case v.Kind() == reflect.Interface && v.NumMethod() == 0:
			v.Set(reflect.ValueOf(42))
		}
	})
}

func linkCase(c *Ctx) {
	r := c.R
	var t reflect.Type
	q := &prof{}
	if r.p(35) {
		resetGenerated()
		t = reflect.TypeOf(pick(r, linkStatics...))
		c.Distinct(hashStr(t.String()))
	} else {
		p := generalProf
		p.Link, p.Struct, p.Array, p.Ptr, p.Sw, p.Stat, p.Depth = 30, 30, 15, 15, 15, 10, 4
		t, q = c.newType(p)
	}
	vg := newVgen(r, q)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		e, _, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		o := orderOf(little)
		in := deepCopy(v)
		junkLinks(r, in)
		if r.p(50) { // sizing first must not matter
			n, err, pan := sizeOf(in.Addr().Interface())
			c.Eval(1)
			if err != nil || pan != "" || n != len(e.w.b) {
				c.Fail("SizeOf is %d (%v %s), want %d\n value %s\n type %s", n, err, pan, len(e.w.b), dump(v), tname(t))
			}
		}
		b, perr, pan := pack(o, in.Addr().Interface())
		c.Eval(2)
		if perr != nil || pan != "" || !bytes.Equal(b, e.w.b) {
			c.Fail("%s: Pack gives %s (%v %s), want %s\n value %s\n type %s", lname(little), hx(b), perr, pan, hx(e.w.b), dump(v), tname(t))
			continue
		}
		msg, n := badLink(in, false)
		c.Count("links_after_pack", n)
		if msg != "" {
			c.Fail("%s: after Pack, %s\n value %s\n type %s", lname(little), msg, dump(v), tname(t))
		}
		if hasNil(v) {
			continue
		}
		dst := reflect.New(t).Elem()
		if r.p(40) {
			dst = vg.fresh(t)
			junkLinks(r, dst)
		}
		want := deepCopy(dst)
		if _, err := refDecode(b, want, little, false); err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		uerr, pan := unpack(b, o, dst.Addr().Interface())
		c.Eval(2)
		if uerr != nil || pan != "" {
			c.Fail("%s: Unpack fails: %v %s\n data %s\n type %s", lname(little), uerr, pan, hx(b), tname(t))
			continue
		}
		msg, n = badLink(dst, false)
		c.Count("links_after_unpack", n)
		if msg != "" {
			c.Fail("%s: after Unpack, %s\n data %s\n type %s", lname(little), msg, hx(b), tname(t))
		}
		if s := diff(want, dst, diffAll); s != "" {
			c.Fail("%s: value changes in a round trip: %s\n data %s\n value %s\n type %s", lname(little), s, hx(b), dump(v), tname(t))
		}
		c.checkUnpack(perturb(r, b), reflect.New(t).Elem(), little, "damaged image", diffAll)
	}
	c.Sample("%s", tname(t))
}

// ---- C22

// rerender makes another Go type from the same definition, with other tags.
func rerender(r *rng, t reflect.Type, memo map[reflect.Type]reflect.Type) reflect.Type {
	if m, ok := memo[t]; ok {
		return m
	}
	res := t
	switch t.Kind() {
	case reflect.Ptr:
		res = reflect.PtrTo(rerender(r, t.Elem(), memo))
	case reflect.Slice:
		if t.Name() == "" {
			res = reflect.SliceOf(rerender(r, t.Elem(), memo))
		}
	case reflect.Array:
		if t.Name() == "" {
			res = reflect.ArrayOf(t.Len(), rerender(r, t.Elem(), memo))
		}
	case reflect.Struct:
		if t.Name() != "" || customs[t] != nil {
			break
		}
		st := &St{}
		for _, f := range stOf(t).F {
			g := *f
			if f.active() && !f.Root && !f.Parent {
				g.NT = rerender(r, f.NT, memo)
			}
			if g.TypeTx == "" {
				g.WT = g.NT
			}
			if f.active() && !f.Root && !f.Parent && !f.Switch.given() && !g.Pad {
				g.respell(r)
			}
			for _, e := range []**Ex{&g.If, &g.Size, &g.BitsE, &g.In, &g.Out, &g.While, &g.Switch, &g.Case} {
				if *e != nil && r.p(30) {
					*e = decoy(r, *e)
				}
			}
			st.F = append(st.F, &g)
		}
		res = st.build(r)
	}
	memo[t] = res
	return res
}

// Literals that look like the end of an option, or of themselves.
var (
	decoyStrings = []string{`","`, `"\""`, `"\\"`, `"\\\","`, `"\"\\"`, `"("`, `"]"`, `"a)b,["`, `"'"`, `"\x2c"`, `"{,"`, `":"`, `""`, `"=,uint8"`, `"\\,\\"`,
		`$','`, `$'\''`, `$'\\'`, `$'"'`, `$'{'`, `$'(,'`, `$'\\\''`, `$'\\\\'`, `$',big'`, `$''`}
	decoyRunes = []string{`','`, `'\''`, `'"'`, `'('`, `'\\'`, `']'`, `'}'`, `'\x2c'`}
)

// decoy makes another expression of the same value, with punctuation in it that
// does not end it.
func decoy(r *rng, e *Ex) *Ex {
	str := func(text string) *Ex {
		q := text
		if q[0] == '$' {
			q = strings.ReplaceAll(strings.ReplaceAll(q[2:len(q)-1], `"`, `\"`), `\'`, `'`)
			q = `"` + q + `"`
		}
		s, err := strconv.Unquote(q)
		if err != nil {
			panic(text)
		}
		return &Ex{Op: "lit", Lit: &RV{V: reflect.ValueOf(s), S: true}, Text: text}
	}
	run := func(text string) *Ex {
		n, _, _, err := strconv.UnquoteChar(text[1:len(text)-1], '\'')
		if err != nil {
			panic(text)
		}
		return litBig(big.NewInt(int64(n)), text)
	}
	op := pick(r, "==", "!=")
	var c *Ex
	switch r.n(4) {
	case 0:
		c = bin(op, run(pick(r, decoyRunes...)), run(pick(r, decoyRunes...)))
	case 1:
		c = bin(op, call(dot(id("bits"), "RotateLeft8"), litInt(int64(r.n(3))), run(pick(r, decoyRunes...))), litInt(1))
	default:
		c = bin(op, str(pick(r, decoyStrings...)), str(pick(r, decoyStrings...)))
	}
	return cond(c, e, e)
}

func (e *Ex) given() bool { return e != nil }

// spelled returns the wire name of a type, or "".
func spelled(r *rng, t reflect.Type) string {
	if customs[t] != nil {
		return ""
	}
	switch k := t.Kind(); {
	case k == reflect.Uint8:
		return pick(r, "byte", "uint8")
	case k == reflect.Int32:
		return pick(r, "rune", "int32")
	case k == reflect.Bool || isIntKind(k) || isUintKind(k) && k != reflect.Uintptr || isFloatKind(k) || k == reflect.Complex64 || k == reflect.Complex128:
		return k.String()
	case k == reflect.String:
		return pick(r, "string", "[]byte", "[]uint8")
	case k == reflect.Slice:
		if e := spelled(r, t.Elem()); e != "" && t.Elem().Kind() != reflect.String {
			if t.Elem().Kind() == reflect.Uint8 && r.p(30) {
				return "string"
			}
			return "[]" + e
		}
	case k == reflect.Array:
		if e := spelled(r, t.Elem()); e != "" && t.Elem().Kind() != reflect.String {
			return fmt.Sprintf("[%d]", t.Len()) + e
		}
	case k == reflect.Ptr:
		if e := spelled(r, t.Elem()); e != "" && t.Elem().Kind() != reflect.String {
			return "*" + e
		}
	}
	return ""
}

// respell writes a field's wire type in another way of the same meaning.
func (g *Fd) respell(r *rng) {
	if g.Bits > 0 || g.BitsE != nil || g.TypeTx != "" {
		if g.TypeTx != "" && r.p(60) {
			tx := g.TypeTx
			for _, p := range [][2]string{{"uint8", "byte"}, {"int32", "rune"}} {
				i := strings.LastIndexAny(tx, "]*") + 1
				if tx[i:] == p[0] {
					tx = tx[:i] + p[1]
				} else if tx[i:] == p[1] {
					tx = tx[:i] + p[0]
				}
			}
			switch tx {
			case "string":
				tx = pick(r, "[]byte", "[]uint8")
			case "[]byte":
				tx = pick(r, "string", "[]uint8")
			}
			g.TypeTx = tx
			g.WT = wireType(tx)
		}
		return
	}
	if r.p(40) {
		if tx := spelled(r, g.NT); tx != "" {
			g.TypeTx = tx
			g.WT = wireType(tx)
		}
	}
}

func tagCase(c *Ctx) {
	r := c.R
	if r.p(12) {
		malformed(c)
		return
	}
	p := generalProf
	p.Order, p.Skip, p.Wire, p.Link = 30, 25, 50, 8
	t, q := c.newType(p)
	vg := newVgen(r, q)
	var ts []reflect.Type
	for i := 0; i < 4; i++ {
		ts = append(ts, rerender(r, t, map[reflect.Type]reflect.Type{}))
	}
	for i := 0; i < values(c)/2; i++ {
		v := vg.fresh(t)
		little := r.p(50)
		o := orderOf(little)
		e, _, err := reference(v, little, false)
		if noExpect(err) {
			c.Count("outside_domain", 1)
			continue
		}
		data := perturb(r, e.w.b)
		zero := reflect.New(t)
		uerr, pan := unpack(data, o, zero.Interface())
		if pan != "" {
			c.Fail("Unpack panics: %s", pan)
			continue
		}
		for _, u := range ts {
			if u != t {
				c.Count("other_renderings", 1)
			}
			w := reflect.New(u).Elem()
			w.Set(v.Convert(u))
			w = deepCopy(w)
			c.checkBytes(w, little, r.p(30))
			n, err, pan := sizeOf(w.Addr().Interface())
			c.Eval(1)
			if err != nil || pan != "" || n != len(e.w.b) {
				c.Fail("SizeOf is %d (%v %s), want %d\n value %s\n type %s\n as    %s", n, err, pan, len(e.w.b), dump(v), tname(t), tname(u))
			}
			dst := reflect.New(u)
			err, pan = unpack(data, o, dst.Interface())
			c.Eval(1)
			if pan != "" || (err == nil) != (uerr == nil) {
				c.Fail("%s: Unpack returns %v %s with one tag, %v with another\n data %s\n type %s\n as    %s", lname(little), err, pan, uerr, hx(data), tname(u), tname(t))
			} else if err == nil {
				back := reflect.New(t).Elem()
				back.Set(dst.Elem().Convert(t))
				if s := diff(zero.Elem(), back, diffAll); s != "" {
					c.Fail("%s: tags of the same meaning decode differently: %s\n data %s\n type %s\n as    %s", lname(little), s, hx(data), tname(t), tname(u))
				}
			}
		}
	}
	c.Sample("%s", tname(t))
	c.Sample("%s", tname(ts[0]))
}

// Tags that no reading of the documentation allows.
var badTags = []string{
	"foo", "big,", ",big", ",", "big,,uint8", "uint8,,big", "skip=", "skip=x", "skip=-1", "skip=1.5", "skip=99999999999999999999", "skip=1 ", "skip", "skip:1",
	"sizeof=", "sizefrom=", "sizeof", "sizefrom", "sizeof=1x", "sizeof=a-b", "sizeof=Nope", "sizefrom=Nope", "sizeof=,big", "sizefrom=,big",
	"uint8:0", "uint8:8", "uint8:9", "uint8:255", "uint8:256", "uint16:16", "uint32:32", "uint64:64", "int16:17", "uint8:", "uint8:x", "uint8:-1", "uint8:1.5", "uint8:3:4",
	"float64:3", "bool:1", "string:3", "[4]byte:3", "[]byte:3", "big:3", "bigg", "BIG", "Big", "little-endian", "lsb=1", "network2", "msb:1",
	"-,big", "big,-", "-big", "--", "uint8,-", "-,", "uint8 big", "uint8;big", "uint8=3", "uint9", "int128", "float16", "[x]byte", "[-1]byte", "[]", "[4]", "[4", "4]byte", "[4]foo", "*", "*foo",
	"if=", "size=", "bits=", "in=", "out=", "while=", "switch=", "case=", "if=,big", "big,if=", "size=,uint8", "if=(", "if=(A", "if=A[0", "if=A(", "if=\"abc", "if='a", "if=A)(", "if", "size", "while", "switch", "case", "bits", "in", "out", "in:1",
	"variantbool=1", "variantbool1", "invertedbool=0", "root=1", "rootx", "parent=", "parents", "default=1", "defaults", "variant", "inverted", "bool,variantbool,", "unknown=1",
	"\x00", "if=A\x00", "uint8,\x00big",
}

// badTag is one of badTags, or a number out of its range, however far.
func badTag(r *rng) string {
	if r.p(70) {
		return pick(r, badTags...)
	}
	n := pick(r, 8, 16, 32, 64)
	w := new(big.Int)
	if r.p(90) {
		w.SetInt64(int64(r.in(1, n-1))) // in range once truncated to a byte, ...
		w.Add(w, new(big.Int).Lsh(big.NewInt(int64(r.in(1, 3))), uint(pick(r, 8, 8, 9, 16, 16, 31, 32, 63, 64, 128))))
	}
	switch r.n(8) {
	case 0:
		return "skip=" + new(big.Int).Add(w, new(big.Int).Lsh(big.NewInt(1), uint(pick(r, 64, 65, 128)))).String()
	case 1:
		return fmt.Sprintf("[%s]byte", new(big.Int).Add(w, new(big.Int).Lsh(big.NewInt(1), uint(pick(r, 64, 65, 128)))))
	case 2:
		w.SetInt64(int64(r.in(n, 255)))
	case 3:
		w.SetInt64(int64(-r.in(1, 300)))
	}
	t := fmt.Sprintf("%s%d:%s", pick(r, "uint", "int"), n, w)
	if r.p(20) {
		t += ",big"
	}
	return t
}

// Expressions that are never well-formed.
var badExprs = []string{"A +", "+", "A B", "A ? 1", "A ? 1 :", "(A", "A)", "A[0", "A]", "f(", "f(1,", "\"abc", "'", "''", "A..B", ".A", "A.", "1 2", "A ==", "&& A", "@", "A @ B", "#", "0x", "08", "!", "A ? : 2", "[1]", "()", "A,"}

func malformed(c *Ctx) {
	r := c.R
	u8 := reflect.TypeOf(uint8(0))
	tag := reflect.StructTag("struct:" + quoteTag(badTag(r)))
	if r.p(25) {
		key := pick(r, exprKeys...)
		e := pick(r, badExprs...)
		if e == "" {
			e = "+"
		}
		tag = reflect.StructTag("struct-" + key + ":" + quoteTag(e))
	}
	ft := pick(r, u8, reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(false), reflect.TypeOf([]byte{}), reflect.TypeOf(""))
	fs := []reflect.StructField{{Name: "A", Type: u8}, {Name: "F", Type: ft, Tag: tag}, {Name: "Z", Type: u8}}
	if r.p(30) {
		fs = fs[1:]
	}
	t := reflect.StructOf(fs)
	c.Distinct(hashStr(string(tag)))
	v := reflect.New(t).Elem()
	// Inside other things.
	for i := r.n(3); i > 0; i-- {
		switch r.n(4) {
		case 0:
			w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "P", Type: u8}, {Name: "In", Type: v.Type()}})).Elem()
			w.Field(1).Set(v)
			v = w
		case 1:
			w := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
			w.Index(0).Set(v)
			w.Index(1).Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Arr", Type: w.Type()}})).Elem()
			v.Field(0).Set(w)
		case 2:
			w := reflect.New(v.Type())
			w.Elem().Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Ptr", Type: w.Type()}})).Elem()
			v.Field(0).Set(w)
		default:
			w := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
			w.Index(0).Set(v)
			v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: u8, Tag: `struct:"sizeof=Sl"`}, {Name: "Sl", Type: w.Type()}})).Elem()
			v.Field(0).SetUint(1)
			v.Field(1).Set(w)
		}
	}
	c.Count("malformed_tags", 1)
	must := func(op string, err error, pan string) {
		c.Eval(1)
		if err == nil || pan != "" {
			c.Fail("%s with the malformed tag %s returns %v %s\n type %s", op, string(tag), err, pan, tname(v.Type()))
		}
	}
	for i := 0; i < 2; i++ { // the second time hits whatever was cached
		_, err, pan := pack(orderOf(r.p(50)), v.Addr().Interface())
		must("Pack", err, pan)
		_, err, pan = sizeOf(v.Addr().Interface())
		must("SizeOf", err, pan)
		_, err, pan = bitSize(v.Interface())
		must("BitSize", err, pan)
		data := bytes.Repeat([]byte{1}, 64)
		err, pan = unpack(data, orderOf(r.p(50)), reflect.New(v.Type()).Interface())
		must("Unpack", err, pan)
	}
}

func quoteTag(s string) string {
	return fmt.Sprintf("%q", s)
}

// ---- C24

type boolCombo struct {
	wire   string
	width  int
	vb, ib bool
}

var boolCombos = func() (cs []boolCombo) {
	for _, w := range append([]string{"bool"}, append(append([]string{}, wireInts...), wireUints...)...) {
		wt := wireType(w)
		n := wireBits(wt.Kind())
		for k := 1; k <= n; k++ {
			if w == "bool" && k < n {
				continue
			}
			for f := 0; f < 4; f++ {
				cs = append(cs, boolCombo{w, k, f&1 != 0, f&2 != 0})
			}
		}
	}
	return
}()

func boolSweep(c *Ctx, k boolCombo) {
	r := c.R
	resetGenerated()
	st := &St{}
	off := r.n(8)
	if off > 0 {
		st.F = append(st.F, &Fd{Name: "P", NT: basicTypes[reflect.Uint8], WT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: off, CountedBy: -1})
	}
	f := &Fd{Name: "B", NT: pick(r, boolTypes...), TypeTx: k.wire, WT: wireType(k.wire), VB: k.vb, IB: k.ib, CountedBy: -1}
	if k.width < wireBits(f.WT.Kind()) {
		f.Bits = k.width
	}
	if k.wire == "bool" && r.p(50) {
		f.TypeTx, f.WT = "", f.NT
	}
	st.F = append(st.F, f)
	st.F = append(st.F, &Fd{Name: "Q", NT: basicTypes[reflect.Uint8], WT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: r.in(1, 7), CountedBy: -1})
	st.build(r)
	c.Distinct(hashStr(fmt.Sprint(k, off)))
	total := 0
	for _, g := range st.F {
		n := g.Bits
		if n == 0 {
			n = wireBits(g.WT.Kind())
		}
		total += n
	}
	vg := newVgen(r, &prof{})
	for _, little := range []bool{false, true} {
		for _, b := range []bool{false, true} {
			v := vg.fresh(st.RT)
			v.Field(len(st.F) - 2).SetBool(b)
			c.checkBytes(v, little, r.p(50))
			checkSizes(c, v, little)
		}
		// Every single wire bit, none and all.
		for i := -2; i < k.width; i++ {
			data := r.bytes((total + 7) / 8)
			set := func(p int, on bool) {
				data[p/8] &^= 0x80 >> uint(p%8)
				if on {
					data[p/8] |= 0x80 >> uint(p%8)
				}
			}
			for j := 0; j < k.width; j++ {
				set(off+j, i == -2 || i == j)
			}
			c.checkUnpack(poison(r, data), reflect.New(st.RT).Elem(), little, "boolean", diffAll)
		}
	}
	if c.N%97 == 0 {
		c.Sample("%s", tname(st.RT))
	}
}

// tooLong makes the content of a fixed wire array longer than the array.
func tooLong(r *rng, v reflect.Value) bool {
	type target struct {
		f  *Fd
		fv reflect.Value
	}
	var ts []target
	leaves(v, func(f *Fd, sv, fv reflect.Value) {
		if f.WT.Kind() == reflect.Array && (fv.Kind() == reflect.String || fv.Kind() == reflect.Slice) && customs[f.NT] == nil && f.Out == nil {
			ts = append(ts, target{f, fv})
		}
	})
	if len(ts) == 0 {
		return false
	}
	t := pick(r, ts...)
	resize(t.fv, t.f.WT.Len()+r.in(1, 3))
	return true
}

func convertCase(c *Ctx) {
	r := c.R
	p := generalProf
	p.Wire, p.Fixed, p.Struct, p.Array, p.Ptr, p.Count, p.Cust, p.Sw, p.Stat, p.Cplx = 90, 45, 6, 15, 8, 8, 2, 2, 3, 10
	t, q := c.newType(p)
	vg := newVgen(r, q)
	vg.over = r.p(40)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		c.checkBytes(v, little, r.p(30))
		if !vg.over && !hasNil(v) {
			c.checkRoundTrip(v, little)
		}
		if i%3 == 0 {
			c.images(v, little, func(data []byte, what string) {
				dst := reflect.New(t).Elem()
				if r.p(30) {
					dst = vg.fresh(t)
				}
				c.checkUnpack(data, dst, little, what, diffAll)
			})
		}
		if w := deepCopy(v); tooLong(r, w) {
			if _, _, err := reference(w, little, false); err == errBad {
				c.Count("too_long", 1)
				c.checkBytes(w, little, r.p(50))
			}
		}
	}
	c.Sample("%s", tname(t))
}

func init() {
	register(&Check{ID: "C14",
		Rule:  "Case = a generated definition dense in 16 custom codec types (value and pointer receivers, every kind, one direction only, re-entrant), or such a codec at top level. The log of codec calls (type, order of calls, bytes given, byte order) is compared with the trace of the reference codec, as are bytes, sizes and values; then one call of the log is made to fail: its very error must come back and no further codec may run. Non-trivial: distinct definitions.",
		Quick: 80000, Thorough: 1500000,
		Case: func(c *Ctx) {
			if c.R.p(10) {
				topCodec(c)
				return
			}
			p := generalProf
			p.Cust, p.Ptr, p.Array, p.Skip, p.If, p.Order, p.Sw, p.Nil = 45, 20, 20, 15, 15, 20, 10, 8
			t, q := c.newType(p)
			vg := newVgen(c.R, q)
			for i := 0; i < values(c); i++ {
				checkCalls(c, vg.fresh(t), c.R.p(50))
			}
			c.Sample("%s", tname(t))
		}})
	register(&Check{ID: "C15",
		Rule:  "Case = a generated definition dense in conditions and switches (nested, with defaults, cases of other integer types, named strings and booleans). Bytes, sizes and decoded values (into fresh and used destinations; images, damaged, cut and random data) are compared with the reference. Non-trivial: distinct definitions.",
		Quick: 70000, Thorough: 1200000,
		Case: func(c *Ctx) {
			p := generalProf
			p.If, p.Sw, p.Depth = 40, 40, 4
			presence(c, p, false)
		}})
	register(&Check{ID: "C16",
		Rule:  "Case = a generated or hand-written definition dense in size, bits, while, in and out expressions. Bytes, sizes and decoded values are compared with the reference; slices of a length other than the expression's must be refused. The first cases use lengths around the limits of the integer types, to 131072. Non-trivial: distinct definitions.",
		Quick: 50000, Thorough: 800000,
		Case: func(c *Ctx) {
			if c.few(80) {
				bigCase(c, "size")
				return
			}
			if c.R.p(8) {
				mappedList(c)
				return
			}
			if c.R.p(20) {
				staticExpr(c)
				return
			}
			p := generalProf
			p.SizeE, p.BitsE, p.InOut, p.While, p.Fixed, p.Sw = 35, 30, 30, 60, 10, 12
			presence(c, p, true)
		}})
	register(&Check{ID: "C17",
		Rule:  "Case = a generated definition dense in parent and root links, or a hand-written one with typed and self-typed links. After Pack (through a pointer, with links pointing elsewhere before) and after Unpack (fresh and used destinations), every link that is reached is compared by identity with the enclosing structure it must denote; bytes must be those without links. Non-trivial: distinct definitions.",
		Quick: 50000, Thorough: 800000,
		Case: linkCase})
	register(&Check{ID: "C22",
		Rule:  "Case = a generated definition rendered five times with other option order, synonyms, spelled-out types and placement of expressions; all must pack, size and unpack alike and as the reference says. One case in eight is a malformed tag (a table of texts, at any nesting), which every operation must refuse. Non-trivial: distinct definitions or tags.",
		Quick: 50000, Thorough: 1000000,
		Case: tagCase})
	register(&Check{ID: "C24",
		Rule:  fmt.Sprintf("The first %d cases enumerate boolean wire types x widths x flags at varying bit offsets, with both values packed and every single wire bit, none and all decoded; the rest are generated definitions dense in wire types and fixed-size wire arrays, with round trips, arbitrary data, and contents that are too long. Non-trivial: distinct definitions.", len(boolCombos)),
		Quick: len(boolCombos) + 80000, Thorough: 4*len(boolCombos) + 1500000,
		Case: func(c *Ctx) {
			k := len(boolCombos)
			if c.Tier == "thorough" {
				k *= 4
			}
			if c.N < k {
				boolSweep(c, boolCombos[c.N%len(boolCombos)])
				return
			}
			convertCase(c)
		}})
}
