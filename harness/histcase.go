package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/go-restruct/restruct/expr"
	"github.com/go-restruct/restruct/formats/png"

	reca "verif/samea/rec"
	recb "verif/sameb/rec"
)

// C13: what happened before does not matter.

// More types that share a printed name.
func sameName4() interface{} {
	type Rec struct {
		A []struct{ V uint8 } `struct:"size=2"`
		B int16               `struct:"int16:9"`
		C bool                `struct:"uint8:7,variantbool"`
	}
	return Rec{}
}

func sameName5() interface{} {
	type Sub struct{ V uint16 }
	type Rec struct {
		N uint8 `struct:"sizeof=S"`
		S []Sub
		T Sub `struct:"big"`
	}
	return Rec{}
}

func sameName6() interface{} {
	type Sub struct {
		V uint8
		W uint8 `struct:"skip=1"`
	}
	type Rec struct {
		N uint16 `struct:"little,sizeof=S"`
		S []Sub
		T Sub
	}
	return Rec{}
}

// histStatics are the hand-written definitions of this check.
var histStatics []reflect.Type

func statics13() []reflect.Type {
	if histStatics == nil {
		for _, x := range []interface{}{sameName1(), sameName2(), sameName3(), sameName4(), sameName5(), sameName6(), reca.Rec{}, recb.Rec{}, reca.Sub{}, recb.Sub{}} {
			histStatics = append(histStatics, reflect.TypeOf(x))
		}
		// Structures of them look the same when printed, too.
		for i := 0; i < 10; i++ {
			t := histStatics[i]
			for _, u := range []reflect.Type{t, reflect.PtrTo(t), reflect.ArrayOf(2, t)} {
				histStatics = append(histStatics, reflect.StructOf([]reflect.StructField{{Name: "X", Type: u}, {Name: "Y", Type: tU8}}))
			}
		}
		for _, s := range staticList {
			histStatics = append(histStatics, s.T)
		}
	}
	return histStatics
}

// ---- groups of related definitions

type member struct {
	t reflect.Type
	q *prof
}

var groups = map[int][]member{}

// groupOf returns the definitions of a group, which depend on nothing but the
// group's number and the seed.
func groupOf(seed uint64, n int) []member {
	if g, ok := groups[n]; ok {
		return g
	}
	r := newRng(seed, uint64(n), 1313)
	stamp = fmt.Sprint("g", n)
	defer func() { stamp = "" }()
	p := generalProf
	p.Cust, p.Order, p.Skip = 12, 20, 12
	p = vary(r, p)
	st, _ := newGen(r, p).strct(p.Depth, 0)
	g := []member{{st.RT, &p}}
	for i := 0; i < 3; i++ {
		g = append(g, member{retag(r, st.RT, map[reflect.Type]reflect.Type{}), &p})
	}
	groups[n] = g
	return g
}

// retag makes another definition with the same Go fields and other tags.
func retag(r *rng, t reflect.Type, memo map[reflect.Type]reflect.Type) reflect.Type {
	if m, ok := memo[t]; ok {
		return m
	}
	res := t
	switch t.Kind() {
	case reflect.Ptr:
		res = reflect.PtrTo(retag(r, t.Elem(), memo))
	case reflect.Slice:
		if t.Name() == "" {
			res = reflect.SliceOf(retag(r, t.Elem(), memo))
		}
	case reflect.Array:
		if t.Name() == "" {
			res = reflect.ArrayOf(t.Len(), retag(r, t.Elem(), memo))
		}
	case reflect.Struct:
		if t.Name() != "" || customs[t] != nil {
			break
		}
		st := &St{}
		for _, f := range stOf(t).F {
			g := *f
			if f.active() && !f.Root && !f.Parent {
				g.NT = retag(r, f.NT, memo)
			}
			if g.TypeTx == "" {
				g.WT = g.NT
			}
			if f.active() && !f.Root && !f.Parent && !f.Switch.given() && !g.Pad {
				g.retag(r)
			}
			st.F = append(st.F, &g)
		}
		res = st.build(r)
	}
	memo[t] = res
	return res
}

// retag gives a field another meaning, if that is easy.
func (g *Fd) retag(r *rng) {
	if r.p(40) {
		g.Order = pick(r, byte(0), 'l', 'b')
	}
	if g.Skip > 0 && r.p(50) {
		g.Skip = r.in(1, 4)
	}
	if g.VB || g.IB {
		if r.p(40) {
			g.VB = !g.VB && g.NT.Kind() == reflect.Bool
		}
		if r.p(40) {
			g.IB = !g.IB
		}
	}
	if k := g.NT.Kind(); g.Bits == 0 && g.BitsE == nil && g.In == nil && g.Out == nil && customs[g.NT] == nil && r.p(30) {
		switch n := kindBits(k); {
		case isIntKind(k) && k != reflect.Int && isIntKind(g.WT.Kind()):
			g.TypeTx = fmt.Sprint("int", pick(r, 8, 16, 32, 64))
			if g.WT = wireType(g.TypeTx); g.WT.Bits() > n {
				g.TypeTx, g.WT = k.String(), basicTypes[k]
			}
		case isUintKind(k) && k != reflect.Uint && k != reflect.Uintptr && isUintKind(g.WT.Kind()):
			g.TypeTx = fmt.Sprint("uint", pick(r, 8, 16, 32, 64))
			if g.WT = wireType(g.TypeTx); g.WT.Bits() > n {
				g.TypeTx, g.WT = k.String(), basicTypes[k]
			}
		}
	}
}

// ---- calls

// hist records the outcomes of one case.
type hist struct {
	c    *Ctx
	sums []string
	what []string
	held []func() string // results given out earlier
}

func (h *hist) add(what string, parts ...interface{}) {
	x := hashStr(fmt.Sprint(parts...))
	h.sums = append(h.sums, fmt.Sprintf("%08x", uint32(x^x>>32)))
	h.what = append(h.what, what)
}

// worldBuf and worldVal are used again and again for different things.
var (
	worldBuf  = make([]byte, 0, 1<<16)
	worldHeld []func() string
)

func (h *hist) hold(f func() string) {
	worldHeld = append(worldHeld, f)
}

// checkHeld looks at the results of the calls before, which must not change.
func (h *hist) checkHeld() {
	for _, f := range worldHeld {
		h.c.Eval(1)
		if s := f(); s != "" {
			h.c.Fail("a result changes after later calls: %s", s)
		}
	}
	if n := len(worldHeld); n > 24 {
		worldHeld = append(worldHeld[:0], worldHeld[n-24:]...)
	}
}

// layout makes calls on a definition with known results.
func (h *hist) layout(t reflect.Type, q *prof) {
	c, r := h.c, h.c.R
	vg := newVgen(r, q)
	v := vg.fresh(t)
	little := r.p(50)
	order := orderOf(little)
	if r.p(20) {
		order = yieldOrder{order}
	}
	e, _, err := reference(v, little, false)
	if err != nil {
		c.Count("outside_domain", 1)
		return
	}
	data := e.w.b
	switch r.n(4) {
	case 0:
		data = perturb(r, data)
	case 1:
		data = data[:r.n(len(data)+1)]
	}
	_, want, uerr := refUnpack(data, reflect.New(t).Elem(), little, false)
	d, _, _ := refUnpack(data, reflect.New(t).Elem(), little, false)
	worldBuf = append(worldBuf[:0], data...)
	holder := reflect.New(t) // holds one value after the other
	for i := r.in(1, 4); i > 0; i-- {
		switch o := pick(r, eachOp...); o {
		case opPack:
			holder.Elem().SetZero()
			copyInto(holder.Elem(), v)
			b, err, pan := pack(order, holder.Interface())
			c.Eval(1)
			h.add("Pack "+tname(t), b, err != nil)
			if err != nil || pan != "" || !bytes.Equal(b, e.w.b) {
				c.Fail("Pack gives %s (%v %s), want %s\n value %s\n type %s", hx(b), err, pan, hx(e.w.b), dump(v), tname(t))
				return
			}
			kept := r.p(30)
			if kept {
				keep := append([]byte(nil), b...)
				h.hold(func() string {
					if !bytes.Equal(keep, b) {
						return fmt.Sprintf("bytes %s became %s", hx(keep), hx(b))
					}
					return ""
				})
			}
			if !kept && r.p(30) && len(b) > 0 {
				// What the caller does to a result is its own business.
				b[r.n(len(b))] ^= 0xff
			}
		case opUnpack:
			dst := reflect.New(t)
			buf := worldBuf
			err, pan := unpack(buf, order, dst.Interface())
			c.Eval(1)
			h.add("Unpack "+tname(t), err != nil)
			if pan != "" {
				c.Fail("Unpack panics: %s\n data %s\n type %s", pan, hx(data), tname(t))
				return
			}
			if noExpect(uerr) || uerr == errAmb || uerr == nil && d.lossy {
				c.Count("unspecified", 1)
				continue
			}
			if (uerr == nil) != (err == nil) {
				c.Fail("Unpack gives %v, want %v\n data %s\n type %s", err, uerr, hx(data), tname(t))
				return
			}
			if err != nil {
				continue
			}
			h.add("value of Unpack "+tname(t), dump(dst.Elem()))
			if s := diff(want, dst.Elem(), diffAll); s != "" {
				c.Fail("Unpack gives the wrong value: %s\n data %s\n type %s", s, hx(data), tname(t))
				return
			}
			if r.p(30) {
				own := append([]byte(nil), data...)
				kept := reflect.New(t)
				if unpack(own, order, kept.Interface()); diff(want, kept.Elem(), diffAll) == "" {
					h.hold(func() string { return diff(want, kept.Elem(), diffAll) })
				}
			}
		default:
			holder.Elem().SetZero()
			copyInto(holder.Elem(), v)
			f, n := sizeOf, len(e.w.b)
			if o == opBits {
				f, n = bitSize, e.w.n
			}
			got, err, pan := f(holder.Interface())
			c.Eval(1)
			h.add(o.String()+" "+tname(t), got, err != nil)
			if err != nil || pan != "" || got != n {
				c.Fail("%s gives %d (%v %s), want %d\n value %s\n type %s", o, got, err, pan, n, dump(v), tname(t))
				return
			}
		}
		if r.p(30) {
			// Another value at the same place.
			w := vg.fresh(t)
			if e2, _, err := reference(w, little, false); err == nil {
				v, e = w, e2
			}
		}
	}
	c.Count("calls_with_known_results", 1)
}

// failing makes calls that fail, many of them half-way.
func (h *hist) failing(t reflect.Type, q *prof) {
	c, r := h.c, h.c.R
	v := newVgen(r, q).fresh(t)
	little := r.p(50)
	order := orderOf(little)
	e, _, err := reference(v, little, false)
	if err != nil {
		return
	}
	c.Count("failing_calls", 1)
	switch r.n(6) {
	case 0:
		if len(e.w.b) > 0 {
			err, pan := unpack(e.w.b[:r.n(len(e.w.b))], order, reflect.New(t).Interface())
			h.add("cut Unpack "+tname(t), err != nil, pan)
		}
	case 1:
		for _, o := range eachOp {
			out, err, pan := outcomeOf(o, order, e.w.b, reflect.Zero(reflect.PtrTo(t)).Interface())
			h.add("nil argument "+tname(t), out, err != nil, pan)
		}
	case 2:
		w := deepCopy(v)
		if tooLong(r, w) || wrongLength(r, w) {
			out, err, pan := outcomeOf(opPack, order, nil, w.Addr().Interface())
			h.add("bad length "+tname(t), out, err != nil, pan)
		}
	case 3:
		l := withLog(0, func() { pack(order, deepCopy(v).Addr().Interface()) })
		if n := len(callsOf(l, "pack")); n > 0 {
			withLog(r.in(1, n), func() {
				_, err, pan := pack(order, deepCopy(v).Addr().Interface())
				c.Eval(1)
				if err != errInjected {
					c.Fail("Pack gives %v %s for a codec that fails\n type %s", err, pan, tname(t))
				}
			})
			withLog(r.in(1, n), func() {
				err, pan := unpack(e.w.b, order, reflect.New(t).Interface())
				h.add("failing codec "+tname(t), err != nil, pan)
			})
		}
	case 4:
		f := newFault(r)
		o := pick(r, eachOp...)
		if f.ops&o != 0 {
			out, err, pan := outcomeOf(o, order, r.bytes(300), f.v.Addr().Interface())
			h.add("faulty "+tname(f.v.Type()), out, err != nil, pan)
		}
	default:
		err, pan := unpack(hostile(r, e.w.b), order, reflect.New(t).Interface())
		h.add("hostile Unpack "+tname(t), err != nil, pan)
	}
}

// soup makes calls on definitions of which nothing is known but that they have
// the same outcome in every process.
func (h *hist) soup(seed uint64) {
	c, r := h.c, h.c.R
	t := soupStruct(newRng(seed), 2)
	rude = pick(r, 0, 0, 0, r.n(14))
	defer func() { rude = 0 }()
	for i := r.in(1, 3); i > 0; i-- {
		v := reflect.New(t)
		fillSoup(newRng(seed, r.u64()), v.Elem(), 6)
		o := pick(r, eachOp...)
		data := r.bytes(r.n(40))
		out, err, pan := outcomeOf(o, orderOf(r.p(50)), data, v.Interface())
		c.Eval(1)
		if o == opUnpack && err == nil {
			out += dump(v.Elem())
		}
		h.add(o.String()+" "+tname(t), out, err != nil, pan != "")
	}
	c.Count("arbitrary_definitions", 1)
}

// ---- expressions

type number interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

type sameText struct {
	text string
	want interface{} // nil: an error
}

// textsInt are the values of the same texts for operands of one integer type.
func textsInt[T number](a, b T) []sameText {
	q, m := interface{}(nil), interface{}(nil)
	if b != 0 {
		q, m = a/b, a%b
	}
	i := interface{}(nil)
	if k := uint64(b); b >= 0 && k < 4 {
		i = []uint8{5, 6, 7, 8}[k]
	}
	s := interface{}(nil)
	if b >= 0 {
		s = a << b
	}
	return []sameText{
		{"A + B", a + b}, {"A * 2 - B", a*2 - b}, {"A / B", q}, {"A % B", m}, {"A < B", a < b}, {"A == B", a == b}, {"A != B", a != b}, {"-A", -a}, {"A & B | 1", a&b | 1}, {"A ^ B", a ^ b},
		{"A << B", s}, {"A > 5 ? A : B", pickIf(a > 5, a, b)}, {"L[B]", i}, {"S.V + A", nil}, {"A.V", nil}, {"A + 1.5", nil}, {"A && B", nil}, {"!A", nil}, {"A >= 3 && B < 3", a >= 3 && b < 3},
	}
}

func pickIf[T any](ok bool, a, b T) T {
	if ok {
		return a
	}
	return b
}

func textsFloat[T float32 | float64](a, b T) []sameText {
	return []sameText{
		{"A + B", a + b}, {"A * 2 - B", a*2 - b}, {"A / B", a / b}, {"A % B", nil}, {"A < B", a < b}, {"A == B", a == b}, {"A != B", a != b}, {"-A", -a}, {"A & B | 1", nil}, {"A ^ B", nil},
		{"A << B", nil}, {"A > 5 ? A : B", pickIf(a > 5, a, b)}, {"L[B]", nil}, {"A.V", nil}, {"A + 1.5", a + 1.5}, {"A && B", nil}, {"A >= 3 && B < 3", a >= 3 && b < 3},
	}
}

var sharedProgs = map[string]*expr.Program{}

// texts evaluates texts that other cases evaluate for operands of other types.
func (h *hist) texts() {
	c, r := h.c, h.c.R
	a, b := r.n(9), r.n(4)
	var va, vb interface{}
	var ts []sameText
	switch r.n(14) {
	case 0:
		va, vb, ts = int8(a), int8(b), textsInt(int8(a), int8(b))
	case 1:
		va, vb, ts = int16(a), int16(b), textsInt(int16(a), int16(b))
	case 2:
		va, vb, ts = int32(a), int32(b), textsInt(int32(a), int32(b))
	case 3:
		va, vb, ts = int64(a), int64(b), textsInt(int64(a), int64(b))
	case 4:
		va, vb, ts = a, b, textsInt(a, b)
	case 5:
		va, vb, ts = uint8(a), uint8(b), textsInt(uint8(a), uint8(b))
	case 6:
		va, vb, ts = uint16(a), uint16(b), textsInt(uint16(a), uint16(b))
	case 7:
		va, vb, ts = uint32(a), uint32(b), textsInt(uint32(a), uint32(b))
	case 8:
		va, vb, ts = uint64(a), uint64(b), textsInt(uint64(a), uint64(b))
	case 9:
		va, vb, ts = uint(a), uint(b), textsInt(uint(a), uint(b))
	case 10:
		va, vb, ts = float32(a), float32(b), textsFloat(float32(a), float32(b))
	case 11:
		va, vb, ts = float64(a), float64(b), textsFloat(float64(a), float64(b))
	case 12:
		va, vb = fmt.Sprint(a), fmt.Sprint(b)
		ts = []sameText{{"A + B", fmt.Sprint(a) + fmt.Sprint(b)}, {"A == B", a == b}, {"A != B", a != b}, {"-A", nil}, {"A * 2 - B", nil}, {"A ^ B", nil}, {"L[B]", nil}, {"A && B", nil}}
	default:
		va, vb = a > 4, b > 1
		ts = []sameText{{"A + B", nil}, {"A == B", (a > 4) == (b > 1)}, {"A && B", a > 4 && b > 1}, {"!A", !(a > 4)}, {"-A", nil}, {"A < B", nil}, {"L[B]", nil}}
	}
	vars := map[string]interface{}{"A": va, "B": vb, "L": []uint8{5, 6, 7, 8}, "S": struct{ V string }{"s"}}
	// The same names from a struct, from a map of values, and inside a definition.
	st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(va)}, {Name: "B", Type: reflect.TypeOf(vb)}, {Name: "L", Type: tBS}, {Name: "S", Type: reflect.TypeOf(vars["S"])}})).Elem()
	for i, n := range []string{"A", "B", "L", "S"} {
		st.Field(i).Set(reflect.ValueOf(vars[n]))
	}
	for i := r.in(2, 5); i > 0; i-- {
		x := pick(r, ts...)
		var res expr.Resolver = expr.NewStructResolver(st)
		if r.p(50) {
			res = funcResolver(func(name string) expr.Value {
				if v, ok := vars[name]; ok {
					return expr.ValueOf(v)
				}
				return nil
			})
		}
		var got interface{}
		var err error
		var pan string
		if r.p(50) {
			got, err, pan = evalText(res, x.text)
		} else {
			p := sharedProgs[x.text]
			if p == nil {
				p, pan = parseText(x.text)
				sharedProgs[x.text] = p
			}
			if pan == "" {
				got, err, pan = evalProg(res, p)
			}
		}
		c.Eval(1)
		c.Count("texts", 1)
		h.add("Eval "+x.text, fmt.Sprintf("%T", got), got, err != nil, pan)
		if pan != "" || x.want == nil && err == nil || x.want != nil && (err != nil || !sameResult(got, x.want)) {
			c.Fail("%s for A=%v B=%v (%T) gives %v (%T) (%v %s), want %v (%T)", x.text, va, vb, va, got, got, err, pan, x.want, x.want)
			return
		}
		// As a condition of a field.
		if w, ok := x.want.(bool); ok && va != nil && r.p(50) {
			t := reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf(va), Tag: `struct:"-"`}, {Name: "B", Type: reflect.TypeOf(vb), Tag: `struct:"-"`},
				{Name: "Q", Type: tU8, Tag: reflect.StructTag(`struct-if:"` + x.text + `"`)}, {Name: "Z", Type: tU8}})
			v := reflect.New(t)
			v.Elem().Field(0).Set(st.Field(0))
			v.Elem().Field(1).Set(st.Field(1))
			v.Elem().Field(2).SetUint(1)
			v.Elem().Field(3).SetUint(2)
			b, err, pan := pack(binary.LittleEndian, v.Interface())
			if want := pickIf(w, "0102", "02"); err != nil || pan != "" || fmt.Sprintf("%x", b) != want {
				c.Fail("if=%s for A=%v B=%v (%T): Pack gives %x (%v %s), want %s", x.text, va, vb, va, b, err, pan, want)
			}
		}
	}
}

// ---- Go types of the same name in expressions

type namesake struct {
	x     interface{}
	texts []sameText
}

func namesakes() (ns []namesake) {
	add := func(x interface{}, ts ...sameText) { ns = append(ns, namesake{x, ts}) }
	func() {
		type Rec struct {
			A int8
			B string
		}
		x := Rec{7, "b"}
		add(x, sameText{"X.A + 1", int8(8)}, sameText{"X.B + \"c\"", "bc"}, sameText{"X.C", nil}, sameText{"X[0]", nil})
		add(&x, sameText{"X.A + 1", int8(8)}, sameText{"X.C", nil})
		add([]Rec{x, {9, "z"}}, sameText{"X[1].A", int8(9)}, sameText{"X[0].B", "b"}, sameText{"X.A", nil})
		add(map[string]Rec{"k": x}, sameText{"X[\"k\"].A * 2", int8(14)}, sameText{"X[\"k\"].B", "b"})
		add([2]*Rec{&x, &x}, sameText{"X[1].A", int8(7)})
		add(func(r Rec) Rec { r.A++; return r }, sameText{"X(Y).A", int8(8)})
		ns[len(ns)-1].texts = nil
		add(struct{ R Rec }{x}, sameText{"X.R.A", int8(7)}, sameText{"X.R.B == \"b\"", true})
	}()
	func() {
		type Rec struct {
			B int16
			A float32
			C *Rec
		}
		x := Rec{3, 1.5, &Rec{B: 4}}
		add(x, sameText{"X.A + 1", float32(2.5)}, sameText{"X.B << 1", int16(6)}, sameText{"X.C.B", int16(4)})
		add(&x, sameText{"X.A + 1", float32(2.5)}, sameText{"X.C.B", int16(4)})
		add([]Rec{x, x}, sameText{"X[1].A", float32(1.5)}, sameText{"X[0].B", int16(3)})
		add(map[string]Rec{"k": x}, sameText{"X[\"k\"].A * 2", float32(3)}, sameText{"X[\"k\"].C.B", int16(4)})
		add([2]*Rec{&x, &x}, sameText{"X[1].A", float32(1.5)})
		add(struct{ R Rec }{x}, sameText{"X.R.A", float32(1.5)}, sameText{"X.R.B == 3", true})
	}()
	func() {
		type Rec uint16
		add(Rec(5), sameText{"X + 1", uint16(6)}, sameText{"X.A", nil})
		add([]Rec{1, 2}, sameText{"X[1] << 2", uint16(8)}, sameText{"X[1].A", nil})
		add(map[string]Rec{"k": 3}, sameText{"X[\"k\"] * 2", uint16(6)})
		add(struct{ R Rec }{4}, sameText{"X.R / 2", uint16(2)}, sameText{"X.R.A", nil})
	}()
	func() {
		type Rec []string
		add(Rec{"a", "b"}, sameText{"X[1]", "b"}, sameText{"X + 1", nil}, sameText{"X.A", nil})
		add([]Rec{{"q"}}, sameText{"X[0][0] + \"!\"", "q!"}, sameText{"X[0].A", nil})
		add(struct{ R Rec }{Rec{"x"}}, sameText{"X.R[0]", "x"})
	}()
	func() {
		type Rec map[int]bool
		add(Rec{1: true}, sameText{"X[1]", true}, sameText{"!X[1]", false}, sameText{"X[\"k\"]", nil})
		add(struct{ R Rec }{Rec{2: true}}, sameText{"X.R[2]", true})
	}()
	func() {
		type Rec float64
		add(Rec(0.5), sameText{"X + 1", 1.5}, sameText{"X[0]", nil})
		add([]Rec{1, 2.5}, sameText{"X[1] * 2", 5.0})
	}()
	func() {
		type Rec func(int) string
		add(Rec(func(n int) string { return fmt.Sprint(n) }), sameText{"X(7)", "7"}, sameText{"X + 1", nil}, sameText{"X(7).A", nil})
	}()
	func() {
		type Rec func(string) int
		add(Rec(func(s string) int { return len(s) }), sameText{"X(\"abc\")", 3}, sameText{"X(7)", nil})
	}()
	func() {
		type Rec [3]int64
		add(Rec{1, 2, 3}, sameText{"X[2]", int64(3)}, sameText{"X[3]", nil})
		add(&Rec{1, 2, 3}, sameText{"X[0]", nil})
		ns[len(ns)-1].texts = nil
	}()
	func() {
		type Rec struct{ F func(uint8) uint8 }
		add(Rec{func(x uint8) uint8 { return x + 1 }}, sameText{"X.F(4)", uint8(5)}, sameText{"X.A", nil})
	}()
	add(reca.Node{V: 3, Next: &reca.Node{V: 4}}, sameText{"X.V + 1", uint8(4)}, sameText{"X.Next.V", uint8(4)})
	add(recb.Node{V: "v", Next: []recb.Node{{V: "w"}}}, sameText{"X.V + \"1\"", "v1"}, sameText{"X.Next[0].V", "w"}, sameText{"X.Next.V", nil})
	add(reca.Num(200), sameText{"X + 100", uint8(44)})
	add(recb.Num(200), sameText{"X + 100", int64(300)})
	add(reca.Rec{A: 1, X: reca.Sub{V: -4}}, sameText{"X.A + 1", uint8(2)}, sameText{"X.X.V", int16(-4)})
	add(recb.Rec{A: [2]uint16{1, 2}, X: recb.Sub{V: []uint8{9}}}, sameText{"X.A[1] + 1", uint16(3)}, sameText{"X.X.V[0]", uint8(9)}, sameText{"X.A + 1", nil})
	return
}

var theNamesakes []namesake

func (h *hist) names() {
	c, r := h.c, h.c.R
	if theNamesakes == nil {
		theNamesakes = namesakes()
	}
	for i := r.in(1, 4); i > 0; i-- {
		n := pick(r, theNamesakes...)
		t := expr.TypeOf(n.x)
		h.add("TypeOf "+reflect.TypeOf(n.x).String(), t.String(), t.Kind())
		for j, m := range theNamesakes {
			// Never equal to the model of another type that differs in kind.
			if u := expr.TypeOf(m.x); r.p(10) && t.Kind() != u.Kind() && expr.TypeEqual(t, u) {
				c.Fail("the models of %T and of namesake %d (%T) are equal", n.x, j, m.x)
			}
		}
		var res expr.Resolver
		if r.p(50) && representable(reflect.TypeOf(n.x)) {
			v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.TypeOf(n.x)}})).Elem()
			v.Field(0).Set(reflect.ValueOf(n.x))
			res = expr.NewStructResolver(v)
		} else {
			res = funcResolver(func(name string) expr.Value {
				if name == "X" {
					return expr.ValueOf(n.x)
				}
				return nil
			})
		}
		for _, x := range n.texts {
			got, err, pan := evalText(res, x.text)
			c.Eval(1)
			c.Count("namesakes", 1)
			h.add("Eval "+x.text, fmt.Sprintf("%T", got), got, err != nil, pan)
			if pan != "" || x.want == nil && err == nil || x.want != nil && (err != nil || !sameResult(got, x.want)) {
				c.Fail("%s for X of type %T gives %v (%T) (%v %s), want %v (%T)", x.text, n.x, got, got, err, pan, x.want, x.want)
				return
			}
		}
	}
}

// typed evaluates an arbitrary expression.
func (h *hist) typed() {
	c, r := h.c, h.c.R
	g := &tgen{r: r, vars: map[string]interface{}{}, slots: map[string]interface{}{}}
	n := g.typed(pick(r, kinds...), 1+r.n(3))
	src := n.e.Source(func() bool { return r.p(5) }, func() string { return pick(r, "", " ", "") })
	want, ok := wantOf(n.f)
	res := resolverFor(r, g.vars)
	for i := 0; i < 2; i++ {
		v, err, pan := evalText(res, src)
		c.Eval(1)
		h.add("Eval "+src, fmt.Sprintf("%T", v), v, err != nil, pan)
		if pan != "" || (err == nil) != ok || ok && !sameResult(v, want) {
			c.Fail("%s gives %v (%T) (%v %s), want %v (%T) %v", src, v, v, err, pan, want, want, ok)
			return
		}
	}
	// A program is evaluated with one set of values after another.
	if prog, pan := parseText(src); pan == "" && r.p(40) {
		vars := []map[string]interface{}{g.vars, twist(r, g.vars), twist(r, g.vars)}
		for i := 0; i < 4; i++ {
			k := r.n(3)
			res := resolverFor(r, vars[k])
			v, err, pan := evalProg(res, prog)
			w, werr, wpan := evalText(res, src)
			c.Eval(2)
			h.add("EvalProgram "+src, fmt.Sprintf("%T", v), err != nil, pan)
			if a, b := outcome(v, err), outcome(w, werr); a != b || pan != wpan {
				c.Fail("a program of %s used before gives %s %s, a new one %s %s", src, a, pan, b, wpan)
				return
			}
		}
	}
	// Malformed text in between.
	if r.p(30) {
		text := pick(r, badExprs...)
		_, err, pan := evalText(res, text)
		h.add("Eval "+text, err != nil, pan)
	}
}

// model resolves the fields of an arbitrary Go type.
func (h *hist) model(seed uint64) {
	r := h.c.R
	q := newRng(seed)
	var fs []reflect.StructField
	for i := q.in(1, 4); i > 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("N%d", len(fs)), Type: rtype(q, 2)})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	fillValue(newRng(seed, r.u64()), v, 4)
	n := fs[r.n(len(fs))].Name
	var s string
	var pan string
	func() {
		defer guard(&pan)
		res := expr.NewStructResolver(v)
		a := expr.NewTypeResolverAdapter(res).TypeResolve(n)
		b := expr.NewStructTypeResolver(v.Interface()).TypeResolve(n)
		x, err := expr.Eval(res, n)
		s = fmt.Sprint(a, b, expr.TypeEqual(a, b), err != nil)
		if k := v.FieldByName(n).Kind(); k < reflect.Array {
			s += fmt.Sprint(x)
		}
	}()
	h.c.Eval(1)
	h.add("model of "+v.Type().String(), s, pan != "")
}

func (h *hist) png() {
	c, r := h.c, h.c.R
	magic := []byte("\x89PNG\r\n\x1a\n")
	ks := []chunk{randChunk(r, true), randChunk(r, false), randChunk(r, false)}
	data := append([]byte(nil), magic...)
	for _, k := range ks {
		data = putChunk(data, k, binary.BigEndian)
	}
	f := &png.File{}
	cut := data
	if r.p(30) {
		cut = data[:r.n(len(data))]
	}
	err, pan := unpack(cut, binary.BigEndian, f)
	c.Eval(1)
	h.add("png", err != nil, pan)
	if len(cut) < len(data) {
		return
	}
	if err != nil || pan != "" {
		c.Fail("png: %v %s", err, pan)
		return
	}
	if s := diffFile(f, magic, ks, binary.BigEndian); s != "" {
		c.Fail("png: %s", s)
	}
	b, err, pan := pack(binary.BigEndian, f)
	if err != nil || pan != "" || !bytes.Equal(b, data) {
		c.Fail("png: Pack gives %s (%v %s), want %s", hx(b), err, pan, hx(data))
	}
}

const groupSize = 6

func histCase(c *Ctx) {
	r := c.R
	h := &hist{c: c}
	rude = 0
	ng := c.Total/groupSize + 1
	what := ""
	for i := r.in(4, 12); i > 0 && c.ok(); i-- {
		var m member
		switch {
		case r.p(25):
			m = member{pick(r, statics13()...), &prof{}}
		case r.p(20):
			m = pick(r, groupOf(c.Seed, r.n(ng))...)
		default:
			m = pick(r, groupOf(c.Seed, c.N/groupSize)...)
		}
		switch k := r.n(100); {
		case k < 45:
			what += "layout "
			h.layout(m.t, m.q)
		case k < 60:
			what += "failing "
			h.failing(m.t, m.q)
		case k < 70:
			what += "arbitrary "
			h.soup(hashStr(fmt.Sprint(c.Seed, r.n(c.Total))))
		case k < 80:
			what += "texts "
			h.texts()
		case k < 88:
			what += "names "
			h.names()
		case k < 93:
			what += "typed "
			h.typed()
		case k < 98:
			what += "model "
			h.model(hashStr(fmt.Sprint(c.Seed, r.n(c.Total))))
		default:
			what += "png "
			h.png()
		}
	}
	h.checkHeld()
	c.out.Digests[c.N] = strings.Join(h.sums, " ")
	c.Count("outcomes_recorded", len(h.sums))
	c.Distinct(hashStr(c.out.Digests[c.N]))
	if c.out.Counts["cases_run"]++; c.N < 40 {
		c.Sample("%s", what)
	}
}

// histCross compares what the processes saw.
func histCross(ws []*workerOut) (msgs []string) {
	seen := map[int]string{}
	var ks []int
	for _, w := range ws {
		if !w.Done {
			continue
		}
		for k, d := range w.Digests {
			if _, ok := seen[k]; !ok {
				seen[k] = d
				ks = append(ks, k)
			}
		}
	}
	sort.Ints(ks)
	for _, k := range ks {
		for i, w := range ws {
			d, ok := w.Digests[k]
			if !w.Done || !ok || d == seen[k] {
				continue
			}
			a, b := strings.Fields(seen[k]), strings.Fields(d)
			j := 0
			for j < len(a) && j < len(b) && a[j] == b[j] {
				j++
			}
			msgs = append(msgs, fmt.Sprintf("case %d: outcome %d of %d differs between two processes that make the same calls in different orders (process %d)", k, j+1, len(a), i))
			break
		}
		if len(msgs) >= 5 {
			break
		}
	}
	return
}

func init() {
	register(&Check{ID: "C13",
		Rule:  "Every one of 8 processes runs every case, each process in an order of its own. Case = 4 to 12 rounds of calls chosen from: definitions in groups that differ in nothing but their tags, hand-written types and wrappers of them that share printed names (same package and different packages), calls that fail half-way (short input, failing codecs, wrong lengths, nil, hostile input), arbitrary definitions, one text evaluated for operands of 14 types (directly, as shared programs and as conditions), Go types of the same name in expressions, arbitrary expressions, models of arbitrary types, png files; different values at the same address, one input buffer for everything. Every outcome with a known value is compared with it (reference codec, Go operators); all outcomes are compared between the processes; results given out earlier are looked at again after later calls. Non-trivial: distinct sequences of outcomes.",
		Quick: 20000, Thorough: 250000, Repeat: true,
		Case: histCase, Cross: histCross})
}
