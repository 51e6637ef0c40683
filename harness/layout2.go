package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"sync/atomic"
)

// hasNil tells whether a value contains a nil pointer that unpacking would
// allocate.
func hasNil(v reflect.Value) (found bool) {
	walkPresent(v, func(st *St, sv reflect.Value) {
		for _, f := range st.F {
			if f.active() && !f.Root && !f.Parent && !f.Pad {
				found = found || nilInside(sv.Field(f.Idx))
			}
		}
	})
	return
}

func nilInside(v reflect.Value) bool {
	if customs[v.Type()] != nil {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || nilInside(v.Elem())
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if nilInside(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

// ---- C04

func checkSizes(c *Ctx, v reflect.Value, little bool) {
	e, _, err := reference(v, little, false)
	if err != nil {
		c.Count("outside_domain", 1)
		return
	}
	bits, size := e.w.n, len(e.w.b)
	in := deepCopy(v)
	var pb []byte
	for i, arg := range []interface{}{in.Interface(), in.Addr().Interface()} {
		what := [...]string{"value", "pointer"}[i]
		n, err, pan := sizeOf(arg)
		c.Eval(1)
		if err != nil || pan != "" || n != size {
			c.Fail("SizeOf(%s) is %d (%v %s), want %d\n value %s\n type %s", what, n, err, pan, size, dump(v), tname(v.Type()))
		}
		n, err, pan = bitSize(arg)
		c.Eval(1)
		if err != nil || pan != "" || n != bits {
			c.Fail("BitSize(%s) is %d (%v %s), want %d\n value %s\n type %s", what, n, err, pan, bits, dump(v), tname(v.Type()))
		}
		b, err, pan := pack(orderOf(little), arg)
		c.Eval(1)
		if err != nil || pan != "" || len(b) != size {
			c.Fail("Pack(%s) gives %d bytes (%v %s), sizes say %d\n value %s\n type %s", what, len(b), err, pan, size, dump(v), tname(v.Type()))
		}
		if s, _, _ := sizeOf(arg); s != len(b) {
			c.Fail("SizeOf after Pack is %d, packed %d bytes\n value %s\n type %s", s, len(b), dump(v), tname(v.Type()))
		}
		pb = b
	}
	if len(pb) != size || hasNil(v) {
		return
	}
	// Unpacking needs exactly this much.
	c.checkUnpack(append([]byte(nil), pb...), reflect.New(v.Type()).Elem(), little, "exact length", diffAll)
	if size > 0 {
		c.checkUnpack(append([]byte(nil), pb[:size-1]...), reflect.New(v.Type()).Elem(), little, "one byte less", diffAll)
	}
	c.Count("bits", bits)
}

// ---- C05

// tagOrder is a byte order with an identity.
type tagOrder struct {
	binary.ByteOrder
	id int
}

func checkOrders(c *Ctx, v reflect.Value, little bool) {
	e1, after, err := reference(v, little, true)
	if err != nil {
		c.Count("outside_domain", 1)
		return
	}
	e2, _, err := reference(v, !little, true)
	if err != nil {
		panic(err)
	}
	o := &tagOrder{orderOf(little), c.N}
	verify := func(op string, log *codecLog) {
		var want []Event
		var declared []bool
		for i, ev := range e1.events {
			if k := customByName[ev.Type]; ev.Custom && (op == "pack" && k.Enc != nil || op == "unpack" && k.Dec != nil) {
				want = append(want, ev)
				declared = append(declared, e2.events[i].Little == ev.Little)
			}
		}
		var got []codecCall
		for _, k := range log.calls {
			if k.Op == op {
				got = append(got, k)
			}
		}
		if len(got) != len(want) {
			return // the business of C14
		}
		for i, k := range got {
			c.Eval(1)
			c.Count("codec_orders", 1)
			if k.Order == nil || isLittle(k.Order) != want[i].Little {
				c.Fail("%s: %s of %s gets byte order %v, want %s\n value %s\n type %s", lname(little), op, k.Type, k.Order, lname(want[i].Little), dump(v), tname(v.Type()))
			} else if !declared[i] && k.Order != binary.ByteOrder(o) {
				c.Fail("%s: %s of %s does not get the caller's own byte order, but %T\n value %s\n type %s", lname(little), op, k.Type, k.Order, dump(v), tname(v.Type()))
			}
		}
	}
	log := &codecLog{}
	theLog.Store(log)
	b, perr, pan := pack(o, deepCopy(v).Addr().Interface())
	theLog.Store(nil)
	c.Eval(1)
	if perr != nil || pan != "" || !bytes.Equal(b, e1.w.b) {
		c.Fail("%s: Pack gives the wrong bytes: %s (%v %s)\n got  %s\n want %s\n value %s\n type %s", lname(little), firstDiff(b, e1.w.b), perr, pan, hx(b), hx(e1.w.b), dump(v), tname(v.Type()))
		return
	}
	verify("pack", log)
	log = &codecLog{}
	theLog.Store(log)
	dst := reflect.New(v.Type())
	uerr, pan := unpack(b, o, dst.Interface())
	theLog.Store(nil)
	c.Eval(1)
	if uerr != nil || pan != "" {
		c.Fail("%s: Unpack fails: %v %s\n data %s\n value %s\n type %s", lname(little), uerr, pan, hx(b), dump(v), tname(v.Type()))
		return
	}
	verify("unpack", log)
	if d := diff(after, dst.Elem(), diffWire); d != "" {
		c.Fail("%s: value changes in a round trip: %s\n data %s\n value %s\n type %s", lname(little), d, hx(b), dump(v), tname(v.Type()))
	}
	c.checkUnpack(perturb(c.R, b), reflect.New(v.Type()).Elem(), little, "damaged image", diffAll)
	if !bytes.Equal(e1.w.b, e2.w.b) {
		c.Count("order_sensitive_values", 1)
	}
	if n := len(e1.events); n > 0 {
		l, g := 0, 0
		for _, ev := range e1.events {
			if ev.Little {
				l++
			} else {
				g++
			}
		}
		if l > 0 && g > 0 {
			c.Count("mixed_order_values", 1)
		}
	}
}

// ---- C06

type bitCombo struct {
	wire   string
	width  int
	off    int
	little bool
}

var bitCombos = func() (cs []bitCombo) {
	for _, w := range []string{"uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int", "uint", "byte", "rune", "int8"} {
		k := wireType(w).Kind()
		for n := 1; n <= wireBits(k); n++ {
			if n == 1 && isIntKind(k) || k == reflect.Int8 && n == 8 {
				// A signed bit has no room for a value; int8:8 is plain int8.
				if n == 1 && k != reflect.Int8 {
					continue
				}
			}
			for off := 0; off < 8; off++ {
				cs = append(cs, bitCombo{w, n, off, off%2 == 0}, bitCombo{w, n, off, off%2 == 1})
			}
		}
	}
	return
}()

// nativesFor lists native types that can hold a wire type of kind k.
func nativesFor(r *rng, wt reflect.Type) reflect.Type {
	var ts []reflect.Type
	all := uintTypes
	if isIntKind(wt.Kind()) {
		all = intTypes
	}
	for _, t := range all {
		if kindBits(t.Kind()) >= wireBits(wt.Kind()) {
			ts = append(ts, t)
		}
	}
	if r.p(10) {
		return pick(r, boolTypes...)
	}
	return pick(r, ts...)
}

func bitSweep(c *Ctx, k bitCombo) {
	r := c.R
	resetGenerated()
	st := &St{}
	pos := 0
	add := func(f *Fd) {
		f.Name = fmt.Sprintf("B%d", len(st.F))
		if f.Pad {
			f.Name = "_"
		}
		f.CountedBy = -1
		f.Idx = len(st.F)
		if f.WT == nil {
			f.WT = f.NT
			if f.TypeTx != "" {
				f.WT = wireType(f.TypeTx)
			}
		}
		st.F = append(st.F, f)
	}
	if k.off > 0 {
		f := &Fd{NT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: k.off, Pad: r.p(20)}
		add(f)
		pos = k.off
	}
	wt := wireType(k.wire)
	main := &Fd{NT: nativesFor(r, wt), TypeTx: k.wire, Bits: k.width}
	if main.NT.Kind() == reflect.Bool {
		main.VB, main.IB = r.p(50), r.p(50)
	}
	if k.width == wireBits(wt.Kind()) {
		main.Bits = 0
	}
	if main.Bits > 0 && k.wire != "int8" && r.p(15) {
		// The same width as an expression.
		main.Bits, main.BitsE = 0, litInt(int64(k.width))
	}
	add(main)
	pos += k.width
	// Neighbours of every sort, which must not be disturbed.
	for i := r.in(1, 3); i > 0; i-- {
		switch r.n(8) {
		case 0:
			n := r.in(1, 3)
			add(&Fd{NT: reflect.TypeOf(""), TypeTx: fmt.Sprintf("[%d]byte", n)})
		case 1:
			add(&Fd{NT: reflect.TypeOf([]byte(nil)), TypeTx: fmt.Sprintf("[%d]byte", r.in(1, 3))})
		case 2:
			add(&Fd{NT: pick(r, uintTypes[:5]...), Skip: r.n(2)})
		case 3:
			n := r.in(1, 7)
			add(&Fd{NT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: n, Pad: true})
		case 4:
			add(&Fd{NT: pick(r, floatTypes...)})
		case 5:
			in := &St{}
			in.F = append(in.F, &Fd{Name: "N1", NT: basicTypes[reflect.Uint16], WT: basicTypes[reflect.Uint16], TypeTx: "uint16", Bits: r.in(1, 15), CountedBy: -1})
			in.F = append(in.F, &Fd{Name: "N2", NT: basicTypes[reflect.Uint8], WT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: r.in(1, 7), CountedBy: -1})
			in.build(r)
			add(&Fd{NT: reflect.ArrayOf(r.in(1, 3), in.RT)})
		default:
			w := pick(r, "uint16", "uint32", "int64", "int32")
			add(&Fd{NT: wireType(w), TypeTx: w, Bits: r.in(2, wireBits(wireType(w).Kind())-1)})
		}
	}
	if r.p(50) {
		add(&Fd{NT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: r.in(1, 7)})
	}
	st.build(r)
	c.Distinct(hashStr(st.RT.String()))
	c.Count("swept_combinations", 1)
	if c.N%997 == 0 {
		c.Sample("%s", tname(st.RT))
	}
	vg := newVgen(r, &prof{})
	for i := 0; i < 4; i++ {
		v := vg.fresh(st.RT)
		if k.wire == "int8" && main.NT.Kind() != reflect.Bool {
			// The width alone tells what fits.
			v.Field(main.Idx).SetInt(signExtend(r.u64(), k.width))
		}
		c.checkBytes(v, k.little, r.p(50))
		n, _ := staticTotal(st)
		data := r.bytes((n + 7) / 8)
		switch i {
		case 0:
			for j := range data {
				data[j] = 0xff
			}
		case 1:
			for j := range data {
				data[j] = 0
			}
			// A single set bit at the edges of the field.
			for _, p := range []int{k.off, k.off + k.width - 1} {
				if p >= 0 && p/8 < len(data) && r.p(50) {
					data[p/8] |= 0x80 >> uint(p%8)
				}
			}
		}
		c.bitUnpack(poison(r, data), st, k.little)
	}
}

func staticTotal(st *St) (n int, err error) {
	for _, f := range st.F {
		b := f.Bits
		if f.BitsE != nil {
			b, _ = evalInt(f.BitsE, structEnv(reflect.Value{}, nil))
		}
		if b == 0 {
			b, err = staticBits(f.WT)
		}
		n += b + 8*f.Skip
	}
	return
}

// bitUnpack is checkUnpack with the recorded finding about int8 bit fields.
func (c *Ctx) bitUnpack(data []byte, st *St, little bool) {
	zero := reflect.New(st.RT).Elem()
	d, want, err := refUnpack(data, zero, little, false)
	if err != nil || d.quirks == 0 {
		c.checkUnpack(data, zero, little, "bits", diffAll)
		return
	}
	_, quirky, _ := refUnpack(data, zero, little, true)
	got := reflect.New(st.RT)
	uerr, pan := unpack(data, orderOf(little), got.Interface())
	c.Eval(1)
	if uerr == nil && pan == "" {
		if diff(want, got.Elem(), diffAll) == "" {
			return
		}
		if diff(quirky, got.Elem(), diffAll) == "" {
			c.Known("int8-bits", "data %s into %s gives %s, want %s", hx(data), tname(st.RT), dump(got.Elem()), dump(want))
			return
		}
	}
	c.Fail("%s: Unpack gives %s (%v %s), want %s\n data %s\n type %s", lname(little), dump(got.Elem()), uerr, pan, dump(want), hx(data), tname(st.RT))
}

// ---- C07

// miscount damages the relation between a counter and its slices, so that the
// value cannot be packed.
func miscount(r *rng, v reflect.Value) (what string) {
	type target struct {
		st *St
		sv reflect.Value
		c  *Fd
	}
	var ts []target
	walkPresent(v, func(st *St, sv reflect.Value) {
		for _, f := range st.F {
			if f.isCounter(st) && holds(f.If, sv) {
				ts = append(ts, target{st, sv, f})
			}
		}
	})
	if len(ts) == 0 {
		return ""
	}
	t := pick(r, ts...)
	var linked []*Fd
	for _, f := range t.st.F {
		if f.counts(t.c.Idx) {
			if f.If != nil {
				if ok, err := evalBool(f.If, structEnv(t.sv, nil)); err != nil || !ok {
					return ""
				}
			}
			linked = append(linked, f)
		}
	}
	w, err := fieldBitsWidth(t.c, t.sv)
	if err != nil {
		return ""
	}
	if w == 0 {
		w = wireBits(t.c.WT.Kind())
	}
	max := counterMax(t.c, w)
	n := -1
	if len(linked) > 1 && r.p(60) {
		linked = linked[r.n(len(linked)):][:1]
		n = t.sv.Field(linked[0].Idx).Len() + r.in(1, 3)
		what = "lengths differ"
	} else if max < 66000 {
		n = int(max) + r.in(1, 3)
		if r.p(30) {
			n = int(max)*2 + 2
		}
		what = "counter too narrow"
	} else {
		return ""
	}
	for _, f := range linked {
		fv := t.sv.Field(f.Idx)
		if fv.Kind() == reflect.String {
			fv.SetString(string(make([]byte, n)))
			continue
		}
		if n > 400 && fv.Type().Elem().Kind() >= reflect.Array {
			return ""
		}
		s := reflect.MakeSlice(fv.Type(), n, n)
		reflect.Copy(s, fv)
		fv.Set(s)
	}
	return what
}

// strayLists gives absent slices a length of their own where another slice of
// the same counter is present.
func strayLists(r *rng, v reflect.Value) (changed bool) {
	walkPresent(v, func(st *St, sv reflect.Value) {
		present := func(f *Fd) bool {
			if f.If == nil {
				return true
			}
			ok, err := evalBool(f.If, structEnv(sv, nil))
			return err != nil || ok
		}
		for _, f := range st.F {
			if f.CountedBy < 0 || len(f.Also) > 0 || present(f) || !r.p(60) {
				continue
			}
			for _, o := range st.F {
				if o != f && o.counts(f.CountedBy) && present(o) {
					fv := sv.Field(f.Idx)
					if n := r.n(6); fv.Kind() == reflect.String {
						fv.SetString(string(r.bytes(n)))
					} else {
						fv.Set(reflect.MakeSlice(fv.Type(), n, n))
					}
					changed = true
					break
				}
			}
		}
	})
	return
}

func counterCase(c *Ctx) {
	if c.few(80) {
		bigCase(c, "count")
		return
	}
	if c.R.p(5) {
		mappedList(c)
		return
	}
	p := generalProf
	p.Count, p.Ignore, p.Unexp, p.Pad, p.Cust, p.Sw, p.Stat, p.Bits, p.Ptr = 40, 15, 15, 10, 5, 3, 8, 35, 10
	p.Long = 8
	t, q := c.newType(p)
	vg := newVgen(c.R, q)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := c.R.p(50)
		_, plain, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		if c.R.p(60) && strayLists(c.R, v) {
			c.Count("absent_slices_of_shared_counters", 1)
		}
		_, after, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		in := deepCopy(v)
		junked := c.R.p(70) && junkCounters(c.R, in)
		b, perr, pan := pack(orderOf(little), in.Addr().Interface())
		c.Eval(1)
		if perr != nil || pan != "" {
			c.Fail("%s: Pack fails: %v %s\n value %s\n type %s", lname(little), perr, pan, dump(v), tname(t))
			continue
		}
		if d := diff(after, in, diffAll); d != "" {
			c.Fail("%s: counters are not updated in the packed value: %s\n value %s\n type %s", lname(little), d, dump(v), tname(t))
		}
		if junked {
			c.Count("stale_counters_corrected", 1)
		}
		dst := reflect.New(t)
		uerr, pan := unpack(b, orderOf(little), dst.Interface())
		if uerr != nil || pan != "" {
			c.Fail("%s: Unpack fails: %v %s\n data %s\n value %s\n type %s", lname(little), uerr, pan, hx(b), dump(v), tname(t))
			continue
		}
		if d := diff(plain, dst.Elem(), diffWire); d != "" {
			c.Fail("%s: counted content changes in a round trip: %s\n data %s\n value %s\n type %s", lname(little), d, hx(b), dump(after), tname(t))
		}
		c.checkBytes(v, little, c.R.p(50))
		c.checkUnpack(perturb(c.R, b), reflect.New(t).Elem(), little, "damaged image", diffAll)
		if w := deepCopy(v); true {
			if what := miscount(c.R, w); what != "" {
				if _, _, err := reference(w, little, false); err == errBad {
					c.Count("miscounted: "+what, 1)
					c.checkBytes(w, little, c.R.p(30))
				}
			}
		}
	}
	c.Sample("%s", tname(t))
}

// ---- C08

func hostile(r *rng, b []byte) []byte {
	c := append([]byte(nil), b...)
	switch r.n(7) {
	case 0:
		for i := range c {
			c[i] = 0xff
		}
	case 1:
		for i := range c {
			c[i] = 0
		}
	case 2:
		c = r.bytes(r.n(64))
	case 3:
		for i := r.in(1, 3); i > 0 && len(c) > 0; i-- {
			k := r.n(len(c))
			for j := k; j < len(c) && j < k+pick(r, 1, 2, 4, 8); j++ {
				c[j] = pick(r, byte(0xff), 0x7f, 0x80, 0xfe)
			}
		}
	case 4:
		c = perturb(r, c)
	case 5:
		c = append(c, r.bytes(r.n(2000))...)
	default:
		for i := range c {
			if r.p(30) {
				c[i] = pick(r, byte(0xff), 0x7f, 0x80, byte(r.u64()))
			}
		}
	}
	if r.p(30) && len(c) > 0 {
		c = c[:r.n(len(c))]
	}
	return c
}

// The constants of the memory bound: far above what legitimate decoding of the
// generated definitions allocates, far below what a claimed element count can
// cause.
const (
	memBase    = 4 << 20
	memPerByte = 24 << 10
)

func hostileCase(c *Ctx) {
	r := c.R
	var t reflect.Type
	var q *prof
	if r.p(15) {
		resetGenerated()
		t = pick(r, staticList...).T
		if r.p(30) {
			t = reflect.TypeOf(hostileTypes[r.n(len(hostileTypes))])
		}
		q = &prof{}
	} else {
		p := generalProf
		p.Count, p.SizeE, p.While, p.InOut, p.Int8Bits = 25, 5, 20, 8, true
		t, q = c.newType(p)
	}
	c.Distinct(hashStr(t.String()))
	vg := newVgen(r, q)
	var before, after runtime.MemStats
	for i := 0; i < values(c); i++ {
		var b []byte
		little := r.p(50)
		if _, ok := isHostile[t]; ok {
			b = r.bytes(r.n(40))
		} else if e, _, err := reference(vg.fresh(t), little, false); err == nil {
			b = e.w.b
		}
		for j := 0; j < 3; j++ {
			data := hostile(r, b)
			keep := append([]byte(nil), data...)
			dst := reflect.New(t)
			measure := j == 0 || len(data) > 1000
			if measure {
				runtime.ReadMemStats(&before)
			}
			err, pan := unpack(data, orderOf(little), dst.Interface())
			if measure {
				runtime.ReadMemStats(&after)
				n := int(after.TotalAlloc - before.TotalAlloc)
				limit := memBase + memPerByte*len(data) + 64*int(t.Size())
				if t == reflect.TypeOf(HVoid{}) || t == reflect.TypeOf(HVoids{}) {
					limit += 16 << 20 // for 64 K elements out of nothing
				}
				if n > limit {
					c.Fail("%s: Unpack of %d bytes allocates %d bytes of memory\n data %s\n type %s", lname(little), len(data), n, hx(data), tname(t))
				}
				if pct := n * 1000 / limit; pct > c.out.Counts["max_permille_of_memory_bound"] {
					c.out.Counts["max_permille_of_memory_bound"] = pct
				}
			}
			c.Eval(1)
			if pan != "" {
				c.Fail("%s: Unpack panics: %s\n data %s\n type %s", lname(little), pan, hx(data), tname(t))
			}
			if err != nil {
				c.Count("rejected", 1)
			} else {
				c.Count("accepted", 1)
			}
			if !bytes.Equal(keep, data) {
				c.Fail("%s: Unpack changes its input\n data %s\n type %s", lname(little), hx(keep), tname(t))
			}
			c.Count("bytes", len(data))
		}
	}
	c.Sample("%s", tname(t))
}

// Definitions in which a claimed count is at its most dangerous.
type (
	HBig8 struct {
		N uint64 `struct:"uint64,sizeof=D"`
		D []byte
	}
	HBigS struct {
		N int64 `struct:"int64,sizeof=D"`
		D []HRec
	}
	HRec struct {
		A uint32
		B [4]uint16
		C *HBig8 `struct:"if=A == 1"`
	}
	HStr struct {
		N uint32
		D string `struct:"sizefrom=N"`
	}
	HExpr struct {
		N uint32
		M uint32
		D []uint32 `struct-size:"N * M"`
		E []byte   `struct-size:"N << M"`
	}
	HWhile struct {
		D []HItem `struct-while:"!_eof"`
	}
	HItem struct {
		T uint8
		S struct {
			A *uint16 `struct:"case=1"`
			B *HBig8  `struct:"case=2"`
			C struct {
				N int8 `struct:"sizeof=X"`
				X []HItem
			} `struct:"case=3"`
			D [3]uint8 `struct:"default"`
		} `struct-switch:"T"`
	}
	HIf struct {
		D []HIfItem `struct-while:"!_eof"`
	}
	HIfItem struct {
		A *uint8 `struct-if:"!_eof"`
		B uint8  `struct-if:"!_eof"`
	}
	HEmpty struct {
		W bool
		D []HNone `struct-while:"W"`
	}
	HNone struct{}
	HNest struct {
		N uint16 `struct:"sizeof=D"`
		D []HNest2
	}
	HNest2 struct {
		N uint16 `struct:"sizeof=D"`
		D []HNest3
	}
	HNest3 struct {
		N uint16 `struct:"sizeof=D"`
		D []uint64
	}
	HBitsCnt struct {
		N uint64 `struct:"uint64:63,sizeof=D"`
		D []uint16
		M int64 `struct:"int64:62,sizeof=E"`
		E string
	}
	HCust struct {
		N int32 `struct:"sizeof=D"`
		D []CByte
		M uint32 `struct:"sizeof=E"`
		E []CVar
	}
	HVoid struct { // elements that take nothing from the data
		N uint32 `struct:"sizeof=D"`
		D []HNone
		M uint64 `struct:"sizeof=E"`
		E []HAbsent
	}
	HAbsent struct {
		A uint8  `struct-if:"false"`
		B uint16 `struct:"-"`
	}
	HVoids struct {
		N uint32
		D []HVoidIn  `struct-size:"N"`
		E [][0]uint8 `struct-size:"N & 7"`
	}
	HVoidIn struct {
		P *HVoids     `struct:"parent"`
		D []HNone     `struct-size:"P.N"`
		E []*[0]uint8 `struct-size:"P.N & 3"`
	}
	HBitsE struct {
		W uint8
		A uint64 `struct-bits:"W"`
		B int32  `struct-bits:"W - 3"`
	}
)

var (
	hostileTypes = []interface{}{HBig8{}, HBigS{}, HRec{}, HStr{}, HExpr{}, HWhile{}, HIf{}, HEmpty{}, HNest{}, HBitsCnt{}, HCust{}, HBitsE{}, HVoid{}, HVoids{}}
	isHostile    = func() map[reflect.Type]bool {
		m := map[reflect.Type]bool{}
		for _, x := range hostileTypes {
			m[reflect.TypeOf(x)] = true
		}
		return m
	}()
)

// Values that nest as deep as the data says.
type (
	DList struct {
		More uint8
		Next *DList `struct:"if=More == 1"`
	}
	DKids struct {
		N    uint8 `struct:"sizeof=Kids"`
		Kids []DKids
	}
	DSwitch struct {
		N uint8
		S struct {
			A *DSwitch `struct:"case=1"`
		} `struct:"switch=N"`
	}
	DBack struct {
		Up   *DBack `struct:"parent"`
		More uint8
		W    []DBack `struct:"size=More"`
	}
	DBig struct {
		In [1]struct {
			More uint16
			P    *DBig `struct-if:"More == 257"`
		}
	}
)

var deepTypes = []interface{}{DList{}, DKids{}, DSwitch{}, DBack{}, DBig{}}

func depthOf(v reflect.Value) (n int) {
	for {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			v = v.Elem()
			n++
		case reflect.Slice:
			if v.Len() == 0 {
				return
			}
			v = v.Index(0)
			n++
		case reflect.Array:
			v = v.Index(0)
		case reflect.Struct:
			v = v.Field(v.NumField() - 1)
		default:
			return
		}
	}
}

// deepCase gives such types moderately deep input, which must be read, and
// input that is all depth, which must be survived.
func deepCase(c *Ctx) {
	t := reflect.TypeOf(deepTypes[c.N%len(deepTypes)])
	c.Distinct(hashStr(t.String()))
	c.Count("deep", 1)
	for _, n := range []int{c.R.in(2, 50), 8000, 3000000} {
		data := bytes.Repeat([]byte{1}, n)
		want := n - 1
		if t == reflect.TypeOf(DBig{}) {
			want = n/2 - 1
		}
		dst := reflect.New(t)
		if n < 10000 {
			data[n-1] = 0
			if t == reflect.TypeOf(DBig{}) {
				data = append(data[:2*want], 0, 0)
			}
		}
		err, pan := unpack(data, orderOf(c.R.p(50)), dst.Interface())
		c.Eval(1)
		if pan != "" {
			c.Fail("Unpack of %d bytes panics: %s\n type %s", n, pan, t)
		}
		if n >= 10000 {
			continue
		}
		if d := depthOf(dst.Elem()); err != nil || d != want {
			c.Fail("Unpack reads %d levels of %d (%v)\n type %s", d, want, err, t)
			continue
		}
		if b, err, pan := pack(orderOf(c.R.p(50)), dst.Interface()); err != nil || pan != "" || !bytes.Equal(b, data) {
			c.Fail("Pack of a value %d levels deep gives %s (%v %s)\n type %s", want, hx(b), err, pan, t)
		}
	}
}

// ---- C10

// shadow watches memory that no operation may change: everything up to the
// capacity of the slices reachable from a value.
type shadow struct {
	at   []reflect.Value
	want []reflect.Value
}

func shadowOf(v reflect.Value) *shadow {
	s := &shadow{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		v = open(v)
		switch v.Kind() {
		case reflect.Slice:
			if v.Cap() > v.Len() {
				tail := v.Slice3(v.Len(), v.Cap(), v.Cap())
				s.at = append(s.at, tail)
				s.want = append(s.want, deepCopy(tail))
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Struct:
			if customs[v.Type()] != nil {
				return
			}
			st := stOf(v.Type())
			for i := 0; i < v.NumField(); i++ {
				if f := st.F[i]; !f.Root && !f.Parent {
					rec(v.Field(i))
				}
			}
		case reflect.Ptr:
			if !v.IsNil() {
				rec(v.Elem())
			}
		}
	}
	rec(v)
	return s
}

func (s *shadow) changed() string {
	for i := range s.at {
		if d := diff(s.want[i], s.at[i], diffAll); d != "" {
			return "memory past the end of a slice: " + d
		}
	}
	return ""
}

func untouchedCase(c *Ctx) {
	r := c.R
	p := generalProf
	p.Ignore, p.Unexp, p.Nil = 10, 10, 10
	t, q := c.newType(p)
	vg := newVgen(r, q)
	vg.rest, vg.over = true, r.p(60)
	for i := 0; i < values(c); i++ {
		v := vg.fresh(t)
		little := r.p(50)
		e, after, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		// By value: nothing reachable by the caller may change except what
		// lies behind pointers and slices (counters and links).
		orig := deepCopy(v)
		sh := shadowOf(v)
		if _, err, pan := sizeOf(v.Interface()); err != nil || pan != "" {
			c.Fail("SizeOf fails: %v %s\n value %s\n type %s", err, pan, dump(v), tname(t))
		}
		if d := diff(after, v, diffAll); d != "" && diff(orig, v, diffAll) != "" {
			c.Fail("SizeOf of a value changes more than counters and links: %s\n value %s\n type %s", d, dump(orig), tname(t))
		}
		b0, err, pan := pack(orderOf(little), v.Interface())
		c.Eval(2)
		if err != nil || pan != "" || !bytes.Equal(b0, e.w.b) {
			c.Fail("%s: Pack of a value gives %s (%v %s), want %s\n value %s\n type %s", lname(little), hx(b0), err, pan, hx(e.w.b), dump(v), tname(t))
			continue
		}
		for j := 0; j < 2; j++ {
			in := deepCopy(orig)
			sh2 := shadowOf(in)
			keep0 := append([]byte(nil), b0...)
			b1, err, pan := pack(orderOf(little), in.Addr().Interface())
			c.Eval(1)
			if err != nil || pan != "" || !bytes.Equal(b1, b0) {
				c.Fail("%s: Pack by pointer gives %s (%v %s), by value %s\n value %s\n type %s", lname(little), hx(b1), err, pan, hx(b0), dump(orig), tname(t))
				break
			}
			if d := diff(after, in, diffAll); d != "" {
				c.Fail("%s: Pack changes more than counters and links: %s\n value %s\n got %s\n type %s", lname(little), d, dump(orig), dump(in), tname(t))
			}
			b2, _, _ := pack(orderOf(little), in.Addr().Interface())
			if !bytes.Equal(b2, b1) {
				c.Fail("%s: packing the same value again gives other bytes: %s != %s\n value %s\n type %s", lname(little), hx(b2), hx(b1), dump(orig), tname(t))
			}
			// The result is the caller's own memory, all of it.
			full := b1[:cap(b1)]
			for k := range full {
				full[k] ^= 0xa5
			}
			if !bytes.Equal(b2, keep0) || !bytes.Equal(b0, keep0) {
				c.Fail("%s: results of Pack share memory\n value %s\n type %s", lname(little), dump(orig), tname(t))
			}
			if d := diff(after, in, diffAll); d != "" {
				c.Fail("%s: the result of Pack shares memory with the value: %s\n value %s\n type %s", lname(little), d, dump(orig), tname(t))
			}
			if s := sh2.changed(); s != "" {
				c.Fail("%s: Pack changes %s\n value %s\n type %s", lname(little), s, dump(orig), tname(t))
			}
			c.Eval(2)
		}
		if s := sh.changed(); s != "" {
			c.Fail("%s: Pack changes %s\n value %s\n type %s", lname(little), s, dump(orig), tname(t))
		}
		// Unpacking: input, and fields that take no part.
		for j := 0; j < 3; j++ {
			data := b0
			switch j {
			case 1:
				data = perturb(r, b0)
			case 2:
				data = b0[:r.n(len(b0)+1)]
			}
			big := append(append([]byte(nil), data...), r.bytes(8)...)
			keep := append([]byte(nil), big...)
			dst := vg.fresh(t)
			dorig := deepCopy(dst)
			uerr, pan := unpack(big[:len(data)], orderOf(little), dst.Addr().Interface())
			c.Eval(1)
			if pan != "" {
				c.Fail("%s: Unpack panics: %s", lname(little), pan)
			}
			if !bytes.Equal(big, keep) {
				c.Fail("%s: Unpack changes its input at %s (error: %v)\n data %s\n type %s", lname(little), firstDiff(big, keep), uerr, hx(keep), tname(t))
			}
			if d := aside(dorig, dst); d != "" {
				c.Fail("%s: Unpack changes a field that takes no part: %s (error: %v)\n data %s\n type %s", lname(little), d, uerr, hx(data), tname(t))
			}
		}
	}
	c.Sample("%s", tname(t))
}

// aside compares the ignored and unexported fields of two values, down to where
// unpacking replaces things.
func aside(a, b reflect.Value) string {
	if customs[a.Type()] != nil {
		return ""
	}
	switch a.Kind() {
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if s := aside(a.Index(i), b.Index(i)); s != "" {
				return s
			}
		}
	case reflect.Struct:
		for _, f := range stOf(a.Type()).F {
			switch {
			case f.Root || f.Parent:
			case f.Ignore || f.Unexp || f.Pad:
				if s := diffAt("."+f.Name, a.Field(f.Idx), b.Field(f.Idx), diffAll); s != "" {
					return s
				}
			case f.Switch != nil:
				if s := asideSwitch(f, a.Field(f.Idx), b.Field(f.Idx)); s != "" {
					return s
				}
			default:
				if s := aside(a.Field(f.Idx), b.Field(f.Idx)); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func asideSwitch(f *Fd, a, b reflect.Value) string {
	for _, g := range stOf(f.NT).F {
		if g.Ignore || g.Unexp || g.Pad {
			if s := diffAt("."+f.Name+"."+g.Name, a.Field(g.Idx), b.Field(g.Idx), diffAll); s != "" {
				return s
			}
		}
	}
	return ""
}

// ---- C11

type region struct {
	lo, hi uintptr
	path   string
}

// regions lists the memory of the slices that were decoded.
func regions(v reflect.Value, path string, out *[]region) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			regions(v.Elem(), path+"*", out)
		}
	case reflect.Slice:
		if n := uintptr(v.Cap()) * v.Type().Elem().Size(); n > 0 {
			*out = append(*out, region{v.Pointer(), v.Pointer() + n, path})
		}
		fallthrough
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Struct:
		if customs[v.Type()] != nil {
			return
		}
		for _, f := range stOf(v.Type()).F {
			if f.active() && !f.Root && !f.Parent && !f.Pad {
				regions(v.Field(f.Idx), path+"."+f.Name, out)
			}
		}
	}
}

func overlap(rs []region) string {
	for i := range rs {
		for j := i + 1; j < len(rs) && j < i+400; j++ {
			if rs[i].lo < rs[j].hi && rs[j].lo < rs[i].hi {
				return fmt.Sprintf("%s and %s overlap", rs[i].path, rs[j].path)
			}
		}
	}
	return ""
}

// alias keeps hold of everything behind the slices and pointers of a value, to
// see later whether it was changed.
func aliases(v reflect.Value) (at, want []reflect.Value) {
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				at, want = append(at, v.Elem()), append(want, deepCopy(v.Elem()))
			}
		case reflect.Slice:
			if v.Cap() > 0 {
				s := v.Slice(0, v.Cap())
				// The header itself must be copied: v is a location.
				h := reflect.New(v.Type()).Elem()
				h.Set(s)
				at, want = append(at, h), append(want, deepCopy(h))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Struct:
			if customs[v.Type()] != nil {
				return
			}
			for _, f := range stOf(v.Type()).F {
				if f.active() && !f.Root && !f.Parent && !f.Pad {
					rec(v.Field(f.Idx))
				}
			}
		}
	}
	rec(v)
	return
}

func freshCase(c *Ctx) {
	r := c.R
	p := generalProf
	p.Sw, p.Ptr, p.If, p.Count, p.SizeE = 10, 12, 15, 20, 10
	t, q := c.newType(p)
	vg := newVgen(r, q)
	dst := vg.fresh(t) // used again and again
	for i := 0; i < values(c)+2; i++ {
		v := vg.fresh(t)
		little := r.p(50)
		e, _, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		data := append([]byte(nil), e.w.b...)
		if r.p(30) {
			data = perturb(r, data)
		}
		if r.p(10) {
			data = data[:r.n(len(data)+1)]
		}
		if r.p(30) {
			dst = vg.fresh(t)
			c.Count("dirty_destinations", 1)
		}
		_, want, rerr := refUnpack(data, dst, little, false)
		d, _, _ := refUnpack(data, dst, little, false)
		at, old := aliases(dst)
		uerr, pan := unpack(data, orderOf(little), dst.Addr().Interface())
		c.Eval(1)
		for k := range at {
			if s := diff(old[k], at[k], diffAll); s != "" {
				c.Fail("%s: Unpack writes to memory that the destination held before: %s\n data %s\n type %s", lname(little), s, hx(data), tname(t))
				break
			}
		}
		if pan != "" {
			c.Fail("%s: Unpack panics: %s\n data %s\n type %s", lname(little), pan, hx(data), tname(t))
			return
		}
		if rerr != nil {
			if rerr == errShort && uerr == nil {
				c.Fail("%s: Unpack must fail (%v)\n data %s\n type %s", lname(little), rerr, hx(data), tname(t))
			}
			c.Count("failed_reuse", 1)
			continue
		}
		if uerr != nil {
			c.Fail("%s: Unpack fails: %v\n data %s\n type %s", lname(little), uerr, hx(data), tname(t))
			continue
		}
		if d.lossy {
			continue
		}
		if s := diff(want, dst, diffAll); s != "" {
			c.Fail("%s: the result depends on the previous content (want != got): %s\n want %s\n got  %s\n data %s\n type %s", lname(little), s, dump(want), dump(dst), hx(data), tname(t))
			continue
		}
		c.Count("reuses", 1)
		var rs []region
		clean := reflect.New(t)
		if err, _ := unpack(data, orderOf(little), clean.Interface()); err == nil {
			regions(clean.Elem(), "", &rs)
			c.Eval(1)
			c.Count("slices", len(rs))
			if s := overlap(rs); s != "" {
				c.Fail("%s: decoded slices share memory: %s\n data %s\n type %s", lname(little), s, hx(data), tname(t))
			}
			rs = nil
			regions(dst, "", &rs)
			if s := overlap(rs); s != "" {
				c.Fail("%s: decoded slices share memory after reuse: %s\n data %s\n type %s", lname(little), s, hx(data), tname(t))
			}
		}
	}
	c.Sample("%s", tname(t))
}

var yieldCount atomic.Uint64

func init() {
	register(&Check{ID: "C04",
		Rule:  "Case = a generated definition (with nil pointers and custom sizes) with several values. SizeOf and BitSize of the value and of a pointer are compared with the number of bits the reference encoder produces and with the length of Pack's result; the packed bytes are unpacked at exactly that length and at one byte less. The first cases are long (to some 100000 elements). Non-trivial: distinct definitions.",
		Quick: 80000, Thorough: 1500000,
		Case: func(c *Ctx) {
			if c.few(40) {
				bigCase(c, pick(c.R, "fixed", "count", "size"))
				return
			}
			p := generalProf
			p.Nil, p.Cust, p.Stat = 15, 12, 8
			t, q := c.newType(p)
			vg := newVgen(c.R, q)
			vg.rest = true
			for i := 0; i < values(c); i++ {
				checkSizes(c, vg.fresh(t), c.R.p(50))
			}
			c.Sample("%s", tname(t))
		}})
	register(&Check{ID: "C05",
		Rule:  "Case = a generated definition dense in byte-order options at all levels, packed and unpacked through a byte-order object with an identity of its own. Bytes and values are compared with the reference; each custom codec must be given the order in force, and the caller's own object where no order is declared. Non-trivial: distinct definitions.",
		Quick: 80000, Thorough: 2000000,
		Case: func(c *Ctx) {
			p := generalProf
			p.Order, p.Cust, p.Struct, p.Array, p.Ptr, p.Depth, p.Stat = 45, 15, 25, 12, 10, 4, 3
			t, q := c.newType(p)
			vg := newVgen(c.R, q)
			for i := 0; i < values(c); i++ {
				checkOrders(c, vg.fresh(t), c.R.p(50))
			}
			c.Sample("%s", tname(t))
		}})
	register(&Check{ID: "C06",
		Rule:  fmt.Sprintf("The first %d cases enumerate wire type x width x bit offset x byte order with varying neighbours; the rest are generated definitions dense in bit fields. Pack's bytes and Unpack's values (all ones, edge bits, random data in garbage) are compared with the reference bit by bit. Non-trivial: distinct definitions.", len(bitCombos)),
		Quick: len(bitCombos) + 80000, Thorough: 6*len(bitCombos) + 1500000,
		Case: func(c *Ctx) {
			k := len(bitCombos)
			if c.Tier == "thorough" {
				k *= 6
			}
			if c.N < k {
				bitSweep(c, bitCombos[c.N%len(bitCombos)])
				return
			}
			p := generalProf
			p.Bits, p.BitsE, p.Pad, p.Cust, p.Stat, p.Order = 60, 10, 12, 0, 0, 25
			t, q := c.newType(p)
			vg := newVgen(c.R, q)
			for i := 0; i < values(c)/2; i++ {
				v := vg.fresh(t)
				little := c.R.p(50)
				c.checkBytes(v, little, c.R.p(30))
				c.images(v, little, func(data []byte, what string) {
					c.checkUnpack(data, reflect.New(t).Elem(), little, what, diffAll)
				})
			}
		}})
	register(&Check{ID: "C07",
		Rule:  "Case = a generated definition dense in counters (declared from either side, shared, bit fields, any position, amid ignored and unexported fields) with several values whose counters hold garbage. Packed bytes, the counters left in the value, and the decoded elements are compared with the reference; values whose counts do not fit or disagree must be refused. The first cases use counts around the limits of the integer types, to 131072. Non-trivial: distinct definitions.",
		Quick: 50000, Thorough: 800000,
		Case: counterCase})
	register(&Check{ID: "C08",
		Rule:  "Case = a destination type (generated, hand-written or png) and hostile byte strings for it: all ones, maximal and negative counters, cuts, damage, long tails; the first cases nest as deep as their input says. Panics, hangs (no progress, then a CPU limit in isolation), changed input and allocation beyond a fixed multiple of the input are violations. Non-trivial: distinct destination types.",
		Quick: 20000, Thorough: 250000,
		Case: func(c *Ctx) {
			if c.N < len(deepTypes) {
				deepCase(c)
				return
			}
			hostileCase(c)
		}})
	register(&Check{ID: "C10",
		Rule:  "Case = a generated definition with ignored and unexported fields. Deep snapshots of values, slice tails, inputs and destinations are compared before and after packing (by value, by pointer, twice), sizing and unpacking (good, damaged and cut data); results are overwritten to see whether memory is shared. Non-trivial: distinct definitions.",
		Quick: 60000, Thorough: 1500000,
		Case: untouchedCase})
	register(&Check{ID: "C11",
		Rule:  "Case = a generated definition whose destination is reused for a series of inputs, starting from random content. Each result is compared with the reference started from the same content; everything the destination pointed to before must be unchanged; the memory of decoded slices (to their capacity) must be disjoint. Non-trivial: distinct definitions.",
		Quick: 60000, Thorough: 1500000,
		Case: freshCase})
}
