package main

import (
	"fmt"
	"reflect"
)

// Lengths around the limits of the integer types that lengths pass through.
var bigLengths = []int{
	127, 128, 129, 254, 255, 256, 257, 511, 1000, 4095, 4096,
	32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 100001, 131072,
}

// bigCase packs, sizes and unpacks content that is much longer than what other
// cases generate. How the length is told depends on the mode: "count" uses a
// counter of any kind and width, "size" an expression, "fixed" wire arrays and
// skips.
// "round" is "fixed", count or size with nothing but the round trip checked.
func bigCase(c *Ctx, mode string) {
	r := c.R
	round := mode == "round"
	if round {
		mode = pick(r, "fixed", "fixed", "count", "size")
	}
	resetGenerated()
	n := pick(r, bigLengths...)
	p := generalProf
	p.Cust, p.Stat, p.Depth, p.Sw, p.If, p.Count, p.Link, p.Nil, p.Long, p.InOut, p.BitsE, p.SizeE, p.While, p.Fixed, p.Wide = 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	p.Fields = 2
	g := newGen(r, p)
	st := &St{}
	add := func(f *Fd) *Fd {
		f.Idx = len(st.F)
		st.F = append(st.F, f)
		return f
	}
	if r.p(30) {
		add(&Fd{Name: g.name(), NT: basicTypes[reflect.Uint8], WT: basicTypes[reflect.Uint8], TypeTx: "uint8", Bits: r.in(1, 7), CountedBy: -1})
	}
	var cf *Fd
	if mode != "fixed" {
		cf, _, _ = g.counterField(nil, nil)
		cf.BitsE = nil
		add(cf)
	}
	if r.p(20) {
		add(&Fd{Name: g.name(), NT: g.junkType(), Ignore: true, CountedBy: -1})
	}
	var lf *Fd
	if mode == "fixed" && r.p(40) { // a native array, or one on the wire only
		et, tx, _ := g.nonEmptyElem(0, 0, false)
		lf = &Fd{Name: g.name(), NT: reflect.SliceOf(et), CountedBy: -1, TypeTx: tx}
		if r.p(50) {
			lf.NT = reflect.ArrayOf(n, et)
		}
		switch {
		case tx != "" || lf.NT.Kind() == reflect.Slice && plainElem(et):
			if tx == "" {
				tx = et.Kind().String()
			}
			lf.TypeTx = fmt.Sprintf("[%d]%s", n, tx)
			lf.WT = wireType(lf.TypeTx)
		default:
			lf.NT = reflect.ArrayOf(n, et)
			lf.WT = lf.NT
		}
	} else {
		lf, _ = g.list(1, 0)
	}
	add(lf)
	switch mode {
	case "count":
		lf.CountedBy = cf.Idx
		if r.p(50) {
			cf.SizeofTag = lf.Name
		} else {
			lf.SizefromTag = cf.Name
		}
	case "size":
		lf.Size = id(cf.Name)
		if r.p(30) {
			lf.Size = bin("+", id(cf.Name), litInt(1))
		}
	default:
		if lf.NT.Kind() == reflect.String || lf.NT.Kind() == reflect.Slice && lf.WT.Kind() != reflect.Array {
			if lf.NT.Kind() == reflect.String || lf.NT.Elem().Kind() == reflect.Uint8 {
				lf.TypeTx = fmt.Sprintf("[%d]byte", n)
				lf.WT = wireType(lf.TypeTx)
			} else {
				c.Count("skipped", 1)
				return
			}
		}
		if r.p(50) {
			add(&Fd{Name: "_", Pad: true, NT: reflect.ArrayOf(pick(r, bigLengths...), basicTypes[reflect.Uint8]), CountedBy: -1})
			pf := st.F[len(st.F)-1]
			pf.WT = pf.NT
		}
	}
	tail := add(&Fd{Name: g.name(), NT: basicTypes[reflect.Uint16], WT: basicTypes[reflect.Uint16], CountedBy: -1})
	if mode == "fixed" && r.p(50) {
		tail.Skip = pick(r, bigLengths...)
	}
	st.build(r)
	c.Distinct(hashStr(st.RT.String()))
	c.Count(fmt.Sprintf("long content: %s", mode), 1)

	vg := newVgen(r, &p)
	size := lf.Size
	lf.Size = nil // set below
	v := vg.fresh(st.RT)
	lf.Size = size
	fv := v.Field(lf.Idx)
	m := n
	if mode == "fixed" && r.p(50) && fv.Kind() != reflect.Array {
		m = n - r.in(1, n)
	}
	vg.p.Nil = 0
	switch fv.Kind() {
	case reflect.String:
		b := r.bytes(m)
		for i := range b {
			if b[i] == 0 && mode == "fixed" {
				b[i] = 1
			}
		}
		fv.SetString(string(b))
	default:
		s := fv
		if fv.Kind() == reflect.Slice {
			s = reflect.MakeSlice(fv.Type(), m, m)
		}
		seeds := reflect.MakeSlice(reflect.SliceOf(fv.Type().Elem()), 13, 13)
		for i := 0; i < 13; i++ {
			if fv.Type().Elem().Kind() == reflect.Uint8 {
				seeds.Index(i).SetUint(r.u64() & 0xff)
			} else {
				vg.elems = 20
				vg.typ(elemOf(lf.WT), seeds.Index(i), nil, 0)
			}
		}
		for i := 0; i < s.Len(); i++ {
			s.Index(i).Set(seeds.Index(i % 13))
		}
		if fv.Kind() == reflect.Slice {
			fv.Set(s)
		}
	}
	if mode == "size" {
		k := n
		if lf.Size.Op != "id" {
			k--
		}
		cv := v.Field(cf.Idx)
		w := cf.Bits
		if w == 0 {
			w = wireBits(cf.WT.Kind())
		}
		max := counterMax(cf, w)
		if uint64(k) > max || isIntKind(cv.Kind()) && cv.OverflowInt(int64(k)) || isUintKind(cv.Kind()) && cv.OverflowUint(uint64(k)) {
			c.Count("does_not_fit", 1)
			return
		}
		if isIntKind(cv.Kind()) {
			cv.SetInt(int64(k))
		} else {
			cv.SetUint(uint64(k))
		}
	}
	little := r.p(50)
	e, _, err := reference(v, little, false)
	if noExpect(err) {
		c.Count("outside_domain", 1)
		return
	}
	if !round {
		c.checkBytes(v, little, r.p(30))
	}
	if err != nil {
		c.Count("does_not_fit", 1)
		return
	}
	if round {
		if m == n || fv.Kind() == reflect.String {
			c.checkRoundTrip(v, little)
		}
		return
	}
	checkSizes(c, v, little)
	if m == n || fv.Kind() == reflect.String {
		c.checkRoundTrip(v, little)
	}
	b := e.w.b
	c.checkUnpack(poison(r, b[:len(b)-1]), reflect.New(st.RT).Elem(), little, "cut image", diffAll)
	c.checkUnpack(poison(r, perturb(r, b)), reflect.New(st.RT).Elem(), little, "damaged image", diffAll)
	c.Sample("%d elements (%d bytes): %s", n, len(b), tname(st.RT))
}

// plainElem tells whether the wire type of an element can be written as the
// name of its kind.
func plainElem(t reflect.Type) bool {
	k := t.Kind()
	return customs[t] == nil && (k == reflect.Bool || isIntKind(k) || isUintKind(k) && k != reflect.Uintptr || isFloatKind(k))
}
