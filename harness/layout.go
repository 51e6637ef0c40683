package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
)

// vary makes a profile lopsided, so that features are met both in dense
// mixtures and nearly alone.
func vary(r *rng, p prof) prof {
	v := reflect.ValueOf(&p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Int {
			continue
		}
		switch n := v.Type().Field(i).Name; {
		case n == "Fields" || n == "Depth":
			f.SetInt(int64(r.in(1, int(f.Int()))))
			continue
		case r.p(25):
			f.SetInt(0)
		case r.p(20):
			x := f.Int() * 3
			if x > 60 {
				x = 60
			}
			f.SetInt(x)
		}
	}
	if p.SizeE+p.Fixed+p.Sw > 90 {
		p.SizeE, p.Fixed, p.Sw = 30, 30, 30
	}
	return p
}

// newType generates a definition and records which features it has.
func (c *Ctx) newType(p prof) (reflect.Type, *prof) {
	resetGenerated()
	p = vary(c.R, p)
	st, _ := newGen(c.R, p).strct(p.Depth, 0)
	c.feature(st, map[*St]bool{})
	c.Distinct(hashStr(st.RT.String()))
	c.Count("definitions", 1)
	return st.RT, &p
}

func (c *Ctx) feature(st *St, seen map[*St]bool) {
	if seen[st] {
		return
	}
	seen[st] = true
	n := func(ok bool, what string) {
		if ok {
			c.out.Counts["fields_"+what]++
		}
	}
	for _, f := range st.F {
		n(f.Bits > 0, "bit")
		n(f.Bits > 0 && (f.WT.Kind() == reflect.Float32 || isComplexKind(f.WT.Kind())), "bit_float")
		n(f.Skip > 0, "skip")
		n(f.Order != 0, "order")
		n(f.Pad, "padding")
		n(f.Ignore || f.Unexp, "ignored_or_unexported")
		n(f.CountedBy >= 0, "counted")
		n(f.If != nil, "if")
		n(f.Size != nil, "size")
		n(f.BitsE != nil, "bits_expr")
		n(f.In != nil, "in_out")
		n(f.Switch != nil, "switch")
		n(f.While != nil, "while")
		n(f.Root || f.Parent, "link")
		n(f.VB || f.IB, "bool_flags")
		n(f.TypeTx != "", "wire_type")
		n(f.NonZero, "out_failing_for_zero")
		n(f.Pad && f.If != nil, "conditional_padding")
		n(f.Pad && f.BitsE != nil, "computed_padding")
		n(f.isCounter(st) && f.If != nil, "conditional_counter")
		n((f.Case != nil || f.Default) && f.In != nil, "in_out_in_switch")
		c.featureType(f.NT, seen)
	}
}

func (c *Ctx) featureType(t reflect.Type, seen map[*St]bool) {
	switch t.Kind() {
	case reflect.Ptr:
		c.out.Counts["fields_pointer"]++
		c.featureType(t.Elem(), seen)
	case reflect.Array, reflect.Slice:
		c.featureType(t.Elem(), seen)
	case reflect.Struct:
		if customs[t] == nil {
			c.feature(stOf(t), seen)
		}
	}
	if customs[t] != nil {
		c.out.Counts["fields_custom_codec"]++
	}
}

// noExpect tells whether the reference has no opinion.
func noExpect(err error) bool { return errors.Is(err, errDomain) }

// checkRoundTrip judges C01 for one value.
func (c *Ctx) checkRoundTrip(v reflect.Value, little bool) {
	e, after, err := reference(v, little, false)
	if noExpect(err) {
		c.Count("outside_domain", 1)
		return
	}
	if err != nil {
		panic(fmt.Sprintf("generated value is not valid: %v\n%s\n%s", err, v.Type(), dump(v)))
	}
	_ = e
	in := deepCopy(v)
	b, perr, pan := pack(orderOf(little), in.Addr().Interface())
	c.Eval(1)
	if pan != "" || perr != nil {
		c.Fail("%s: Pack fails: %v %s\n value %s\n type %s", lname(little), perr, pan, dump(v), tname(v.Type()))
		return
	}
	dst := reflect.New(v.Type())
	uerr, pan := unpack(b, orderOf(little), dst.Interface())
	if pan != "" || uerr != nil {
		c.Fail("%s: Unpack of a packed value fails: %v %s\n bytes %s\n value %s\n type %s", lname(little), uerr, pan, hx(b), dump(v), tname(v.Type()))
		return
	}
	if d := diff(after, dst.Elem(), diffWire); d != "" {
		c.Fail("%s: value changes in a round trip: %s\n bytes %s\n value %s\n got %s\n type %s", lname(little), d, hx(b), dump(after), dump(dst.Elem()), tname(v.Type()))
	}
	c.Count("bytes", len(b))
}

// checkBytes judges the packed bytes against the reference.
func (c *Ctx) checkBytes(v reflect.Value, little bool, byValue bool) {
	e, _, err := reference(v, little, false)
	if noExpect(err) {
		c.Count("outside_domain", 1)
		return
	}
	in := deepCopy(v)
	arg := in.Addr().Interface()
	if byValue {
		arg = in.Interface()
	}
	b, perr, pan := pack(orderOf(little), arg)
	c.Eval(1)
	if err != nil {
		c.Count("must_be_rejected", 1)
		if perr == nil || pan != "" {
			c.Fail("%s: Pack must fail, but returns %s %s\n value %s\n type %s", lname(little), hx(b), pan, dump(v), tname(v.Type()))
		}
		return
	}
	if pan != "" || perr != nil {
		c.Fail("%s: Pack fails: %v %s\n want %s\n value %s\n type %s", lname(little), perr, pan, hx(e.w.b), dump(v), tname(v.Type()))
		return
	}
	if !bytes.Equal(b, e.w.b) {
		c.Fail("%s: Pack returns the wrong bytes: %s\n got  %s\n want %s\n value %s\n type %s", lname(little), firstDiff(b, e.w.b), hx(b), hx(e.w.b), dump(v), tname(v.Type()))
	}
	c.Count("bytes", len(b))
}

// checkUnpack judges the decoding of data into dst (which is not modified).
func (c *Ctx) checkUnpack(data []byte, dst reflect.Value, little bool, what string, mode diffMode) {
	_, want, err := refUnpack(data, dst, little, false)
	if noExpect(err) {
		c.Count("outside_domain", 1)
		return
	}
	d, _, _ := refUnpack(data, dst, little, false)
	got := deepCopy(dst)
	uerr, pan := unpack(data, orderOf(little), got.Addr().Interface())
	c.Eval(1)
	switch {
	case pan != "":
		c.Fail("%s %s: Unpack panics: %s\n data %s\n type %s", lname(little), what, pan, hx(data), tname(dst.Type()))
	case err == errAmb:
		c.Count("unspecified", 1)
	case err != nil:
		c.Count("must_fail", 1)
		if uerr == nil {
			c.Fail("%s %s: Unpack must fail (%v), but succeeds with %s\n data %s\n type %s", lname(little), what, err, dump(got), hx(data), tname(dst.Type()))
		}
	case uerr != nil:
		c.Fail("%s %s: Unpack fails: %v\n want %s\n data %s\n type %s", lname(little), what, uerr, dump(want), hx(data), tname(dst.Type()))
	case d.lossy:
		c.Count("lossy", 1)
	default:
		c.Count("decoded", 1)
		if s := diff(want, got, mode); s != "" {
			c.Fail("%s %s: Unpack gives the wrong value (want != got): %s\n want %s\n got  %s\n data %s\n type %s", lname(little), what, s, dump(want), dump(got), hx(data), tname(dst.Type()))
		}
	}
}

// poison embeds data in a larger array full of garbage.
func poison(r *rng, data []byte) []byte {
	pre, post := r.n(3), r.in(1, 16)
	big := r.bytes(pre + len(data) + post)
	copy(big[pre:], data)
	return big[pre : pre+len(data)]
}

// images makes byte strings that are interesting for a type: images of values,
// damaged, cut, extended and random ones.
func (c *Ctx) images(v reflect.Value, little bool, fn func(data []byte, what string)) {
	r := c.R
	e, _, err := reference(v, little, false)
	if err != nil {
		return
	}
	b := e.w.b
	fn(b, "image")
	fn(poison(r, append(append([]byte(nil), b...), r.bytes(r.in(1, 8))...)), "image and trailing bytes")
	for i := 0; i < 3; i++ {
		fn(poison(r, perturb(r, b)), "damaged image")
	}
	if len(b) > 0 {
		for i := 0; i < 4; i++ {
			k := r.n(len(b))
			if i == 0 {
				k = len(b) - 1
			}
			fn(poison(r, b[:k]), "cut image")
		}
	}
	fn(poison(r, r.bytes(r.n(len(b)+8))), "random bytes")
	if n := e.w.n % 8; n != 0 {
		d := append([]byte(nil), b...)
		d[len(d)-1] |= 0xff >> uint(n)
		fn(d, "image with trailing bits set")
	}
}

func values(c *Ctx) int {
	if c.Tier == "thorough" {
		return 10
	}
	return 6
}

func init() {
	register(&Check{ID: "C01",
		Rule:  "Case = a generated struct definition (all documented features, nested) with several generated values, packed and unpacked in both byte orders through pointers. Oracle: the unpacked value equals the original (NaN equal to NaN, nil equal to empty slices). The first cases have content, wire arrays and skips of up to 131072. Non-trivial: distinct definitions.",
		Quick: 150000, Thorough: 4000000,
		Case: func(c *Ctx) {
			if c.few(60) {
				bigCase(c, "round")
				return
			}
			t, p := c.newType(generalProf)
			vg := newVgen(c.R, p)
			for i := 0; i < values(c); i++ {
				v := vg.fresh(t)
				if c.R.p(30) {
					junkCounters(c.R, v)
				}
				c.checkRoundTrip(v, false)
				c.checkRoundTrip(v, true)
			}
			c.Sample("%s", tname(t))
		}})

	register(&Check{ID: "C02",
		Rule:  "Case = a generated definition with several generated values; Pack's bytes are compared with an independent reference encoder, and for plain fixed-size types with encoding/binary. The first cases have fixed sizes and skips of up to 131072. Non-trivial: distinct definitions.",
		Quick: 150000, Thorough: 4000000,
		Case: func(c *Ctx) {
			if c.few(60) {
				bigCase(c, "fixed")
				return
			}
			if c.R.p(15) {
				plainCase(c)
				return
			}
			p := generalProf
			p.Nil = 15
			t, q := c.newType(p)
			vg := newVgen(c.R, q)
			vg.over, vg.rest = true, true
			for i := 0; i < values(c); i++ {
				v := vg.fresh(t)
				c.checkBytes(v, false, c.R.p(30))
				c.checkBytes(v, true, c.R.p(30))
			}
			c.Sample("%s", tname(t))
		}})

	register(&Check{ID: "C03",
		Rule:  "Case = a generated definition and byte strings for it: images of values, images with damaged bytes, cut at any point, with trailing bytes, with trailing bits set, random; always inside larger arrays full of garbage. Unpack's result (value or error) is compared with an independent reference decoder. Non-trivial: distinct definitions.",
		Quick: 120000, Thorough: 2500000,
		Case: func(c *Ctx) {
			if c.few(60) {
				bigCase(c, pick(c.R, "fixed", "count"))
				return
			}
			t, q := c.newType(generalProf)
			vg := newVgen(c.R, q)
			for i := 0; i < values(c)/2; i++ {
				v := vg.fresh(t)
				little := c.R.p(50)
				c.images(v, little, func(data []byte, what string) {
					c.checkUnpack(data, reflect.New(t).Elem(), little, what, diffAll)
				})
			}
			c.Sample("%s", tname(t))
		}})
}

var plainKinds = []reflect.Kind{reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128}

func plainType(r *rng, depth int, n *int) reflect.Type {
	switch {
	case depth > 0 && r.p(25):
		var fs []reflect.StructField
		for i := r.in(1, 5); i > 0; i-- {
			*n++
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("P%d", *n), Type: plainType(r, depth-1, n)})
		}
		return reflect.StructOf(fs)
	case depth > 0 && r.p(25):
		return reflect.ArrayOf(r.n(5), plainType(r, depth-1, n))
	}
	return basicTypes[pick(r, plainKinds...)]
}

// plainCase compares with the standard library, in both directions.
func plainCase(c *Ctx) {
	resetGenerated()
	n := 0
	var fs []reflect.StructField
	for i := c.R.in(1, 6); i > 0; i-- {
		n++
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("P%d", n), Type: plainType(c.R, 3, &n)})
	}
	t := reflect.StructOf(fs)
	c.Distinct(hashStr(t.String()))
	vg := newVgen(c.R, &prof{})
	for i := 0; i < 4; i++ {
		v := vg.fresh(t)
		for _, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
			var w bytes.Buffer
			if err := binary.Write(&w, o, v.Interface()); err != nil {
				panic(err)
			}
			b, err, pan := pack(o, v.Addr().Interface())
			c.Eval(1)
			c.Count("compared_with_encoding_binary", 1)
			if err != nil || pan != "" || !bytes.Equal(b, w.Bytes()) {
				c.Fail("%v: Pack gives %s (%v %s), encoding/binary %s\n value %s\n type %s", o, hx(b), err, pan, hx(w.Bytes()), dump(v), t)
			}
		}
	}
}
