package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
)

// Slices and strings whose content on the wire is the result of an expression,
// of another length than the field's own content.

// mappedList checks one definition with a list that has an in or out
// expression against bytes that are put together by hand.
func mappedList(c *Ctx) {
	r := c.R
	type elem struct {
		t  reflect.Type
		w  int
		tx string // the wire type of the elements, if it is another
	}
	k := pick(r, elem{tStr, 1, ""}, elem{tStr, 1, ""}, elem{tBS, 1, ""}, elem{tU16S, 2, ""}, elem{tBS, 2, "uint16"}, elem{tStr, 4, "uint32"},
		elem{reflect.TypeOf([]int32(nil)), 4, ""}, elem{reflect.TypeOf([]uint64(nil)), 3 * 8, "skip"})
	if k.tx == "skip" { // elements that are structures
		k = elem{reflect.TypeOf([]struct {
			A uint8
			B uint16
		}(nil)), 3, ""}
	}
	fresh := func(n int) reflect.Value {
		v := reflect.New(k.t).Elem()
		if k.t.Kind() == reflect.String {
			b := r.bytes(n)
			for i := range b {
				b[i] |= 1
			}
			v.SetString(string(b))
			return v
		}
		v.Set(reflect.MakeSlice(k.t, n, n))
		for i := 0; i < n; i++ {
			switch e := v.Index(i); e.Kind() {
			case reflect.Struct:
				e.Field(0).SetUint(r.u64())
				e.Field(1).SetUint(r.u64())
			case reflect.Int32:
				e.SetInt(int64(int32(r.u64())))
			default:
				e.SetUint(r.u64() & 0xff)
			}
		}
		return v
	}
	f, g := fresh(r.n(5)), fresh(r.n(7))
	u := uint8(r.n(4))
	x, out := "G", g
	if k.t.Kind() == reflect.String {
		lit := string([]byte("ab!_z")[:r.in(1, 5)])
		val := func(s string) reflect.Value { return reflect.ValueOf(s) }
		switch r.n(6) {
		case 0:
			x, out = "F + "+quoteTag(lit), val(f.String()+lit)
		case 1:
			x, out = quoteTag(lit)+" + F", val(lit+f.String())
		case 2:
			x, out = "F + F", val(f.String()+f.String())
		case 3:
			x, out = "G + F", val(g.String()+f.String())
		case 4:
			x, out = quoteTag(lit), val(lit)
		}
	}
	if r.p(40) {
		a, o := x, out
		x = "U > 1 ? " + a + " : F"
		if out = f; u > 1 {
			out = o
		}
	}
	little := r.p(50)
	var o binary.ByteOrder = orderOf(little)
	wire := func(v reflect.Value) (b []byte) {
		num := func(x uint64, w int) {
			for i := 0; i < w; i++ {
				s := w - 1 - i
				if little {
					s = i
				}
				b = append(b, byte(x>>uint(8*s)))
			}
		}
		for i := 0; i < v.Len(); i++ {
			switch e := v.Index(i); e.Kind() {
			case reflect.Struct:
				num(e.Field(0).Uint(), 1)
				num(e.Field(1).Uint(), 2)
			case reflect.Int32:
				num(uint64(e.Int()), 4)
			default:
				num(e.Uint(), k.w)
			}
		}
		return
	}

	// The framing: a counter (from either side, more than one), a size
	// expression, a fixed size, or none.
	framing := pick(r, "sizeof", "sizeof", "sizefrom", "sizefrom", "size", "array", "none")
	et := k.tx
	if et == "" && k.t.Kind() == reflect.String {
		et = "byte"
	}
	fixed := r.in(0, 12)
	if framing == "array" && k.t.Kind() == reflect.Slice && k.t.Elem().Kind() == reflect.Struct {
		framing = "none"
	}
	if framing == "array" && et == "" {
		et = k.t.Elem().Kind().String()
	}
	var parts []string
	switch {
	case framing == "array":
		parts = append(parts, fmt.Sprintf("[%d]%s", fixed, et))
	case k.tx != "":
		parts = append(parts, "[]"+et)
	}
	mode := pick(r, "out", "out", "in")
	tag := ""
	addx := func(key, text string) {
		if r.p(50) {
			parts = append(parts, key+"="+text)
		} else {
			tag += " struct-" + key + ":" + quoteTag(text)
		}
	}
	addx(mode, x)
	fs := []reflect.StructField{{Name: "U", Type: tU8}, {Name: "G", Type: k.t, Tag: `struct:"-"`}}
	if r.p(50) {
		fs[0], fs[1] = fs[1], fs[0]
	}
	ct := pick(r, tU8, tU16, tI32, reflect.TypeOf(int64(0)))
	cw := int(ct.Size())
	limit := 1<<62 - 1
	if framing[:2] == "si" {
		ctag := ""
		if framing == "sizeof" {
			ctag = "sizeof=F"
		}
		if ct == tI32 && r.p(40) {
			cw, limit = 1, 127
			ctag = strings.TrimSuffix("int8,"+ctag, ",")
		}
		fs = append(fs, fieldOf("C", ct, ctag))
		if r.p(40) {
			fs = append(fs, fieldOf("Mid", tU8, ""))
		}
	}
	switch framing {
	case "sizefrom":
		parts = append(parts, "sizefrom=C")
	case "size":
		addx("size", "C")
	}
	if len(parts) > 1 && r.p(50) {
		parts[0], parts[len(parts)-1] = parts[len(parts)-1], parts[0]
	}
	ff := reflect.StructField{Name: "F", Type: k.t}
	ff.Tag = reflect.StructTag("struct:" + quoteTag(strings.Join(parts, ",")) + tag)
	fs = append(fs, ff)
	if framing != "none" && r.p(70) {
		fs = append(fs, fieldOf("T", tU16, ""))
	}
	t := reflect.StructOf(fs)
	c.Distinct(hashStr(t.String()))

	n := out.Len() // elements on the wire
	if mode == "in" {
		n = f.Len()
	}
	v := reflect.New(t)
	set := func(name string, x uint64) {
		if fv := v.Elem().FieldByName(name); !fv.IsValid() {
			return
		} else if isIntKind(fv.Kind()) {
			fv.SetInt(int64(x))
		} else {
			fv.SetUint(x)
		}
	}
	set("U", uint64(u))
	set("Mid", r.u64()&0xff)
	set("T", r.u64()&0xffff)
	v.Elem().FieldByName("F").Set(f)
	v.Elem().FieldByName("G").Set(g)
	bad := n > limit || framing == "array" && n > fixed
	if framing == "size" {
		m := n
		if r.p(15) {
			m += r.in(1, 2)
			bad = true
		}
		set("C", uint64(m))
	} else {
		set("C", r.u64()&0x7f)
	}

	// The image.
	content := f
	if mode == "out" {
		content = out
	}
	var img []byte
	for _, sf := range fs {
		fv := v.Elem().FieldByName(sf.Name)
		w, x := int(sf.Type.Size()), uint64(0)
		switch sf.Name {
		case "G":
			continue
		case "F":
			img = append(img, wire(content)...)
			if framing == "array" {
				for i := n; i < fixed; i++ {
					img = append(img, make([]byte, k.w)...)
				}
			}
			continue
		case "C":
			w, x = cw, uint64(n)
		default:
			x = fv.Uint()
		}
		for i := 0; i < w; i++ {
			s := w - 1 - i
			if little {
				s = i
			}
			img = append(img, byte(x>>uint(8*s)))
		}
	}

	if mode == "out" {
		b, err, pan := pack(o, v.Interface())
		c.Eval(1)
		if bad {
			if err == nil || pan != "" {
				c.Fail("%s: Pack accepts a result of the wrong length: %s %s\n value %s\n type %s", lname(little), hx(b), pan, dump(v.Elem()), tname(t))
			}
			c.Count("mapped_lists_refused", 1)
			return
		}
		if err != nil || pan != "" || string(b) != string(img) {
			c.Fail("%s: Pack gives %s (%v %s), want %s\n value %s\n type %s", lname(little), hx(b), err, pan, hx(img), dump(v.Elem()), tname(t))
			return
		}
		if framing[:2] == "si" {
			cv := v.Elem().FieldByName("C")
			if m := numOf(cv); m != int64(n) {
				c.Fail("the counter is %d after Pack, %d elements on the wire\n value %s\n type %s", m, n, dump(v.Elem()), tname(t))
			}
		}
		if m, err, pan := sizeOf(v.Interface()); err != nil || pan != "" || m != len(img) {
			c.Fail("%s: SizeOf gives %d (%v %s), want %d\n value %s\n type %s", lname(little), m, err, pan, len(img), dump(v.Elem()), tname(t))
		}
		c.Count("mapped_lists_packed", 1)
		return
	}
	if bad {
		return
	}
	if framing == "none" {
		return // nothing to tell how long it is
	}
	dst := reflect.New(t)
	dst.Elem().FieldByName("G").Set(g)
	err, pan := unpack(img, o, dst.Interface())
	c.Eval(1)
	if err != nil || pan != "" {
		c.Fail("%s: Unpack fails: %v %s\n data %s\n type %s", lname(little), err, pan, hx(img), tname(t))
		return
	}
	got, want := dst.Elem().FieldByName("F"), out
	if framing == "array" && k.t.Kind() != reflect.String {
		// The elements of a fixed size are all there.
		return
	}
	if d := diff(want, got, diffAll); d != "" {
		c.Fail("%s: the in expression gives %s, want %s\n data %s\n type %s", lname(little), dump(got), dump(want), hx(img), tname(t))
	}
	if tv := dst.Elem().FieldByName("T"); tv.IsValid() && tv.Uint() != v.Elem().FieldByName("T").Uint() {
		c.Fail("%s: what follows a list with an in expression is misread: %s\n data %s\n type %s", lname(little), dump(dst.Elem()), hx(img), tname(t))
	}
	c.Count("mapped_lists_unpacked", 1)
}

func numOf(v reflect.Value) int64 {
	if isIntKind(v.Kind()) {
		return v.Int()
	}
	return int64(v.Uint())
}
