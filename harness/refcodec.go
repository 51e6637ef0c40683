package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

// The reference codec: a direct reading of the documented layout rules over the
// specifications (St, Fd), on a plain string of bits.

var (
	errShort = errors.New("input too short") // an error is required
	errBad   = errors.New("must be rejected")
	errAmb   = errors.New("not specified") // anything but a crash
)

type bitbuf struct {
	b []byte
	n int
}

func (w *bitbuf) put(x uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if x>>uint(i)&1 != 0 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

func (w *bitbuf) get(pos, n int) (x uint64) {
	for i := 0; i < n; i++ {
		x = x<<1 | uint64(w.b[(pos+i)/8]>>uint(7-(pos+i)%8)&1)
	}
	return
}

// putInt writes the low n bits of x in a byte order.
func (w *bitbuf) putInt(x uint64, n int, little bool) {
	if !little || n <= 8 {
		w.put(x, n)
		return
	}
	for i := 0; i < n; i += 8 {
		k := n - i
		if k > 8 {
			k = 8
		}
		w.put(x>>uint(i), k)
	}
}

func (w *bitbuf) getInt(pos, n int, little bool) (x uint64) {
	if !little || n <= 8 {
		return w.get(pos, n)
	}
	for i := 0; i < n; i += 8 {
		k := n - i
		if k > 8 {
			k = 8
		}
		x |= w.get(pos+i, k) << uint(i)
	}
	return
}

func isComplexKind(k reflect.Kind) bool { return k == reflect.Complex64 || k == reflect.Complex128 }

// partBits is the width of a floating-point number, or of either part of a
// complex one.
func partBits(k reflect.Kind) int {
	if k == reflect.Float32 || k == reflect.Complex64 {
		return 32
	}
	return 64
}

func wireBits(k reflect.Kind) int {
	switch k {
	case reflect.Int, reflect.Uint:
		return 32
	}
	return kindBits(k)
}

func isLittle(o binary.ByteOrder) bool { return o.Uint16([]byte{1, 0}) == 1 }

// Event is something the reference codec did at a position in the data.
type Event struct {
	Path   string
	Pos    int // in bits
	Bits   int
	Little bool
	Custom bool
	Type   string
}

type refEnc struct {
	w      bitbuf
	events []Event
	trace  bool
}

func (e *refEnc) ev(path string, pos int, little, custom bool) {
	if e.trace {
		e.events = append(e.events, Event{path, pos, e.w.n - pos, little, custom, ""})
	}
}

// refEncode encodes a value of any supported top-level type.
func refEncode(v reflect.Value, little, trace bool) (*refEnc, error) {
	e := &refEnc{trace: trace}
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return e, e.typ(v.Type(), v.Type(), v, 0, nil, little, "")
}

// counterLen is the element count a counter must hold.
func counterLen(st *St, sv reflect.Value, c *Fd) (n int, err error) {
	n = -1
	last := -1
	for _, f := range st.F {
		if !f.counts(c.Idx) {
			continue
		}
		last = sv.Field(f.Idx).Len()
		if f.If != nil {
			ok, err := evalBool(f.If, structEnv(sv, nil))
			if err != nil {
				return 0, err
			}
			if !ok {
				continue
			}
		}
		if n >= 0 && n != last {
			return 0, errBad
		}
		n = last
	}
	if n < 0 {
		n = last
	}
	return n, nil
}

func counterMax(c *Fd, width int) uint64 {
	if isIntKind(c.WT.Kind()) {
		width--
	}
	m := uint64(1)<<uint(width) - 1
	if width >= 64 {
		m = ^uint64(0)
	}
	nb := kindBits(c.NT.Kind())
	if isIntKind(c.NT.Kind()) {
		nb--
	}
	if nm := ^uint64(0) >> uint(64-nb); nm < m {
		m = nm
	}
	return m
}

// fixCounters stores the element counts in the counters, as packing must.
func fixCounters(v reflect.Value) error {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return fixCounters(v.Elem())
	case reflect.Array, reflect.Slice:
		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
			return nil
		}
		for i := 0; i < v.Len(); i++ {
			if err := fixCounters(v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		if customs[v.Type()] != nil {
			return nil
		}
		st := stOf(v.Type())
		for _, f := range st.F {
			if !f.active() || f.Pad || f.Root || f.Parent {
				continue
			}
			if f.If != nil {
				ok, err := evalBool(f.If, structEnv(v, nil))
				if err != nil {
					return err
				}
				if !ok {
					continue
				}
			}
			if f.Switch != nil {
				alt, av, err := leaf(f, v, v.Field(f.Idx))
				if err != nil {
					return err
				}
				if alt != nil {
					if err := fixCounters(av); err != nil {
						return err
					}
				}
				continue
			}
			if f.isCounter(st) {
				n, err := counterLen(st, v, f)
				if err != nil {
					return err
				}
				width := wireBits(f.WT.Kind())
				if b, err := fieldBitsWidth(f, v); err != nil {
					return err
				} else if b != 0 {
					width = b
				}
				if uint64(n) > counterMax(f, width) {
					return errBad
				}
				if isIntKind(f.NT.Kind()) {
					v.Field(f.Idx).SetInt(int64(n))
				} else {
					v.Field(f.Idx).SetUint(uint64(n))
				}
				continue
			}
			if err := fixCounters(v.Field(f.Idx)); err != nil {
				return err
			}
		}
	}
	return nil
}

func evalBool(x *Ex, en env) (bool, error) {
	r, err := x.Eval(en)
	if err != nil {
		return false, err
	}
	if r.P != nil || r.U != 0 && r.U != 'b' || r.V.Kind() != reflect.Bool {
		return false, errEval
	}
	return r.V.Bool(), nil
}

func evalInt(x *Ex, en env) (int, error) {
	r, err := x.Eval(en)
	if err != nil {
		return 0, err
	}
	if r.P != nil {
		return 0, errEval
	}
	if r, err = r.asTyped(); err != nil {
		return 0, err
	}
	switch {
	case isIntKind(r.V.Kind()):
		return int(r.V.Int()), nil
	case isUintKind(r.V.Kind()):
		return int(r.V.Uint()), nil
	}
	return 0, errEval
}

// fieldBitsWidth is the explicit bit width of a field, or 0.
func fieldBitsWidth(f *Fd, sv reflect.Value) (int, error) {
	if f.BitsE != nil {
		n, err := evalInt(f.BitsE, structEnv(sv, nil))
		if err == nil && n < 0 {
			err = errBad
		}
		return n, err
	}
	return f.Bits, nil
}

// sameCase compares a switch value with a case value.
func sameCase(a, b *RV) (bool, error) {
	if a.P != nil || b.P != nil || a.U == 'n' || b.U == 'n' || a.U == 'f' || b.U == 'f' {
		return false, errDomain
	}
	isI := func(r *RV) bool {
		return r.U == 'i' || r.U == 0 && (isIntKind(r.V.Kind()) || isUintKind(r.V.Kind()))
	}
	big := func(r *RV) interface{ String() string } {
		if r.U == 'i' {
			return r.N
		}
		return bigOf(r.V)
	}
	switch {
	case isI(a) && isI(b):
		return big(a).String() == big(b).String(), nil
	case isI(a) || isI(b):
		return false, nil
	case a.V.Kind() == reflect.String && b.V.Kind() == reflect.String:
		return a.V.String() == b.V.String(), nil
	case a.V.Kind() == reflect.Bool && b.V.Kind() == reflect.Bool:
		return a.V.Bool() == b.V.Bool(), nil
	case a.V.Kind() != b.V.Kind():
		return false, nil
	}
	return false, errDomain
}

// chosen returns the alternative of a switch field that is present, or nil.
func chosen(f *Fd, sv reflect.Value, eof func() bool) (*Fd, error) {
	en := structEnv(sv, eof)
	on, err := f.Switch.Eval(en)
	if err != nil {
		return nil, err
	}
	var def *Fd
	for _, a := range stOf(f.NT).F {
		if !a.active() {
			continue
		}
		if a.Default {
			def = a
			continue
		}
		if a.Case == nil {
			return nil, errBad
		}
		c, err := a.Case.Eval(en)
		if err != nil {
			return nil, err
		}
		if ok, err := sameCase(on, c); err != nil {
			return nil, err
		} else if ok {
			return a, nil
		}
	}
	return def, nil
}

// leaf follows switches, nested ones included, to the field that is present.
func leaf(f *Fd, sv, v reflect.Value) (*Fd, reflect.Value, error) {
	eof := func() bool { return false }
	for {
		if f.If != nil {
			if ok, err := evalBool(f.If, structEnv(sv, eof)); err != nil || !ok {
				return nil, v, err
			}
		}
		if f.Switch == nil || f.Pad {
			return f, v, nil
		}
		alt, err := chosen(f, sv, eof)
		if err != nil || alt == nil {
			return nil, v, err
		}
		f, v = alt, v.Field(alt.Idx)
	}
}

func (e *refEnc) field(f *Fd, sv, v reflect.Value, little bool, path string) error {
	if !f.active() || f.Root || f.Parent {
		return nil
	}
	path += "." + f.Name
	if f.If != nil {
		ok, err := evalBool(f.If, structEnv(sv, nil))
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
	}
	if f.Order != 0 {
		little = f.Order == 'l'
	}
	e.w.put(0, 0)
	for i := 0; i < f.Skip; i++ {
		e.w.put(0, 8)
	}
	if f.Switch != nil && !f.Pad {
		alt, err := chosen(f, sv, nil)
		if err != nil || alt == nil {
			return err
		}
		// Conditions and widths of alternatives refer to the enclosing struct.
		return e.field(alt, sv, v.Field(alt.Idx), little, path)
	}
	bits, err := fieldBitsWidth(f, sv)
	if err != nil {
		return err
	}
	if f.Pad {
		n := bits
		if n == 0 {
			if n, err = staticBits(f.WT); err != nil {
				return err
			}
		}
		for i := 0; i < n; i++ {
			e.w.put(0, 1)
		}
		return nil
	}
	if f.Out != nil {
		r, err := f.Out.Eval(structEnv(sv, nil))
		if err != nil {
			return err
		}
		if v, err = r.convert(v.Type()); err != nil {
			return err
		}
	}
	if f.Size != nil {
		n, err := evalInt(f.Size, structEnv(sv, nil))
		if err != nil {
			return err
		}
		if n != v.Len() {
			return errBad
		}
	}
	if f.CountedBy >= 0 {
		// The counter's value is the caller's business (see fixCounters).
		_ = f
	}
	pos := e.w.n
	err = e.typ(f.WT, f.NT, v, bits, f, little, path)
	if k := f.WT.Kind(); k != reflect.Struct && customs[f.NT] == nil {
		e.ev(path, pos, little, false)
	}
	return err
}

// convert gives the result of a mapping expression the type of its field.
func (r *RV) convert(t reflect.Type) (reflect.Value, error) {
	if r.P != nil || r.U == 'n' {
		return reflect.Value{}, errDomain
	}
	k := t.Kind()
	isNum := func(k reflect.Kind) bool { return isIntKind(k) || isUintKind(k) || isFloatKind(k) }
	switch {
	case r.U == 'i' && (isIntKind(k) || isUintKind(k)):
		return wrapInt(r.N, k).Convert(t), nil
	case r.U == 'i' && isFloatKind(k):
		f, _ := r.adopt(t)
		return f.V, nil
	case r.U == 'f':
		if !isFloatKind(k) {
			return reflect.Value{}, errDomain
		}
		return reflect.ValueOf(r.F).Convert(t), nil
	case r.V.Kind() == k:
		return r.V.Convert(t), nil
	case isNum(k) && isNum(r.V.Kind()):
		if isFloatKind(r.V.Kind()) && !isFloatKind(k) {
			return reflect.Value{}, errDomain // may not fit
		}
		return r.V.Convert(t), nil
	}
	return reflect.Value{}, errDomain
}

// staticBits is the size of a padding field's type.
func staticBits(t reflect.Type) (int, error) {
	switch t.Kind() {
	case reflect.Array:
		n, err := staticBits(t.Elem())
		return n * t.Len(), err
	case reflect.Struct:
		sum := 0
		for _, f := range stOf(t).F {
			if !f.active() {
				continue
			}
			if f.hasExpr() {
				return 0, errDomain
			}
			n, err := f.Bits, error(nil)
			if n == 0 {
				n, err = staticBits(f.WT)
			}
			if err != nil {
				return 0, err
			}
			sum += n + 8*f.Skip
		}
		return sum, nil
	}
	if n := wireBits(t.Kind()); n > 0 {
		return n, nil
	}
	return 0, errDomain
}

func boolWire(b bool, f *Fd) uint64 {
	if f != nil && f.IB {
		b = !b
	}
	switch {
	case !b:
		return 0
	case f != nil && f.VB:
		return ^uint64(0)
	}
	return 1
}

func (e *refEnc) typ(wt, nt reflect.Type, v reflect.Value, bits int, f *Fd, little bool, path string) error {
	if c := customs[nt]; c != nil && c.Enc == nil {
		if e.trace {
			e.events = append(e.events, Event{path, e.w.n, 8 * c.Min, little, true, c.Name})
		}
	} else if c != nil {
		if e.w.n%8 != 0 {
			return errDomain
		}
		pos := e.w.n
		b := c.Enc(v, little)
		if b == nil {
			return errDomain
		}
		for _, x := range b {
			e.w.put(uint64(x), 8)
		}
		if e.trace {
			e.events = append(e.events, Event{path, pos, e.w.n - pos, little, true, c.Name})
		}
		return nil
	}
	switch k := wt.Kind(); {
	case k == reflect.Bool || isIntKind(k) || isUintKind(k):
		n := wireBits(k)
		if bits != 0 {
			n = bits
		}
		if n > wireBits(k) {
			return errBad
		}
		var x uint64
		switch nk := v.Kind(); {
		case nk == reflect.Bool:
			x = boolWire(v.Bool(), f)
		case isIntKind(nk) && isIntKind(k):
			x = uint64(v.Int())
		case isUintKind(nk) && (isUintKind(k) || k == reflect.Bool):
			x = v.Uint()
		default:
			return errBad
		}
		e.w.putInt(x, n, little)
	case k == reflect.Float32 || k == reflect.Float64 || k == reflect.Complex64 || k == reflect.Complex128:
		n := partBits(k)
		if bits > n || bits != 0 && k == reflect.Float64 {
			return errBad
		} else if bits != 0 {
			n = bits
		}
		var xs []float64
		switch v.Kind() {
		case reflect.Float32, reflect.Float64:
			if k >= reflect.Complex64 {
				return errBad
			}
			xs = []float64{v.Float()}
		case reflect.Complex64, reflect.Complex128:
			if k < reflect.Complex64 {
				return errBad
			}
			xs = []float64{real(v.Complex()), imag(v.Complex())}
		default:
			return errBad
		}
		for _, x := range xs {
			if k == reflect.Float32 || k == reflect.Complex64 {
				e.w.putInt(uint64(math.Float32bits(float32(x))), n, little)
			} else {
				e.w.putInt(math.Float64bits(x), n, little)
			}
		}
	case k == reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return e.typ(wt.Elem(), nt.Elem(), v.Elem(), 0, nil, little, path+"*")
	case k == reflect.Array || k == reflect.Slice || k == reflect.String:
		we, ne := elemOf(wt), elemOf(nt)
		if ne == nil {
			return errBad
		}
		l := v.Len()
		for i := 0; i < l; i++ {
			if err := e.typ(we, ne, indexOf(v, i), 0, nil, little, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		if k == reflect.Array {
			if l > wt.Len() {
				return errBad
			}
			for i := l; i < wt.Len(); i++ {
				if err := e.typ(we, we, reflect.New(we).Elem(), 0, nil, little, fmt.Sprintf("%s[%d]", path, i)); err != nil {
					return err
				}
			}
		}
	case k == reflect.Struct:
		st := stOf(wt)
		for _, g := range st.F {
			if err := e.field(g, v, v.Field(g.Idx), little, path); err != nil {
				return err
			}
		}
	default:
		return errDomain
	}
	return nil
}

func elemOf(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.String:
		return basicTypes[reflect.Uint8]
	case reflect.Array, reflect.Slice:
		return t.Elem()
	}
	return nil
}

func indexOf(v reflect.Value, i int) reflect.Value {
	if v.Kind() == reflect.String {
		return reflect.ValueOf(v.String()[i])
	}
	return v.Index(i)
}

// ---- decoding

type refDec struct {
	in     bitbuf
	pos    int
	end    int
	quirk  bool // reproduce the recorded finding about int8 bit fields
	quirks int
	lossy  bool // some wire value does not fit its native type
	steps  int
	events []Event
	trace  bool
	stack  []reflect.Value
}

func (d *refDec) take(n int, little bool) (uint64, error) {
	if n > 0 && d.pos+n > d.end {
		return 0, errShort
	}
	x := d.in.getInt(d.pos, n, little)
	d.pos += n
	return x, nil
}

func (d *refDec) eof() bool { return d.pos/8 >= len(d.in.b) }

// refDecode decodes data into v, which is modified exactly where the definition
// says that something is read.
func refDecode(data []byte, v reflect.Value, little, quirk bool) (*refDec, error) {
	d := &refDec{in: bitbuf{b: data, n: 8 * len(data)}, end: 8 * len(data), quirk: quirk}
	return d, d.run(v, little)
}

func (d *refDec) run(v reflect.Value, little bool) error {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if err := d.typ(v.Type(), v.Type(), v, 0, nil, 0, false, nil, little, ""); err != nil {
		return err
	}
	setLinks(v)
	if d.pos > d.end {
		return errAmb // only padding or skipped bytes are missing
	}
	return nil
}

func (d *refDec) field(f *Fd, st *St, sv, v reflect.Value, little bool, path string) error {
	if f.active() && (f.Root || f.Parent) {
		setLink(f, v, d.stack)
	}
	if !f.active() || f.Root || f.Parent {
		return nil
	}
	path += "." + f.Name
	en := structEnv(sv, d.eof)
	if f.If != nil {
		ok, err := evalBool(f.If, en)
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
	}
	if f.Order != 0 {
		little = f.Order == 'l'
	}
	d.pos += 8 * f.Skip
	if f.Switch != nil && !f.Pad {
		for _, a := range stOf(f.NT).F {
			if a.active() {
				v.Field(a.Idx).Set(reflect.Zero(a.NT))
			}
		}
		alt, err := chosen(f, sv, d.eof)
		if err != nil || alt == nil {
			return err
		}
		return d.field(alt, st, sv, v.Field(alt.Idx), little, path)
	}
	bits, err := fieldBitsWidth(f, sv)
	if err != nil {
		return err
	}
	if f.Pad {
		n := bits
		if n == 0 {
			if n, err = staticBits(f.WT); err != nil {
				return err
			}
		}
		d.pos += n
		return nil
	}
	count, counted := 0, false
	switch {
	case f.Size != nil:
		if count, err = evalInt(f.Size, en); err != nil {
			return err
		}
		counted = true
	case f.CountedBy >= 0:
		c := sv.Field(f.CountedBy)
		if isIntKind(c.Kind()) {
			count = int(c.Int())
		} else {
			count = int(c.Uint())
		}
		counted = true
	}
	if counted && count < 0 {
		return errBad
	}
	var while func() (bool, error)
	if f.While != nil {
		while = func() (bool, error) { return evalBool(f.While, en) }
	}
	pos := d.pos
	if err := d.typ(f.WT, f.NT, v, bits, f, count, counted, while, little, path); err != nil {
		return err
	}
	if d.trace && f.WT.Kind() != reflect.Struct && customs[f.NT] == nil {
		d.events = append(d.events, Event{path, pos, d.pos - pos, little, false, ""})
	}
	if f.In != nil {
		r, err := f.In.Eval(en)
		if err != nil {
			return err
		}
		x, err := r.convert(v.Type())
		if err != nil {
			return err
		}
		v.Set(x)
	}
	return nil
}

func signExtend(x uint64, n int) int64 {
	if n >= 64 || n == 0 {
		return int64(x)
	}
	return int64(x<<uint(64-n)) >> uint(64-n)
}

func (d *refDec) typ(wt, nt reflect.Type, v reflect.Value, bits int, f *Fd, count int, counted bool, while func() (bool, error), little bool, path string) error {
	if d.steps++; d.steps > 100000 {
		return errDomain
	}
	if c := customs[nt]; c != nil && c.Dec != nil {
		if d.pos%8 != 0 {
			return errDomain
		}
		if d.pos > d.end {
			return errAmb
		}
		n, ok := c.Dec(v, d.in.b[d.pos/8:], little)
		if !ok {
			return errShort
		}
		if d.trace {
			d.events = append(d.events, Event{path, d.pos, 8 * n, little, true, c.Name})
		}
		d.pos += 8 * n
		return nil
	}
	switch k := wt.Kind(); {
	case k == reflect.Bool || isIntKind(k) || isUintKind(k):
		n := wireBits(k)
		if bits != 0 {
			n = bits
		}
		if n > wireBits(k) {
			return errBad
		}
		x, err := d.take(n, little)
		if err != nil {
			return err
		}
		switch nk := nt.Kind(); {
		case nk == reflect.Bool:
			b := x != 0
			if f != nil && f.IB {
				b = !b
			}
			v.SetBool(b)
		case isIntKind(nk) && isIntKind(k):
			s := signExtend(x, n)
			if k == reflect.Int8 && bits != 0 && x&1 != x>>uint(n-1)&1 {
				d.quirks++
				if d.quirk {
					s = int64(x)
					if x&1 != 0 {
						s = int64(int8(x | ^uint64(0)<<uint(n)))
					}
				}
			}
			if v.OverflowInt(s) {
				d.lossy = true
			}
			v.SetInt(s)
		case isUintKind(nk) && (isUintKind(k) || k == reflect.Bool):
			if v.OverflowUint(x) {
				d.lossy = true
			}
			v.SetUint(x)
		default:
			return errBad
		}
	case k == reflect.Float32 || k == reflect.Float64 || k == reflect.Complex64 || k == reflect.Complex128:
		n := partBits(k)
		if bits > n || bits != 0 && k == reflect.Float64 {
			return errBad
		} else if bits != 0 {
			n = bits
		}
		nk := nt.Kind()
		if (k == reflect.Float32 || k == reflect.Float64) != (nk == reflect.Float32 || nk == reflect.Float64) ||
			(k == reflect.Complex64 || k == reflect.Complex128) != (nk == reflect.Complex64 || nk == reflect.Complex128) {
			return errBad
		}
		one := func() (float64, error) {
			if k == reflect.Float32 || k == reflect.Complex64 {
				x, err := d.take(n, little)
				return float64(math.Float32frombits(uint32(x))), err
			}
			x, err := d.take(n, little)
			g := math.Float64frombits(x)
			if nk == reflect.Float32 || nk == reflect.Complex64 {
				if float64(float32(g)) != g && g == g {
					d.lossy = true
				}
			}
			return g, err
		}
		re, err := one()
		if err != nil {
			return err
		}
		if nk == reflect.Float32 || nk == reflect.Float64 {
			v.SetFloat(re)
			break
		}
		im, err := one()
		if err != nil {
			return err
		}
		v.SetComplex(complex(re, im))
	case k == reflect.Ptr:
		v.Set(reflect.New(nt.Elem()))
		return d.typ(wt.Elem(), nt.Elem(), v.Elem(), 0, nil, 0, false, nil, little, path+"*")
	case k == reflect.Array || k == reflect.Slice || k == reflect.String:
		we, ne := elemOf(wt), elemOf(nt)
		if ne == nil {
			return errBad
		}
		one := func(x reflect.Value, i int) error {
			return d.typ(we, ne, x, 0, nil, 0, false, nil, little, fmt.Sprintf("%s[%d]", path, i))
		}
		n := count
		if k == reflect.Array {
			n = wt.Len()
		}
		switch nt.Kind() {
		case reflect.Array:
			if while != nil && k != reflect.Array {
				for i := 0; ; i++ {
					ok, err := while()
					if err != nil {
						return err
					}
					if !ok {
						return nil
					}
					if i >= v.Len() {
						return errBad
					}
					if err := one(v.Index(i), i); err != nil {
						return err
					}
				}
			}
			if k != reflect.Array {
				n = v.Len()
			}
			for i := 0; i < n; i++ {
				if i >= v.Len() {
					return errBad
				}
				if err := one(v.Index(i), i); err != nil {
					return err
				}
			}
		case reflect.Slice:
			v.Set(reflect.MakeSlice(nt, 0, 0))
			if k == reflect.Array {
				v.Set(reflect.MakeSlice(nt, n, n))
				while = nil
			}
			last := -1
			for i := 0; ; i++ {
				if while != nil {
					ok, err := while()
					if err != nil {
						return err
					}
					if !ok {
						break
					}
					if d.pos == last {
						return errBad
					}
					last = d.pos
				} else if i >= n {
					break
				}
				if k != reflect.Array {
					v.Set(reflect.Append(v, reflect.Zero(ne)))
				}
				if err := one(v.Index(i), i); err != nil {
					return err
				}
			}
		case reflect.String:
			var s []byte
			for i := 0; i < n; i++ {
				x := reflect.New(ne).Elem()
				if err := one(x, i); err != nil {
					return err
				}
				s = append(s, byte(x.Uint()))
			}
			if k == reflect.Array {
				for i := range s {
					if s[i] == 0 {
						s = s[:i]
						break
					}
				}
			}
			v.SetString(string(s))
		}
	case k == reflect.Struct:
		st := stOf(wt)
		d.stack = append(d.stack, v)
		defer func() { d.stack = d.stack[:len(d.stack)-1] }()
		for _, g := range st.F {
			if err := d.field(g, st, v, v.Field(g.Idx), little, path); err != nil {
				return err
			}
		}
	default:
		return errDomain
	}
	return nil
}
