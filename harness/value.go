package main

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

// vgen makes values for definitions: values that fit their wire types.
type vgen struct {
	r     *rng
	depth int
	elems int // budget for repeated elements
	p     *prof
	nest  int // of junk
	stack []reflect.Value
	over  bool // fixed wire arrays may be given fewer elements
	rest  bool // what is not encoded may be given content, too
}

func newVgen(r *rng, p *prof) *vgen { return &vgen{r: r, elems: 60, p: p} }

// open makes unexported fields writable.
func open(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *vgen) bits(n int) uint64 {
	r := g.r
	m := ^uint64(0)
	if n < 64 {
		m = uint64(1)<<uint(n) - 1
	}
	switch r.n(6) {
	case 0:
		return uint64(r.n(4)) & m
	case 1:
		return (m - uint64(r.n(3))) & m
	case 2:
		return (uint64(1)<<uint(r.n(n)) + uint64(r.n(3)) - 1) & m
	}
	return r.u64() & m
}

// integer stores a value that fits in n bits of the wire.
func (g *vgen) integer(v reflect.Value, n int, unsignedWire bool) {
	if k := kindBits(v.Kind()); k < n {
		n = k
	}
	if isIntKind(v.Kind()) {
		v.SetInt(signExtend(g.bits(n), n))
		return
	}
	v.SetUint(g.bits(n))
}

var floatPool = []float64{0, 1, -1, 0.5, -2.25, 1e10, -1e-10, math.Inf(1), math.Inf(-1), math.MaxFloat32, math.SmallestNonzeroFloat32, 3}

func (g *vgen) float(wire32 bool, native32 bool) float64 {
	r := g.r
	var f float64
	switch r.n(5) {
	case 0, 1:
		f = floatPool[r.n(len(floatPool))]
	case 2:
		f = float64(int64(r.u64()))
	case 3:
		f = math.NaN()
		if r.p(60) {
			f = float64(math.Float32frombits(uint32(r.u64())))
			if f != f {
				f = math.NaN()
			}
		}
	default:
		f = math.Float64frombits(r.u64())
		if f != f {
			f = math.NaN()
		}
	}
	if wire32 || native32 {
		f = float64(float32(f))
	}
	return f
}

// pattern gives a number whose encoding has some number of bits.
func (g *vgen) pattern(k reflect.Kind, bits int) float64 {
	x := g.r.u64() & (1<<uint(bits) - 1)
	f := math.Float64frombits(x)
	if partBits(k) == 32 {
		f = float64(math.Float32frombits(uint32(x)))
	}
	if f != f {
		return 1
	}
	return f
}

func fill64(wt reflect.Type) bool {
	return wt.Kind() == reflect.Float32 || wt.Kind() == reflect.Complex64
}

// typ fills v, a value of type nt encoded as wt.
func (g *vgen) typ(wt reflect.Type, v reflect.Value, f *Fd, bits int) {
	r := g.r
	nt := v.Type()
	if c := customs[nt]; c != nil {
		c.Gen(r, v)
		return
	}
	deep := g.depth > 6
	switch k := nt.Kind(); {
	case deep && k != reflect.Struct && k != reflect.Array && k != reflect.Ptr:
		v.Set(reflect.Zero(nt))
	case k == reflect.Bool:
		v.SetBool(r.p(50))
	case isIntKind(k) || isUintKind(k):
		n := wireBits(wt.Kind())
		if bits > 0 {
			n = bits
		}
		g.integer(v, n, isUintKind(wt.Kind()))
	case bits > 0 && isFloatKind(k):
		v.SetFloat(g.pattern(wt.Kind(), bits))
	case bits > 0 && isComplexKind(k):
		v.SetComplex(complex(g.pattern(wt.Kind(), bits), g.pattern(wt.Kind(), bits)))
	case isFloatKind(k):
		v.SetFloat(g.float(fill64(wt), k == reflect.Float32))
		if f != nil && f.In != nil {
			v.SetFloat(float64(r.in(-100, 100)))
		}
	case k == reflect.Complex64 || k == reflect.Complex128:
		x := complex(g.float(fill64(wt), k == reflect.Complex64), g.float(fill64(wt), k == reflect.Complex64))
		v.SetComplex(x)
	case k == reflect.Ptr:
		v.Set(reflect.Zero(nt))
		if g.p != nil && r.p(g.p.Nil) || g.depth > 12 {
			return
		}
		v.Set(reflect.New(nt.Elem()))
		g.typ(wt.Elem(), v.Elem(), nil, 0)
	case k == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.typ(elemOf(wt), v.Index(i), nil, 0)
		}
	case k == reflect.String || k == reflect.Slice:
		n := r.n(5)
		if wt.Kind() == reflect.Array {
			n = wt.Len()
			if k == reflect.String || g.over {
				n = r.n(n + 1)
			}
		}
		g.list(wt, v, n, wt.Kind() == reflect.Array)
	case k == reflect.Struct:
		// Only types with a name, and slices, can go on for ever.
		n := 0
		if nt.Name() != "" {
			n = 2
		}
		g.depth += n
		g.strct(stOf(nt), v)
		g.depth -= n
	default:
		g.junk(v)
	}
}

// list fills a slice or string with n elements.
func (g *vgen) list(wt reflect.Type, v reflect.Value, n int, noNul bool) {
	r := g.r
	if v.Kind() == reflect.String {
		b := r.bytes(n)
		for i := range b {
			if noNul && b[i] == 0 {
				b[i] = 'x'
			}
			if r.p(30) {
				b[i] = byte('a' + r.n(3))
			}
		}
		v.SetString(string(b))
		return
	}
	room := r.n(3)
	if r.p(10) {
		room = r.n(20)
	}
	s := reflect.MakeSlice(v.Type(), n, n+room)
	g.elems -= n
	if room > 0 {
		for i := n; i < s.Cap(); i++ {
			g.junk(s.Slice(0, s.Cap()).Index(i))
		}
	}
	if we := elemOf(wt); v.Type().Elem().Kind() == reflect.Uint8 && customs[v.Type().Elem()] == nil {
		for i := 0; i < n; i++ {
			s.Index(i).SetUint(r.u64() & 0xff)
		}
	} else {
		g.depth++
		for i := 0; i < n; i++ {
			g.typ(we, s.Index(i), nil, 0)
		}
		g.depth--
	}
	if n == 0 && r.p(50) {
		s = reflect.Zero(v.Type())
	}
	v.Set(s)
}

// junk puts something into a field that is not encoded.
func (g *vgen) junk(v reflect.Value) {
	r := g.r
	v = open(v)
	if !v.CanSet() {
		return
	}
	switch k := v.Kind(); {
	case k == reflect.Bool:
		v.SetBool(r.p(50))
	case isIntKind(k):
		v.SetInt(int64(r.u64()))
	case isUintKind(k):
		v.SetUint(r.u64())
	case isFloatKind(k):
		v.SetFloat(float64(r.n(1000)) / 8)
	case k == reflect.String:
		v.SetString(string(r.bytes(r.n(5))))
	case k == reflect.Slice:
		s := reflect.MakeSlice(v.Type(), r.n(4), 6)
		if g.nest < 4 {
			g.nest++
			for i := 0; i < s.Len(); i++ {
				g.junk(s.Index(i))
			}
			g.nest--
		}
		v.Set(s)
	case k == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.junk(v.Index(i))
		}
	case k == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.junk(v.Field(i))
		}
	case k == reflect.Map:
		m := reflect.MakeMap(v.Type())
		if v.Type() == reflect.TypeOf(map[string]int(nil)) {
			m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(r.n(100)))
		}
		v.Set(m)
	case k == reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		if v.Type().Elem().Kind() != reflect.Struct {
			g.junk(p.Elem())
		}
		v.Set(p)
	case k == reflect.Interface && v.NumMethod() == 0:
		v.Set(reflect.ValueOf(r.n(1000)))
	case k == reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	}
}

// strct fills the fields of a struct so that all declared relations hold.
func (g *vgen) strct(st *St, v reflect.Value) {
	g.stack = append(g.stack, v)
	defer func() { g.stack = g.stack[:len(g.stack)-1] }()
	counts := map[int]int{}
	for _, f := range st.F {
		fv := v.Field(f.Idx)
		switch {
		case f.Ignore || f.Unexp || f.Pad:
			g.junk(fv)
			continue
		case f.Root || f.Parent:
			setLink(f, fv, g.stack)
			continue
		}
		g.field(f, st, v, fv, counts)
	}
	for _, f := range st.F {
		for _, i := range f.Also {
			fv, n := v.Field(i), v.Field(f.Idx).Len()
			if isIntKind(fv.Kind()) {
				fv.SetInt(int64(n))
			} else {
				fv.SetUint(uint64(n))
			}
		}
	}
}

func (g *vgen) present(x *Ex, sv reflect.Value) bool {
	if x == nil {
		return true
	}
	ok, err := evalBool(x, structEnv(sv, func() bool { return false }))
	if err != nil {
		panic(fmt.Sprintf("condition %s: %v", x, err))
	}
	return ok
}

func (g *vgen) field(f *Fd, st *St, sv, fv reflect.Value, counts map[int]int) {
	r := g.r
	fv.Set(reflect.Zero(fv.Type()))
	if !g.present(f.If, sv) && !(g.rest && r.p(50) && f.CountedBy < 0 && !f.isCounter(st)) {
		return
	}
	if f.NonZero {
		defer func() {
			if isIntKind(fv.Kind()) && fv.Int() == 0 {
				fv.SetInt(1)
			} else if isUintKind(fv.Kind()) && fv.Uint() == 0 {
				fv.SetUint(1)
			}
		}()
	}
	if f.Switch != nil {
		alt, err := chosen(f, sv, nil)
		if err != nil && g.rest { // it is absent
			return
		}
		if err != nil {
			panic(fmt.Sprintf("switch %s: %v", f.Switch, err))
		}
		for _, a := range stOf(f.NT).F {
			if a.Ignore || a.Unexp || a.Pad {
				g.junk(fv.Field(a.Idx))
			} else if a != alt && g.rest && r.p(50) && !a.Root && !a.Parent {
				g.field(a, stOf(f.NT), sv, fv.Field(a.Idx), nil)
			}
		}
		if alt != nil {
			g.field(alt, stOf(f.NT), sv, fv.Field(alt.Idx), nil)
		}
		return
	}
	bits, err := fieldBitsWidth(f, sv)
	if err != nil && g.rest {
		bits, err = 1, nil
	}
	if err != nil {
		panic(fmt.Sprintf("bits %s: %v", f.BitsE, err))
	}
	if counts != nil && f.isCounter(st) {
		w := bits
		if w == 0 {
			w = wireBits(f.WT.Kind())
		}
		max := counterMax(f, w)
		n, long := r.n(5), 0
		if r.p(15) {
			n = int(max)
			if max > 20 {
				n = r.n(20)
			}
		}
		if g.depth > 3 || g.elems < 0 {
			n = r.n(2)
		}
		if g.depth > 6 {
			n = 0
		}
		present := false
		bytesOnly := true
		for _, h := range st.F {
			if h.counts(f.Idx) {
				for _, i := range h.Also {
					x := st.F[i]
					w := x.Bits
					if w == 0 {
						w = wireBits(x.WT.Kind())
					}
					if m := counterMax(x, w); m < max {
						max = m
					}
				}
				present = present || g.present(h.If, sv)
				if h.NT.Kind() != reflect.String && (h.NT.Elem().Kind() != reflect.Uint8 || customs[h.NT.Elem()] != nil) {
					bytesOnly = false
				}
			}
		}
		if bytesOnly && g.p != nil && r.p(g.p.Long) {
			long = r.in(100, 700)
			if max < 300 && r.p(50) {
				long = int(max)
			}
			n = long
		}
		if uint64(n) > max {
			n = int(max)
		}
		if !present {
			n = 0
		}
		counts[f.Idx] = n
		if isIntKind(fv.Kind()) {
			fv.SetInt(int64(n))
		} else {
			fv.SetUint(uint64(n))
		}
		return
	}
	if f.CountedBy >= 0 && counts != nil {
		g.list(f.WT, fv, counts[f.CountedBy], false)
		return
	}
	if f.Size != nil {
		n, err := evalInt(f.Size, structEnv(sv, nil))
		if err != nil && g.rest {
			n, err = r.n(5), nil
		}
		if err != nil || n < 0 || n > 5000 {
			panic(fmt.Sprintf("size %s: %d %v", f.Size, n, err))
		}
		g.list(f.WT, fv, n, false)
		return
	}
	if f.While != nil {
		n := r.n(6)
		if !g.present(f.While, sv) {
			n = 0
		}
		g.list(f.WT, fv, n, false)
		return
	}
	if f.HintS && r.p(70) {
		s := pick(r, "", "a", "ab", "IHDR")
		if f.WT.Kind() != reflect.Array || len(s) <= f.WT.Len() {
			fv.SetString(s)
			return
		}
	}
	if len(f.Hint) > 0 && r.p(60) && g.depth <= 6 {
		x := pick(r, f.Hint...)
		w := bits
		if w == 0 {
			w = wireBits(f.WT.Kind())
		}
		if x >= 0 && uint64(x) <= counterMax(f, w) || x < 0 && isIntKind(f.WT.Kind()) && w > 3 {
			if isIntKind(fv.Kind()) {
				fv.SetInt(x)
			} else {
				fv.SetUint(uint64(x))
			}
			return
		}
	}
	g.typ(f.WT, fv, f, bits)
}

// fresh makes a new value of type t.
func (g *vgen) fresh(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	g.elems = 60
	g.typ(t, v, nil, 0)
	return v
}

// junkCounters overwrites all counters, which packing must fill in itself.
// Only valid if no expression depends on them.
func junkCounters(r *rng, v reflect.Value) (changed bool) {
	var all []reflect.Value // decided before anything is changed
	walkPresent(v, func(st *St, sv reflect.Value) {
		for _, f := range st.F {
			if f.isCounter(st) && holds(f.If, sv) {
				all = append(all, sv.Field(f.Idx))
			}
		}
	})
	for _, fv := range all {
		if isIntKind(fv.Kind()) {
			fv.SetInt(int64(r.u64()))
		} else {
			fv.SetUint(r.u64())
		}
	}
	return len(all) > 0
}

// holds tells whether a condition is known to hold in a struct.
func holds(x *Ex, sv reflect.Value) bool {
	if x == nil {
		return true
	}
	ok, err := evalBool(x, structEnv(sv, nil))
	return ok && err == nil
}

// walkPresent calls fn on every struct that is encoded as part of v, after its
// nested structs.
func walkPresent(v reflect.Value, fn func(st *St, sv reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walkPresent(v.Elem(), fn)
		}
	case reflect.Array, reflect.Slice:
		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkPresent(v.Index(i), fn)
		}
	case reflect.Struct:
		if customs[v.Type()] != nil {
			return
		}
		st := stOf(v.Type())
		holds := func(x *Ex) bool {
			if x == nil {
				return true
			}
			ok, err := evalBool(x, structEnv(v, func() bool { return false }))
			return ok && err == nil
		}
		// Conditions are decided before anything is changed.
		var inner []reflect.Value
		for _, f := range st.F {
			fv := v.Field(f.Idx)
			if !f.active() || f.Root || f.Parent || f.Pad || !holds(f.If) {
				continue
			}
			if f.Switch != nil {
				if alt, av, err := leaf(f, v, fv); err == nil && alt != nil {
					inner = append(inner, av)
				}
				continue
			}
			inner = append(inner, fv)
		}
		for _, fv := range inner {
			walkPresent(fv, fn)
		}
		fn(st, v)
	}
}

// walk calls fn on every struct with a specification.
func walk(v reflect.Value, fn func(st *St, sv reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walk(v.Elem(), fn)
		}
	case reflect.Array, reflect.Slice:
		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fn)
		}
	case reflect.Struct:
		if customs[v.Type()] != nil {
			return
		}
		st := stOf(v.Type())
		fn(st, v)
		for _, f := range st.F {
			if f.active() && !f.Root && !f.Parent && !f.Pad {
				walk(v.Field(f.Idx), fn)
			}
		}
	}
}

// deepCopy copies everything except parent and root links.
func deepCopy(v reflect.Value) reflect.Value {
	d := reflect.New(v.Type()).Elem()
	copyInto(d, v)
	return d
}

func copyInto(d, s reflect.Value) {
	d = open(d)
	s = open(s)
	switch s.Kind() {
	case reflect.Ptr:
		if s.IsNil() {
			return
		}
		n := reflect.New(s.Type().Elem())
		copyInto(n.Elem(), s.Elem())
		d.Set(n)
	case reflect.Slice:
		if s.IsNil() {
			return
		}
		n := reflect.MakeSlice(s.Type(), s.Len(), s.Len())
		for i := 0; i < s.Len(); i++ {
			copyInto(n.Index(i), s.Index(i))
		}
		d.Set(n)
	case reflect.Array:
		for i := 0; i < s.Len(); i++ {
			copyInto(d.Index(i), s.Index(i))
		}
	case reflect.Struct:
		var st *St
		if customs[s.Type()] == nil && hasSpec(s.Type()) {
			st = stOf(s.Type())
		}
		for i := 0; i < s.NumField(); i++ {
			if st != nil && (st.F[i].Root || st.F[i].Parent) {
				continue
			}
			copyInto(d.Field(i), s.Field(i))
		}
	case reflect.Map:
		if s.IsNil() {
			return
		}
		m := reflect.MakeMap(s.Type())
		for _, k := range s.MapKeys() {
			m.SetMapIndex(k, s.MapIndex(k))
		}
		d.Set(m)
	default:
		if d.CanSet() {
			d.Set(s)
		}
	}
}

// hasSpec tells whether a struct type is one this framework describes (junk
// fields can be plain structs, for which reading the tags works as well).
func hasSpec(t reflect.Type) bool { return t.Kind() == reflect.Struct }

type diffMode int

const (
	diffWire diffMode = iota // what is encoded
	diffAll                  // everything except links
)

// diff describes the first difference between two values, or returns "".
func diff(a, b reflect.Value, mode diffMode) string { return diffAt("", a, b, mode) }

func diffAt(path string, a, b reflect.Value, mode diffMode) string {
	if a.IsValid() != b.IsValid() || a.IsValid() && a.Type() != b.Type() {
		return fmt.Sprintf("%s: types differ", path)
	}
	if !a.IsValid() {
		return ""
	}
	differ := func() string { return fmt.Sprintf("%s: %s != %s", path, dump(a), dump(b)) }
	switch k := a.Kind(); {
	case k == reflect.Bool:
		if a.Bool() != b.Bool() {
			return differ()
		}
	case isIntKind(k):
		if a.Int() != b.Int() {
			return differ()
		}
	case isUintKind(k):
		if a.Uint() != b.Uint() {
			return differ()
		}
	case isFloatKind(k):
		if !sameFloat(a.Float(), b.Float()) {
			return differ()
		}
	case k == reflect.Complex64 || k == reflect.Complex128:
		if !sameFloat(real(a.Complex()), real(b.Complex())) || !sameFloat(imag(a.Complex()), imag(b.Complex())) {
			return differ()
		}
	case k == reflect.String:
		if a.String() != b.String() {
			return differ()
		}
	case k == reflect.Slice || k == reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements != %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := diffAt(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), mode); s != "" {
				return s
			}
		}
	case k == reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return differ()
		}
		if !a.IsNil() && a.Pointer() != b.Pointer() {
			return diffAt(path+"*", a.Elem(), b.Elem(), mode)
		}
	case k == reflect.Map:
		if a.Len() != b.Len() || mode == diffAll && a.IsNil() != b.IsNil() {
			return differ()
		}
		for _, key := range a.MapKeys() {
			if s := diffAt(path+"[key]", a.MapIndex(key), b.MapIndex(key), mode); s != "" {
				return s
			}
		}
	case k == reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return differ()
		}
		if !a.IsNil() {
			return diffAt(path, a.Elem(), b.Elem(), mode)
		}
	case k == reflect.Struct:
		var st *St
		if customs[a.Type()] == nil {
			st = stOf(a.Type())
		}
		for i := 0; i < a.NumField(); i++ {
			if st != nil {
				f := st.F[i]
				if f.Root || f.Parent || mode == diffWire && (f.Ignore || f.Unexp || f.Pad) {
					continue
				}
			}
			if s := diffAt(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), mode); s != "" {
				return s
			}
		}
	case k == reflect.Chan || k == reflect.Func || k == reflect.UnsafePointer:
		if a.Pointer() != b.Pointer() {
			return differ()
		}
	}
	return ""
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

// dump prints a value for humans.
func dump(v reflect.Value) string {
	s := dumpAt(v, 0)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func dumpAt(v reflect.Value, depth int) string {
	if depth > 12 {
		return "..."
	}
	switch k := v.Kind(); {
	case k == reflect.Bool:
		return fmt.Sprint(v.Bool())
	case isIntKind(k):
		return fmt.Sprint(v.Int())
	case isUintKind(k):
		return fmt.Sprintf("%#x", v.Uint())
	case isFloatKind(k):
		return fmt.Sprint(v.Float())
	case k == reflect.Complex64 || k == reflect.Complex128:
		return fmt.Sprint(v.Complex())
	case k == reflect.String:
		return fmt.Sprintf("%q", v.String())
	case k == reflect.Slice || k == reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s := ""
			for i := 0; i < v.Len(); i++ {
				s += fmt.Sprintf("%02x", v.Index(i).Uint())
			}
			return "h'" + s + "'"
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += dumpAt(v.Index(i), depth+1)
		}
		return s + "]"
	case k == reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dumpAt(v.Elem(), depth+1)
	case k == reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if tag := f.Tag.Get("struct"); tag == "parent" || tag == "root" {
				continue
			}
			if i > 0 {
				s += " "
			}
			s += f.Name + ":" + dumpAt(v.Field(i), depth+1)
		}
		return s + "}"
	case !v.IsValid():
		return "invalid"
	}
	return v.Kind().String()
}

// linkTarget is the structure a parent or root link must point to, given the
// enclosing structures (innermost last).
func linkTarget(f *Fd, t reflect.Type, stack []reflect.Value) (reflect.Value, bool) {
	if f.Root {
		stack = stack[:1]
	} else {
		stack = stack[:len(stack)-1]
	}
	for i := len(stack) - 1; i >= 0; i-- {
		if reflect.PtrTo(stack[i].Type()).AssignableTo(t) {
			return stack[i].Addr(), true
		}
	}
	return reflect.Value{}, false
}

func setLink(f *Fd, v reflect.Value, stack []reflect.Value) {
	if p, ok := linkTarget(f, v.Type(), stack); ok && v.CanSet() {
		v.Set(p)
	}
}

// links calls fn on every link that is processed for a value.
func links(v reflect.Value, all bool, stack []reflect.Value, path string, fn func(path string, f *Fd, v reflect.Value, stack []reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			links(v.Elem(), all, stack, path+"*", fn)
		}
	case reflect.Array, reflect.Slice:
		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			links(v.Index(i), all, stack, fmt.Sprintf("%s[%d]", path, i), fn)
		}
	case reflect.Struct:
		if customs[v.Type()] != nil {
			return
		}
		stack = append(stack[:len(stack):len(stack)], v)
		st := stOf(v.Type())
		for _, f := range st.F {
			if f.active() && (f.Root || f.Parent) {
				fn(path+"."+f.Name, f, v.Field(f.Idx), stack)
			}
		}
		for _, f := range st.F {
			fv := v.Field(f.Idx)
			if !f.active() || f.Root || f.Parent || f.Pad {
				continue
			}
			if f.If != nil && !all {
				if ok, err := evalBool(f.If, structEnv(v, func() bool { return false })); err != nil || !ok {
					continue
				}
			}
			if f.Switch != nil && all {
				altLinks(f, fv, all, stack, path, fn)
				continue
			}
			if f.Switch != nil {
				if alt, av, err := leaf(f, v, fv); err == nil && alt != nil {
					links(av, all, stack, path+"."+f.Name+"."+alt.Name, fn)
				}
				continue
			}
			links(fv, all, stack, path+"."+f.Name, fn)
		}
	}
}

func altLinks(f *Fd, fv reflect.Value, all bool, stack []reflect.Value, path string, fn func(path string, f *Fd, v reflect.Value, stack []reflect.Value)) {
	for _, alt := range stOf(f.NT).F {
		switch {
		case !alt.active():
		case alt.Switch != nil:
			altLinks(alt, fv.Field(alt.Idx), all, stack, path, fn)
		default:
			links(fv.Field(alt.Idx), all, stack, path, fn)
		}
	}
}

func setLinks(v reflect.Value) {
	links(v, true, nil, "", func(_ string, f *Fd, v reflect.Value, stack []reflect.Value) { setLink(f, v, stack) })
}

// badLink describes a link that does not point where it must, or returns "".
func badLink(v reflect.Value, unset bool) (msg string, n int) {
	links(v, false, nil, "", func(path string, f *Fd, v reflect.Value, stack []reflect.Value) {
		n++
		p, ok := linkTarget(f, v.Type(), stack)
		got := v
		if got.Kind() == reflect.Interface {
			got = got.Elem()
		}
		switch {
		case msg != "":
		case !ok:
			n--
			if unset && !v.IsNil() {
				msg = path + ": no enclosing structure fits, but the link is set"
			}
		case !got.IsValid() || got.Kind() != reflect.Ptr || got.IsNil():
			msg = path + ": link is not set"
		case got.Type() != p.Type():
			msg = fmt.Sprintf("%s: link has type %s, not %s", path, got.Type(), p.Type())
		case got.Pointer() != p.Pointer():
			msg = fmt.Sprintf("%s: link does not point to the enclosing %s", path, p.Type())
		}
	})
	return
}
