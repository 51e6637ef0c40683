package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/go-restruct/restruct/expr"
)

// This file compares the type model, resolvers, packages and library functions
// of expressions with reflection on the Go values.

// Recursive types.
type (
	rlist1 struct {
		V    int
		Next *rlist1
	}
	rlist2 struct { // the same structure
		V    int
		Next *rlist2
	}
	rlist3 struct { // the same, unrolled
		V    int
		Next *struct {
			V    int
			Next *rlist3
		}
	}
	rlist4 struct { // differs on the second level
		V    int
		Next *struct {
			V    int8
			Next *rlist4
		}
	}
	rlist5 struct {
		V    int
		Prev *rlist5
	}
	rdeep1 struct {
		A, B *struct{ M map[string][]rdeep1 }
	}
	rdeep2 struct {
		A, B *struct{ M map[string][]rdeep2 }
	}
	rdeep3 struct {
		A *struct{ M map[string][]rdeep3 }
		B *struct{ M map[string][]rdeep2x }
	}
	rdeep2x struct {
		A, B *struct{ M map[string][]rdeep2 }
	}
	rmutA struct{ B *rmutB }
	rmutB struct {
		A *rmutA
		C []rmutC
	}
	rmutC struct {
		B map[int8]rmutB
		F func(rmutA, *rmutC) []rmutB
	}
	rptrA  *rptrB
	rptrB  *rptrA
	rptrC  *rptrC
	rslA   []rslB
	rslB   []rslA
	rslC   []rslC
	rslD   []rmapD
	rmapD  map[string]rslD
	rfnA   func(rfnA, int) rfnB
	rfnB   func(rfnB, int) rfnA
	rfnC   func(rfnC, int) rfnC
	rfnD   func(rfnD, int) (rfnD, int)
	rarr   [2]*rarr
	rarr3  [3]*rarr3
	rtree  struct{ Kids [2]*rtree }
	rtree2 struct{ Kids []*rtree2 }
)

type inner0 struct {
	X int8
	Y string
	Z []uint16
}

type Inner1 struct {
	inner0
	Y float64 // hides inner0.Y
	W uint8
}

type Inner2 struct {
	W bool // ambiguous with Inner1.W
	Q int16
}

type embeds struct {
	Inner1
	*Inner2
	Own  uint32
	priv int
	F    func(int) int
	M    map[string]int
	_    int
	P    *embeds
}

func newEmbeds(r *rng) *embeds {
	e := &embeds{Inner2: &Inner2{W: r.p(50), Q: int16(r.u64())}, Own: uint32(r.u64()), priv: 3, F: func(x int) int { return x + 1 }, M: map[string]int{"a": r.n(100)}}
	e.X, e.Inner1.Y, e.Inner1.W, e.inner0.Y, e.Z = int8(r.u64()), float64(r.n(100)), uint8(r.u64()), "in", []uint16{1, 2}
	return e
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(rlist1{}), reflect.TypeOf(rlist2{}), reflect.TypeOf(rlist3{}), reflect.TypeOf(rlist4{}), reflect.TypeOf(rlist5{}),
	reflect.TypeOf(rdeep1{}), reflect.TypeOf(rdeep2{}), reflect.TypeOf(rdeep3{}), reflect.TypeOf(rmutA{}), reflect.TypeOf(rmutB{}), reflect.TypeOf(rmutC{}),
	reflect.TypeOf(rptrA(nil)), reflect.TypeOf(rptrB(nil)), reflect.TypeOf(rptrC(nil)), reflect.TypeOf(rslA(nil)), reflect.TypeOf(rslB(nil)), reflect.TypeOf(rslC(nil)),
	reflect.TypeOf(rslD(nil)), reflect.TypeOf(rmapD(nil)), reflect.TypeOf(rfnA(nil)), reflect.TypeOf(rfnB(nil)), reflect.TypeOf(rfnC(nil)), reflect.TypeOf(rfnD(nil)),
	reflect.TypeOf(rarr{}), reflect.TypeOf(rarr3{}), reflect.TypeOf(rtree{}), reflect.TypeOf(rtree2{}),
	reflect.TypeOf(embeds{}), reflect.TypeOf(Inner1{}), reflect.TypeOf(loop{}), reflect.TypeOf(hidden{}), reflect.TypeOf(slot[int16]{}), reflect.TypeOf(deep[string]{}), reflect.TypeOf(embedsNil{}),
	reflect.TypeOf(NUint8(0)), reflect.TypeOf(NString("")), reflect.TypeOf(NBool(false)), reflect.TypeOf(struct{}{}), reflect.TypeOf(func() {}), reflect.TypeOf([0]struct{}{}),
}

// rtype makes a random type that expressions can represent.
func rtype(r *rng, depth int) reflect.Type {
	if depth <= 0 || r.p(20) {
		if r.p(8) {
			return staticTypes[r.n(len(staticTypes))]
		}
		if r.p(20) {
			return kinds[r.n(len(kinds))].t
		}
		for {
			k := reflect.Kind(r.in(int(reflect.Bool), int(reflect.String)))
			if t := basicTypes[k]; t != nil && k != reflect.Complex64 && k != reflect.Complex128 {
				return t
			}
		}
	}
	s := func() reflect.Type { return rtype(r, depth-1) }
	switch r.n(7) {
	case 0:
		return reflect.PointerTo(s())
	case 1:
		return reflect.SliceOf(s())
	case 2:
		return reflect.ArrayOf(r.n(4), s())
	case 3:
		k := s()
		for !k.Comparable() {
			k = rtype(r, 0)
		}
		return reflect.MapOf(k, s())
	case 4:
		var in, out []reflect.Type
		for i := r.n(4); i > 0; i-- {
			in = append(in, s())
		}
		for i := r.n(3); i > 0; i-- {
			out = append(out, s())
		}
		variadic := len(in) > 0 && in[len(in)-1].Kind() == reflect.Slice && r.p(70)
		return reflect.FuncOf(in, out, variadic)
	}
	var fs []reflect.StructField
	for i := r.n(5); i > 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)+r.n(2)*10), Type: s()})
	}
	if r.p(10) { // alike, but not the same
		for i := range fs {
			fs[i].Name = [...]string{"Ab", "AB", "Abc", "ABc", "A_b"}[i]
		}
	}
	return reflect.StructOf(fs)
}

// varyType makes a type that differs from t in one place, or not at all.
func varyType(r *rng, t reflect.Type) reflect.Type {
	if t.Name() != "" || r.p(10) {
		if t.Kind() == reflect.Struct || r.p(50) {
			return rtype(r, 1)
		}
		// The underlying type of another name is the same.
		if b := basicTypes[t.Kind()]; b != nil {
			return b
		}
		return rtype(r, 0)
	}
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PointerTo(varyType(r, t.Elem()))
	case reflect.Slice:
		if r.p(20) {
			return reflect.ArrayOf(1, t.Elem())
		}
		return reflect.SliceOf(varyType(r, t.Elem()))
	case reflect.Array:
		if r.p(40) {
			return reflect.ArrayOf(t.Len()+1, t.Elem())
		}
		return reflect.ArrayOf(t.Len(), varyType(r, t.Elem()))
	case reflect.Map:
		if r.p(40) {
			if k := varyType(r, t.Key()); k.Comparable() {
				return reflect.MapOf(k, t.Elem())
			}
		}
		return reflect.MapOf(t.Key(), varyType(r, t.Elem()))
	case reflect.Func:
		var in, out []reflect.Type
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, t.Out(i))
		}
		v := t.IsVariadic()
		switch n := r.n(6); {
		case n == 0:
			return reflect.FuncOf(in, append(out, reflect.TypeOf(0)), v)
		case n == 1 && len(in) > 0 && in[len(in)-1].Kind() == reflect.Slice:
			return reflect.FuncOf(in, out, !v)
		case n == 2 && len(in) > 0 && !v:
			i := r.n(len(in))
			in[i] = varyType(r, in[i])
			return reflect.FuncOf(in, out, false)
		case n == 3 && len(out) > 0:
			i := r.n(len(out))
			out[i] = varyType(r, out[i])
			return reflect.FuncOf(in, out, v)
		case n == 4 && len(in) > 1 && !v:
			in[0], in[1] = in[1], in[0]
			return reflect.FuncOf(in, out, false)
		case len(in) > 0 && !v:
			return reflect.FuncOf(in[:len(in)-1], out, false)
		}
		return t
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, reflect.StructField{Name: t.Field(i).Name, Type: t.Field(i).Type, Tag: t.Field(i).Tag})
		}
		if len(fs) == 0 {
			return reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}})
		}
		i := r.n(len(fs))
		switch r.n(6) {
		case 0:
			fs[i].Name += "x"
		case 1:
			fs[i].Tag = `struct:"int8"` // not part of the structure
		case 2:
			fs[0], fs[i] = fs[i], fs[0]
		case 3:
			fs = append(fs[:i:i], fs[i+1:]...)
		default:
			fs[i].Type = varyType(r, fs[i].Type)
		}
		return reflect.StructOf(fs)
	}
	return rtype(r, 0)
}

// sameShape tells whether two types have the same structure.
func sameShape(a, b reflect.Type, seen map[[2]reflect.Type]bool) bool {
	if a == b || seen[[2]reflect.Type{a, b}] {
		return true
	}
	seen[[2]reflect.Type{a, b}] = true
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Slice:
		return sameShape(a.Elem(), b.Elem(), seen)
	case reflect.Array:
		return a.Len() == b.Len() && sameShape(a.Elem(), b.Elem(), seen)
	case reflect.Map:
		return sameShape(a.Key(), b.Key(), seen) && sameShape(a.Elem(), b.Elem(), seen)
	case reflect.Func:
		if a.NumIn() != b.NumIn() || a.NumOut() != b.NumOut() || a.IsVariadic() != b.IsVariadic() {
			return false
		}
		for i := 0; i < a.NumIn(); i++ {
			if !sameShape(a.In(i), b.In(i), seen) {
				return false
			}
		}
		for i := 0; i < a.NumOut(); i++ {
			if !sameShape(a.Out(i), b.Out(i), seen) {
				return false
			}
		}
	case reflect.Struct:
		if a.NumField() != b.NumField() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Field(i).Name != b.Field(i).Name || !sameShape(a.Field(i).Type, b.Field(i).Type, seen) {
				return false
			}
		}
	}
	return true
}

type mirrorKey struct {
	e expr.Type
	t reflect.Type
}

// mirrors compares an expression type with a Go type, down to where both
// repeat. It returns what differs.
func mirrors(e expr.Type, t reflect.Type, path string, seen map[mirrorKey]bool) string {
	if e == nil {
		return path + ": no type"
	}
	if seen[mirrorKey{e, t}] {
		return ""
	}
	seen[mirrorKey{e, t}] = true
	if e.Kind() != primKind[t.Kind()] || e.Kind() == expr.Invalid {
		return fmt.Sprintf("%s: kind %d for a %s", path, e.Kind(), t)
	}
	bad := func() string { return fmt.Sprintf("%s: %T for a %s", path, e, t) }
	switch t.Kind() {
	case reflect.Ptr:
		x, ok := e.(*expr.PtrType)
		if !ok {
			return bad()
		}
		return mirrors(x.Elem(), t.Elem(), path+".*", seen)
	case reflect.Slice:
		x, ok := e.(*expr.SliceType)
		if !ok {
			return bad()
		}
		return mirrors(x.Elem(), t.Elem(), path+"[]", seen)
	case reflect.Array:
		x, ok := e.(*expr.ArrayType)
		if !ok {
			return bad()
		}
		if x.Len() != t.Len() {
			return fmt.Sprintf("%s: length %d for a %s", path, x.Len(), t)
		}
		return mirrors(x.Elem(), t.Elem(), path+"[]", seen)
	case reflect.Map:
		x, ok := e.(*expr.MapType)
		if !ok {
			return bad()
		}
		if d := mirrors(x.Key(), t.Key(), path+".key", seen); d != "" {
			return d
		}
		return mirrors(x.Value(), t.Elem(), path+".value", seen)
	case reflect.Func:
		x, ok := e.(*expr.FuncType)
		if !ok {
			return bad()
		}
		if x.NumIn() != t.NumIn() || x.NumOut() != t.NumOut() || x.IsVariadic() != t.IsVariadic() {
			return fmt.Sprintf("%s: %d parameters, %d results, variadic %v for a %s", path, x.NumIn(), x.NumOut(), x.IsVariadic(), t)
		}
		for i := 0; i < t.NumIn(); i++ {
			if d := mirrors(x.In(i), t.In(i), fmt.Sprintf("%s.in%d", path, i), seen); d != "" {
				return d
			}
		}
		for i := 0; i < t.NumOut(); i++ {
			if d := mirrors(x.Out(i), t.Out(i), fmt.Sprintf("%s.out%d", path, i), seen); d != "" {
				return d
			}
		}
	case reflect.Struct:
		x, ok := e.(*expr.StructType)
		if !ok {
			return bad()
		}
		if x.NumFields() != t.NumField() {
			return fmt.Sprintf("%s: %d fields for a %s", path, x.NumFields(), t)
		}
		names := map[string]int{}
		for i := 0; i < t.NumField(); i++ {
			names[t.Field(i).Name]++
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if x.Field(i).Name != f.Name {
				return fmt.Sprintf("%s: field %d is %s, not %s", path, i, x.Field(i).Name, f.Name)
			}
			if d := mirrors(x.Field(i).Type, f.Type, path+"."+f.Name, seen); d != "" {
				return d
			}
			if names[f.Name] == 1 {
				y, ok := x.FieldByName(f.Name)
				if !ok || y.Name != f.Name {
					return fmt.Sprintf("%s: FieldByName does not know %s", path, f.Name)
				}
				if d := mirrors(y.Type, f.Type, path+".byname("+f.Name+")", seen); d != "" {
					return d
				}
			}
		}
		if _, ok := x.FieldByName("Missing" + path); ok {
			return path + ": FieldByName knows a missing field"
		}
	default:
		x, ok := e.(*expr.PrimitiveType)
		if !ok {
			return bad()
		}
		if x.String() != t.Kind().String() {
			return fmt.Sprintf("%s: %s for a %s", path, x, t)
		}
	}
	return ""
}

func (c *Ctx) typeOf(x interface{}) (t expr.Type, pan string) {
	defer guard(&pan)
	return expr.TypeOf(x), ""
}

func typeEqual(a, b expr.Type) (eq bool, pan string) {
	defer guard(&pan)
	return expr.TypeEqual(a, b), ""
}

// construct makes an expression type with the constructors.
func construct(r *rng, t reflect.Type) expr.Type {
	switch t.Kind() {
	case reflect.Ptr:
		return expr.NewPtrType(construct(r, t.Elem()))
	case reflect.Slice:
		return expr.NewSliceType(construct(r, t.Elem()))
	case reflect.Array:
		return expr.NewArrayType(t.Len(), construct(r, t.Elem()))
	case reflect.Map:
		return expr.NewMapType(construct(r, t.Key()), construct(r, t.Elem()))
	case reflect.Func:
		var in, out []expr.Type
		if r.p(50) {
			in, out = []expr.Type{}, []expr.Type{}
		}
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, construct(r, t.In(i)))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, construct(r, t.Out(i)))
		}
		return expr.NewFuncType(in, out, t.IsVariadic())
	case reflect.Struct:
		var fs []expr.Field
		if r.p(50) {
			fs = []expr.Field{}
		}
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, expr.Field{Name: t.Field(i).Name, Type: construct(r, t.Field(i).Type)})
		}
		return expr.NewStructType(fs)
	}
	return expr.NewPrimitiveType(primKind[t.Kind()])
}

// recursive tells whether a type contains itself.
func recursive(t reflect.Type, above map[reflect.Type]bool) bool {
	if above[t] {
		return true
	}
	above[t] = true
	defer delete(above, t)
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return recursive(t.Elem(), above)
	case reflect.Map:
		return recursive(t.Key(), above) || recursive(t.Elem(), above)
	case reflect.Func:
		for i := 0; i < t.NumIn(); i++ {
			if recursive(t.In(i), above) {
				return true
			}
		}
		for i := 0; i < t.NumOut(); i++ {
			if recursive(t.Out(i), above) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if recursive(t.Field(i).Type, above) {
				return true
			}
		}
	}
	return false
}

func zeroOf(t reflect.Type) interface{} { return reflect.New(t).Elem().Interface() }

// modelCase checks the types of two values.
func modelCase(c *Ctx) {
	r := c.R
	a := rtype(r, r.n(4))
	b := varyType(r, a)
	if r.p(20) {
		a, b = staticTypes[r.n(len(staticTypes))], staticTypes[r.n(len(staticTypes))]
		if r.p(30) {
			a, b = reflect.SliceOf(a), reflect.SliceOf(b)
		}
	}
	if r.p(10) {
		b = a
	}
	c.Distinct(hashStr(tname(a) + "/" + tname(b)))
	c.Sample("%s | %s", tname(a), tname(b))
	if r.p(10) {
		// A type that cannot be represented, in front of its parts.
		bad := reflect.StructOf([]reflect.StructField{{Name: "A", Type: a}, {Name: "B", Type: reflect.PointerTo(b)}, {Name: "C", Type: pick(r, reflect.TypeOf(make(chan int)), reflect.TypeOf(1i), reflect.TypeOf((*error)(nil)).Elem())}})
		if r.p(50) {
			bad = reflect.PointerTo(bad)
		}
		if t, pan := c.typeOf(zeroOf(bad)); pan == "" {
			c.Count("unrepresentable_accepted", 1)
			_ = t
		}
		c.Count("unrepresentable_types", 1)
	}
	var ts [2]expr.Type
	for i, t := range []reflect.Type{a, b} {
		x, pan := c.typeOf(zeroOf(t))
		c.Eval(1)
		if pan != "" {
			c.Fail("TypeOf a %s: %s", tname(t), pan)
			return
		}
		if d := mirrors(x, t, "", map[mirrorKey]bool{}); d != "" {
			c.Fail("the type of a %s does not mirror it: %s", tname(t), d)
			return
		}
		if s, pan := typeString(x); pan != "" || s == "" {
			c.Fail("String of the type of a %s: %q %s", tname(t), s, pan)
		}
		ts[i] = x
		y, _ := c.typeOf(zeroOf(t))
		if eq, pan := typeEqual(x, y); !eq || pan != "" {
			c.Fail("two types of %s are not equal %s", tname(t), pan)
		}
		if !recursive(t, map[reflect.Type]bool{}) {
			k := construct(r, t)
			if eq, pan := typeEqual(x, k); !eq || pan != "" {
				c.Fail("the type of a %s does not equal the same type made with constructors %s", tname(t), pan)
			}
			c.Count("constructed_types", 1)
		} else {
			c.Count("recursive_types", 1)
		}
	}
	want := sameShape(a, b, map[[2]reflect.Type]bool{})
	for _, p := range [][2]expr.Type{{ts[0], ts[1]}, {ts[1], ts[0]}} {
		c.Eval(1)
		eq, pan := typeEqual(p[0], p[1])
		if pan != "" || eq != want {
			c.Fail("TypeEqual of %s and %s is %v %s; want %v", tname(a), tname(b), eq, pan, want)
		}
	}
	if want {
		c.Count("equal_pairs", 1)
	} else {
		c.Count("unequal_pairs", 1)
	}
}

func typeString(t expr.Type) (s, pan string) {
	defer guard(&pan)
	return t.String(), ""
}

// checkValue compares an expression value with a Go value.
func (c *Ctx) checkValue(what string, v expr.Value, want reflect.Value) {
	c.Eval(1)
	defer func() {
		if e := recover(); e != nil {
			c.Fail("%s: panic: %v", what, e)
		}
	}()
	if v == nil {
		c.Fail("%s is not resolved", what)
		return
	}
	if g := v.Value(); !g.IsValid() || g.Type() != want.Type() || outcome(g.Interface(), nil) != outcome(want.Interface(), nil) && want.Kind() != reflect.Ptr {
		c.Fail("%s is %v, want %v (%s)", what, v.RawValue(), want.Interface(), want.Type())
		return
	} else if want.Kind() == reflect.Ptr && g.UnsafePointer() != want.UnsafePointer() {
		c.Fail("%s is another pointer", what)
	}
	if d := mirrors(v.Type(), want.Type(), "", map[mirrorKey]bool{}); d != "" {
		c.Fail("%s: the type does not mirror %s: %s", what, want.Type(), d)
	}
}

func guarded(f func() expr.Value) (v expr.Value, pan string) {
	defer guard(&pan)
	return f(), ""
}

// fillValue puts random content into a value.
func fillValue(r *rng, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.p(50))
	case reflect.String:
		v.SetString(pick(r, "", "a", "b", "longer text"))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.n(1000)) / 8)
	case reflect.Slice:
		if depth > 0 && r.p(80) {
			v.Set(reflect.MakeSlice(v.Type(), r.n(4), 5))
			for i := 0; i < v.Len(); i++ {
				fillValue(r, v.Index(i), depth-1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillValue(r, v.Index(i), depth-1)
		}
	case reflect.Ptr:
		if depth > 0 && r.p(80) {
			p := reflect.New(v.Type().Elem())
			fillValue(r, p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Map:
		if depth > 0 && r.p(80) {
			v.Set(reflect.MakeMap(v.Type()))
			for i := r.n(4); i > 0; i-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				fillValue(r, k, 0)
				fillValue(r, e, depth-1)
				if k.Kind() != reflect.Array && k.Kind() != reflect.Struct {
					v.SetMapIndex(k, e)
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillValue(r, v.Field(i), depth-1)
			}
		}
	case reflect.Func:
	default:
		if isIntKind(v.Kind()) {
			v.SetInt(int64(r.u64()) >> uint(r.n(64)))
		} else if isUintKind(v.Kind()) {
			v.SetUint(r.u64() >> uint(r.n(64)))
		}
	}
}

// resolveCase checks the resolvers on a struct value.
func resolveCase(c *Ctx) {
	r := c.R
	var p reflect.Value
	if r.p(20) {
		p = reflect.ValueOf(newEmbeds(r))
	} else {
		var fs []reflect.StructField
		for i := r.n(6); i > 0; i-- {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("N%d", len(fs)), Type: rtype(r, r.n(3))})
		}
		p = reflect.New(reflect.StructOf(fs))
		fillValue(r, p.Elem(), 4)
	}
	v := p.Elem()
	t := v.Type()
	c.Distinct(hashStr(tname(t)))
	names := []string{"", "Missing", "missing", "priv", "_", "W", "nil", "N9", "bits"}
	for _, f := range reflect.VisibleFields(t) {
		names = append(names, f.Name)
	}
	// The resolvers of a struct.
	sr := expr.NewStructResolver(v)
	if r.p(30) {
		sr = expr.NewStructResolver(reflect.ValueOf(v.Interface())) // not addressable
		v = reflect.ValueOf(v.Interface())
	}
	tr := expr.NewStructTypeResolver(v.Interface())
	ta := expr.NewTypeResolverAdapter(sr)
	known := map[string]expr.Value{}
	check := func(when string) {
		for _, n := range names {
			f, ok := t.FieldByName(n)
			ok = ok && f.PkgPath == ""
			x, pan := guarded(func() expr.Value { return sr.Resolve(n) })
			if pan != "" {
				c.Fail("%s: Resolve(%q) on %s: %s", when, n, tname(t), pan)
				continue
			}
			if !ok {
				c.Eval(1)
				if x != nil {
					c.Fail("%s: Resolve(%q) on %s finds %v", when, n, tname(t), x.RawValue())
				}
				if y := tr.TypeResolve(n); y != nil {
					c.Fail("%s: TypeResolve(%q) on %s finds %v", when, n, tname(t), y)
				}
				if y := ta.TypeResolve(n); y != nil {
					c.Fail("%s: the adapter's TypeResolve(%q) on %s finds %v", when, n, tname(t), y)
				}
				c.Count("absent_names", 1)
				continue
			}
			c.Count("present_names", 1)
			c.checkValue(fmt.Sprintf("%s: field %s of %s", when, n, tname(t)), x, v.FieldByIndex(f.Index))
			if !c.ok() {
				return
			}
			known[n] = x
			for _, y := range []expr.TypeResolver{tr, ta} {
				z := y.TypeResolve(n)
				if d := mirrors(z, f.Type, "", map[mirrorKey]bool{}); d != "" {
					c.Fail("%s: %T.TypeResolve(%q) on %s: %s", when, y, n, tname(t), d)
				} else if eq, _ := typeEqual(z, x.Type()); !eq {
					c.Fail("%s: %T.TypeResolve(%q) on %s differs from the type of the value", when, y, n, tname(t))
				}
			}
		}
	}
	check("at first")
	if v.CanSet() && c.ok() {
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && !t.Field(i).Anonymous {
				fillValue(r, v.Field(i), 3)
			}
		}
		check("after a change")
	}
	if !c.ok() {
		return
	}
	// The same by text.
	for _, n := range names {
		if x := known[n]; x != nil && n != "nil" {
			got, err, pan := evalText(sr, n)
			c.Eval(1)
			if err != nil || pan != "" || outcome(got, nil) != outcome(x.RawValue(), nil) {
				c.Fail("Eval(%q) on %s gives %v, %v %s; the field is %v", n, tname(t), got, err, pan, x.RawValue())
			}
		}
	}
	// Member, element, entry and pointer operations give the types of what
	// they lead to.
	c.walk(r, "value", expr.ValueOf(v.Interface()), reflect.ValueOf(v.Interface()), 4)
}

// walk follows values on both sides.
func (c *Ctx) walk(r *rng, path string, e expr.Value, v reflect.Value, depth int) {
	c.checkValue(path, e, v)
	if depth == 0 || !c.ok() {
		return
	}
	step := func(p string, f func() expr.Value, w reflect.Value) {
		if !w.CanInterface() {
			return
		}
		x, pan := guarded(f)
		if pan != "" {
			c.Fail("%s of %s: %s", p, tname(v.Type()), pan)
			return
		}
		c.Count("steps", 1)
		c.walk(r, path+p, x, w, depth-1)
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if f, ok := v.Type().FieldByName(n); ok && f.PkgPath == "" {
				step("."+n, func() expr.Value { return e.Dot(n) }, v.Field(i))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			step(".*", e.Deref, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		if v.Len() > 0 {
			i := r.n(v.Len())
			step(fmt.Sprintf("[%d]", i), func() expr.Value { return e.Index(expr.ValueOf(i)) }, v.Index(i))
		}
	case reflect.Map:
		for i, k := range v.MapKeys() {
			if i < 2 && k.Interface() == k.Interface() {
				step(fmt.Sprintf("[%v]", k), func() expr.Value { return e.Index(expr.ValueOf(k.Interface())) }, v.MapIndex(k))
			}
		}
		k := reflect.New(v.Type().Key()).Elem()
		fillValue(r, k, 1)
		if !v.MapIndex(k).IsValid() {
			step("[absent]", func() expr.Value { return e.Index(expr.ValueOf(k.Interface())) }, reflect.Zero(v.Type().Elem()))
		}
	}
}

// stackCase checks map resolvers, packages and combinations.
func stackCase(c *Ctx) {
	r := c.R
	names := []string{"a", "b", "c", "x", "A", "", "é", "true"}
	n := r.in(0, 5)
	mr, mt := expr.NewMetaResolver(), expr.NewMetaTypeResolver()
	var layers []map[string]interface{}
	sig := ""
	asked := 0
	for i := 0; i < n; i++ {
		m := map[string]interface{}{}
		vals, types := map[string]expr.Value{}, map[string]expr.Type{}
		for _, nm := range names {
			if r.p(35) {
				v := zeroOf(rtype(r, r.n(2)))
				if r.p(50) {
					v = 100*i + r.n(100)
				}
				m[nm] = v
				vals[nm], types[nm] = expr.ValueOf(v), expr.TypeOf(v)
				sig += nm + " "
			}
		}
		sig += "|"
		layers = append(layers, m)
		switch r.n(3) {
		case 0:
			mr.AddResolver(expr.NewMapResolver(vals))
			mt.AddResolver(expr.NewMapTypeResolver(types))
		case 1:
			mr.AddResolver(funcResolver(func(name string) expr.Value {
				asked++
				if v, ok := vals[name]; ok {
					return v
				}
				return nil
			}))
			mt.AddResolver(expr.NewTypeResolverAdapter(expr.NewMapResolver(vals)))
		default: // nested
			in, it := expr.NewMetaResolver(), expr.NewMetaTypeResolver()
			in.AddResolver(expr.NewMapResolver(nil))
			in.AddResolver(expr.NewMapResolver(vals))
			it.AddResolver(expr.NewMapTypeResolver(nil))
			it.AddResolver(expr.NewMapTypeResolver(types))
			mr.AddResolver(in)
			mt.AddResolver(it)
		}
	}
	c.Distinct(hashStr(sig))
	for _, nm := range append(names, "missing") {
		var want interface{}
		found := false
		for _, m := range layers {
			if v, ok := m[nm]; ok {
				want, found = v, true
				break
			}
		}
		x, pan := guarded(func() expr.Value { return mr.Resolve(nm) })
		y := mt.TypeResolve(nm)
		z := expr.NewTypeResolverAdapter(mr).TypeResolve(nm)
		c.Eval(1)
		if pan != "" {
			c.Fail("Resolve(%q) in %s: %s", nm, sig, pan)
			return
		}
		if !found {
			if x != nil || y != nil || z != nil {
				c.Fail("%q is not in %s, but resolves to %v, %v, %v", nm, sig, x, y, z)
			}
			c.Count("absent_names", 1)
			continue
		}
		c.Count("present_names", 1)
		c.checkValue(fmt.Sprintf("%q in %s", nm, sig), x, reflect.ValueOf(want))
		for _, y := range []expr.Type{y, z} {
			if d := mirrors(y, reflect.TypeOf(want), "", map[mirrorKey]bool{}); d != "" {
				c.Fail("the type of %q in %s: %s", nm, sig, d)
			}
		}
		if nm != "" && nm != "true" {
			v, err, pan := evalText(mr, nm)
			if err != nil || pan != "" || outcome(v, nil) != outcome(want, nil) {
				c.Fail("Eval(%q) in %s gives %v, %v %s; want %v", nm, sig, v, err, pan, want)
			}
		}
	}
	// Packages.
	syms := map[string]expr.Value{}
	raw := map[string]interface{}{}
	for _, nm := range []string{"One", "f", "X", "é"} {
		if r.p(70) {
			v := zeroOf(rtype(r, r.n(3)))
			if r.p(50) {
				v = r.n(1000)
			}
			raw[nm] = v
			syms[nm] = expr.ValueOf(v)
		}
	}
	subSyms := map[string]expr.Value{"Two": expr.ValueOf(r.n(10))}
	syms["Sub"] = expr.ValueOf(expr.NewPackage(subSyms))
	pkg := expr.NewPackage(syms)
	res := expr.NewMapResolver(map[string]expr.Value{"pkg": expr.ValueOf(pkg)})
	pt, ok := pkg.Type().(*expr.PackageType)
	if !ok || pt.Kind() != expr.Pkg || expr.TypeOf(pkg).Kind() != expr.Pkg || expr.ValueOf(pkg).Type().Kind() != expr.Pkg {
		c.Fail("a package has type %T", pkg.Type())
		return
	}
	for _, nm := range []string{"One", "f", "X", "é", "Missing"} {
		x := pkg.Symbol(nm)
		y := pt.Symbol(nm)
		v, err, pan := evalText(res, "pkg."+nm)
		d, dpan := guarded(func() expr.Value { return expr.ValueOf(pkg).Dot(nm) })
		c.Eval(1)
		if want, ok := raw[nm]; ok {
			c.checkValue("package symbol "+nm, x, reflect.ValueOf(want))
			if dpan != "" {
				c.Fail("Dot(%q) of a package: %s", nm, dpan)
			} else {
				c.checkValue("Dot on a package "+nm, d, reflect.ValueOf(want))
			}
			if d := mirrors(y, reflect.TypeOf(want), "", map[mirrorKey]bool{}); d != "" {
				c.Fail("the type of package symbol %s: %s", nm, d)
			}
			if err != nil || pan != "" || outcome(v, nil) != outcome(want, nil) {
				c.Fail("pkg.%s gives %v, %v %s; want %v", nm, v, err, pan, want)
			}
			c.Count("package_symbols", 1)
		} else if x != nil || y != nil || err == nil || pan != "" || dpan == "" {
			c.Fail("package symbol %s does not exist, but is %v, %v, %v, %v %s", nm, x, y, v, err, pan)
		}
	}
	two, err, _ := evalText(res, "pkg.Sub.Two")
	if err != nil || two != subSyms["Two"].RawValue() {
		c.Fail("pkg.Sub.Two gives %v, %v; want %v", two, err, subSyms["Two"].RawValue())
	}
	if eq, _ := typeEqual(pkg.Type(), expr.NewPackage(syms).Type()); !eq {
		c.Fail("the types of two packages with the same symbols are not equal")
	}
	less := map[string]expr.Value{}
	for k, v := range syms {
		less[k] = v
	}
	delete(less, "Sub")
	if eq, _ := typeEqual(pkg.Type(), expr.NewPackage(less).Type()); eq {
		c.Fail("packages with and without Sub have equal types")
	}
	// Constants.
	lits := []expr.Kind{expr.UntypedBool, expr.UntypedInt, expr.UntypedFloat, expr.UntypedNil}
	for i, a := range lits {
		for j, b := range lits {
			if eq, _ := typeEqual(expr.NewLiteralType(a), expr.NewLiteralType(b)); eq != (i == j) {
				c.Fail("TypeEqual of %s and %s is %v", expr.NewLiteralType(a), expr.NewLiteralType(b), eq)
			}
		}
		for k := expr.Bool; k <= expr.String; k++ {
			if eq, _ := typeEqual(expr.NewLiteralType(a), expr.NewPrimitiveType(k)); eq {
				c.Fail("TypeEqual of %s and %s", expr.NewLiteralType(a), expr.NewPrimitiveType(k))
			}
		}
	}
}

// bitsCase calls one library function from a struct expression.
func bitsCase(c *Ctx, name string, chunk int) {
	r := c.R
	f := reflect.ValueOf(bitsFuncs[name])
	ft := f.Type()
	in := ft.In(0)
	c.Distinct(hashStr("bits " + name))
	tag := "out=bits." + name + "(A)"
	if ft.NumIn() == 2 {
		tag = "out=bits." + name + "(A, B)"
	}
	res := ft.Out(0)
	fs := []reflect.StructField{{Name: "A", Type: in}}
	wire := func(t reflect.Type) string {
		switch t.Kind() {
		case reflect.Int:
			return "int64"
		case reflect.Uint:
			return "uint64"
		}
		return t.String()
	}
	fs[0].Tag = reflect.StructTag(`struct:"` + wire(in) + `"`)
	fs = append(fs, reflect.StructField{Name: "B", Type: reflect.TypeOf(0), Tag: `struct:"int64"`})
	fs = append(fs, reflect.StructField{Name: "R", Type: res, Tag: reflect.StructTag(`struct:"` + wire(res) + "," + tag + `"`)})
	t := reflect.StructOf(fs)
	w := in.Bits()
	args := func(yield func(a uint64)) {
		if w <= 16 {
			// All of them, in pieces.
			n := 1 << w
			if n > 4096 {
				for i := 0; i < 4096; i++ {
					yield(uint64(chunk*4096+i) % uint64(n))
				}
				return
			}
			for i := 0; i < n; i++ {
				yield(uint64(i))
			}
			return
		}
		for i := 0; i <= w; i++ {
			p := uint64(1) << uint(i%64)
			yield(p)
			yield(p - 1)
			yield(^p)
			yield(p | 1)
		}
		yield(0)
		for i := 0; i < 600; i++ {
			yield(r.u64() >> uint(r.n(64)))
		}
	}
	v := reflect.New(t)
	args(func(a uint64) {
		if !c.ok() {
			return
		}
		v.Elem().Field(0).SetUint(a & (^uint64(0) >> uint(64-w)))
		k := pick(r, 0, 1, -1, 7, 8, 9, 31, 32, 63, 64, 65, -64, int(r.u64()))
		v.Elem().Field(1).SetInt(int64(k))
		v.Elem().Field(2).SetZero()
		call := []reflect.Value{v.Elem().Field(0)}
		if ft.NumIn() == 2 {
			call = append(call, v.Elem().Field(1))
		}
		want := f.Call(call)[0]
		c.Eval(1)
		buf, err, pan := pack(orderOf(false), v.Interface())
		if err != nil || pan != "" {
			c.Fail("bits.%s(%d, %d): %v %s", name, call[0], k, err, pan)
			return
		}
		wn := 8
		if res.Kind() != reflect.Int && res.Kind() != reflect.Uint {
			wn = res.Bits() / 8
		}
		var got, exp uint64
		for _, b := range buf[len(buf)-wn:] {
			got = got<<8 | uint64(b)
		}
		if isIntKind(want.Kind()) {
			exp = uint64(want.Int())
		} else {
			exp = want.Uint()
		}
		if got != exp {
			c.Fail("bits.%s(%d, %d) gives %d in a struct expression, %d in Go", name, call[0], k, got, exp)
		}
		c.Count("library_calls", 1)
	})
}

var bitsNames = func() []string {
	var ns []string
	for n := range bitsFuncs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}()

func init() {
	chunks := 16
	nb := len(bitsNames) * chunks
	register(&Check{ID: "C21",
		Rule:  "The first cases call every function of math/bits offered to struct expressions, by packing a struct with an 'out' expression, with all arguments of 8 and 16 bits, single bits, their complements and random values otherwise, and rotation counts of both signs; results must be those of math/bits. The rest compare, for random types made with reflection and 37 static ones, most of them recursive, the expression type with the Go type by a bisimulation and TypeEqual with one for pairs that differ in at most one place; resolve all present and some absent names of random struct values before and after changes, by all resolvers and by text, and follow members, elements, entries and pointers; and build random stacks of resolvers and packages. Non-trivial: distinct types, stacks or functions.",
		Quick: nb + 160000, Thorough: nb + 1500000,
		Case: func(c *Ctx) {
			if c.N < nb {
				name := bitsNames[c.N/chunks]
				w := reflect.TypeOf(bitsFuncs[name]).In(0).Bits()
				if w != 16 && c.N%chunks > 1 && c.Tier != "thorough" {
					return
				}
				bitsCase(c, name, c.N%chunks)
				return
			}
			switch c.R.n(4) {
			case 0, 1:
				modelCase(c)
			case 2:
				resolveCase(c)
			default:
				stackCase(c)
			}
		}})
}
