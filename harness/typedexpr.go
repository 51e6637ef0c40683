package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct/expr"
)

// This file generates expressions together with closures that compute them
// with Go's own operators on Go's own types: what the compiler made of the
// same operation is the oracle.

// nd is an expression and its meaning. f panics where Go does.
type nd struct {
	e *Ex
	f func() interface{}
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

type float interface{ ~float32 | ~float64 }

type pt[T any] struct{ X, Y T }

type deep[T any] struct {
	V    T
	Next *deep[T]
	Arr  [2]pt[T]
}

// slot holds values of a type in all the places an expression can reach.
type slot[T any] struct {
	V    T
	P    *T
	PP   **T
	A    [3]T
	AA   [2][2]T
	S    []T
	SP   []*T
	M    map[string]T
	MI   map[int16]T
	MU   map[NUint8]T
	MB   map[bool]*pt[T]
	F    func(T) T
	G    func(T, T) T
	H    func() pt[T]
	N    func(NInt16, string) T
	J    func(int, T, T, T, T) T
	Q    func([]T, *T, bool, map[string]T, func(T) T) T
	In   pt[T]
	D    deep[T]
	DP   *deep[T]
	DPP  **deep[T]
	F0   func()
	F2   func(T) (T, T)
	Nil  *T
	NilS []T
	NilM map[string]T
	NilF func(T) T
	NilD *deep[T]
}

func newSlot[T any](r *rng, gen func() T) *slot[T] {
	p := func() *T { v := gen(); return &v }
	pts := func() pt[T] { return pt[T]{gen(), gen()} }
	s := &slot[T]{V: gen(), P: p(), A: [3]T{gen(), gen(), gen()}, AA: [2][2]T{{gen(), gen()}, {gen(), gen()}}, S: []T{gen(), gen()}, SP: []*T{p(), p()}, In: pts()}
	s.PP = &s.P
	s.M = map[string]T{"a": gen(), "": gen(), "a b": gen()}
	s.MI = map[int16]T{0: gen(), -1: gen(), 300: gen(), 1: gen()}
	s.MU = map[NUint8]T{0: gen(), 1: gen(), 200: gen()}
	q := pts()
	s.MB = map[bool]*pt[T]{true: &q}
	s.F = func(x T) T { return x }
	s.G = func(x, y T) T { return y }
	s.H = func() pt[T] { return s.In }
	s.N = func(n NInt16, k string) T {
		if n > 0 || k == "a" {
			return s.V
		}
		return s.A[1]
	}
	s.J = func(i int, a, b, c, d T) T { return [4]T{a, b, c, d}[i&3] }
	var tab [32]T
	for i := range tab {
		tab[i] = gen()
	}
	s.Q = func(l []T, p *T, b bool, m map[string]T, f func(T) T) T {
		n := 0
		for i, x := range []bool{l == nil, p == nil, b, m == nil, f == nil} {
			if x {
				n |= 1 << uint(i)
			}
		}
		return tab[n]
	}
	s.D = deep[T]{V: gen(), Arr: [2]pt[T]{pts(), pts()}}
	s.D.Next = &deep[T]{V: gen(), Arr: [2]pt[T]{pts(), pts()}}
	s.DP = &deep[T]{V: gen(), Next: &s.D}
	s.DPP = &s.DP
	s.F0 = func() {}
	s.F2 = func(x T) (T, T) { return x, x }
	return s
}

type tgen struct {
	r     *rng
	vars  map[string]interface{}
	slots map[string]interface{}
}

// kindOf is a type operands can have.
type kindOf struct {
	name   string
	t      reflect.Type
	class  byte // 'i', 'f', 's', 'b'
	signed bool
	named  bool
	leaf   func(g *tgen, depth int) nd
	rand   func(r *rng) interface{}
	bounds []interface{}
	lit    func(r *rng, v interface{}) *Ex // spelling of a value as a constant
	bin    func(op string, a, b interface{}) interface{}
	un     func(op string, a interface{}) interface{}
	shift  func(op string, a interface{}, n uint64) interface{}
}

var (
	kinds   []*kindOf
	intKs   []*kindOf
	boolK   *kindOf
	strK    *kindOf
	uint8K  *kindOf
	intK    *kindOf
	kindByT = map[reflect.Type]*kindOf{}
)

func addKind(k *kindOf) *kindOf {
	k.named = k.t.PkgPath() != ""
	k.name = k.t.Name()
	kinds = append(kinds, k)
	kindByT[k.t] = k
	if k.class == 'i' {
		intKs = append(intKs, k)
	}
	return k
}

func slotOf[T any](g *tgen, k *kindOf) (string, *slot[T]) {
	name := "v" + k.name
	if g.r.p(20) {
		name += "2"
	}
	if s, ok := g.slots[name]; ok {
		return name, s.(*slot[T])
	}
	s := newSlot(g.r, func() T { return k.rand(g.r).(T) })
	g.slots[name] = s
	if g.r.p(60) {
		g.vars[name] = s
	} else {
		c := *s // by value; the content is shared or equal
		g.vars[name] = c
		s = &c
		g.slots[name] = s
	}
	return name, s
}

// at indexes with an index of any integer type, now and then out of range.
func (g *tgen) at(n, depth int) (nd, func(fn func(i int) interface{}) interface{}) {
	r := g.r
	i := r.n(n)
	if r.p(4) {
		i = pick(r, n, -1, 1000)
	}
	var x nd
	switch {
	case depth > 0 && r.p(25): // a computed index
		k := pick(r, intKs...)
		a := g.typed(k, depth-1)
		m := litInt(int64(n))
		x = nd{bin("%", a.e, m), func() interface{} { return k.bin("%", a.f(), convTo(k.t, int64(n))) }}
	case r.p(40):
		x = nd{litInt(int64(i)), func() interface{} { return i }}
	default:
		k := pick(r, intKs...)
		v := convTo(k.t, int64(i))
		name := fmt.Sprintf("i%d", len(g.vars))
		g.vars[name] = v
		x = nd{id(name), func() interface{} { return v }}
	}
	return x, func(fn func(i int) interface{}) interface{} {
		v := reflect.ValueOf(x.f())
		if isIntKind(v.Kind()) {
			return fn(int(v.Int()))
		}
		if v.Uint() > math.MaxInt32 {
			panic("index")
		}
		return fn(int(v.Uint()))
	}
}

func convTo(t reflect.Type, n int64) interface{} {
	return reflect.ValueOf(n).Convert(t).Interface()
}

func leafOf[T any](k **kindOf) func(g *tgen, depth int) nd {
	return func(g *tgen, depth int) nd {
		r := g.r
		if r.p(25) {
			name := fmt.Sprintf("x%d", len(g.vars))
			v := (*k).rand(r)
			g.vars[name] = v
			return nd{id(name), func() interface{} { return v }}
		}
		name, s := slotOf[T](g, *k)
		v := id(name)
		get := func(e *Ex, f func() T) nd { return nd{e, func() interface{} { return f() }} }
		switch r.n(26) {
		case 0, 1:
			return get(dot(v, "V"), func() T { return s.V })
		case 2:
			return get(un("*", dot(v, "P")), func() T { return *s.P })
		case 3:
			return get(un("*", un("*", dot(v, "PP"))), func() T { return **s.PP })
		case 4:
			x, at := g.at(3, depth)
			return nd{idx(dot(v, "A"), x.e), func() interface{} { return at(func(i int) interface{} { return s.A[i] }) }}
		case 5:
			x, at := g.at(2, depth)
			y, at2 := g.at(2, depth)
			return nd{idx(idx(dot(v, "AA"), x.e), y.e), func() interface{} {
				return at(func(i int) interface{} {
					_ = s.AA[i]
					return at2(func(j int) interface{} { return s.AA[i][j] })
				})
			}}
		case 6:
			x, at := g.at(2, depth)
			return nd{idx(dot(v, "S"), x.e), func() interface{} { return at(func(i int) interface{} { return s.S[i] }) }}
		case 7:
			x, at := g.at(2, depth)
			return nd{un("*", idx(dot(v, "SP"), x.e)), func() interface{} { return at(func(i int) interface{} { return *s.SP[i] }) }}
		case 8:
			key := pick(r, "a", "", "a b", "missing")
			if depth > 0 && r.p(30) {
				n := g.typed(strK, depth-1)
				return nd{idx(dot(v, "M"), n.e), func() interface{} { return s.M[n.f().(string)] }}
			}
			return get(idx(dot(v, "M"), litStr(key)), func() T { return s.M[key] })
		case 9:
			i := pick(r, int16(0), -1, 300, 1, 5, -32768)
			if i < 0 || r.p(50) {
				name := fmt.Sprintf("k%d", len(g.vars))
				g.vars[name] = i
				return get(idx(dot(v, "MI"), id(name)), func() T { return s.MI[i] })
			}
			return get(idx(dot(v, "MI"), litInt(int64(i))), func() T { return s.MI[i] })
		case 10:
			i := pick(r, NUint8(0), 1, 200, 201)
			if r.p(50) {
				name := fmt.Sprintf("k%d", len(g.vars))
				g.vars[name] = i
				return get(idx(dot(v, "MU"), id(name)), func() T { return s.MU[i] })
			}
			return get(idx(dot(v, "MU"), litInt(int64(i))), func() T { return s.MU[i] })
		case 11:
			if depth <= 0 || r.p(40) {
				b := r.p(80)
				return get(dot(idx(dot(v, "MB"), litBool(b)), "Y"), func() T { return s.MB[b].Y })
			}
			n := g.typed(boolK, depth-1)
			return get(dot(idx(dot(v, "MB"), n.e), "X"), func() T { return s.MB[n.f().(bool)].X })
		case 12:
			n := g.operand(*k, depth-1)
			return get(call(dot(v, "F"), n.e), func() T { return s.F(n.f().(T)) })
		case 13:
			a, b := g.operand(*k, depth-1), g.operand(*k, depth-1)
			return get(call(dot(v, "G"), a.e, b.e), func() T { x := a.f().(T); return s.G(x, b.f().(T)) })
		case 14:
			return get(dot(call(dot(v, "H")), "Y"), func() T { return s.H().Y })
		case 15:
			a, b := g.operand(kindByT[reflect.TypeOf(NInt16(0))], depth-1), g.operand(strK, depth-1)
			return get(call(dot(v, "N"), a.e, b.e), func() T { x := a.f().(NInt16); return s.N(x, b.f().(string)) })
		case 16:
			return get(dot(dot(v, "In"), "Y"), func() T { return s.In.Y })
		case 17:
			return get(dot(dot(dot(v, "DP"), "Next"), "V"), func() T { return s.DP.Next.V })
		case 18:
			return get(dot(dot(dot(dot(v, "DP"), "Next"), "Next"), "V"), func() T { return s.DP.Next.Next.V })
		case 19:
			x, at := g.at(2, depth)
			return nd{dot(idx(dot(dot(v, "D"), "Arr"), x.e), "X"), func() interface{} { return at(func(i int) interface{} { return s.D.Arr[i].X }) }}
		case 20:
			if r.p(30) { // however many pointers there are
				return get(dot(dot(v, "DPP"), "V"), func() T { return (*s.DPP).V })
			}
			return get(dot(un("*", dot(v, "DP")), "V"), func() T { return (*s.DP).V })
		case 21: // rarely something that fails
			if !r.p(25) {
				return get(dot(v, "V"), func() T { return s.V })
			}
			switch r.n(6) {
			case 4: // no value at all
				return get(call(dot(v, "F0")), func() T { panic("no value") })
			case 5: // more than one value
				n := g.operand(*k, depth-1)
				return get(call(dot(v, "F2"), n.e), func() T { panic("two values") })
			case 0:
				return get(un("*", dot(v, "Nil")), func() T { return *s.Nil })
			case 1:
				return get(idx(dot(v, "NilS"), litInt(0)), func() T { return s.NilS[0] })
			case 2:
				return get(dot(dot(v, "NilD"), "V"), func() T { return s.NilD.V })
			default:
				return get(dot(dot(dot(dot(v, "D"), "Next"), "Next"), "V"), func() T { return s.D.Next.Next.V })
			}
		case 24:
			n := g.operand(intK, depth-1)
			var args []nd
			es := []*Ex{n.e}
			for i := 0; i < 4; i++ {
				a := g.operand(*k, min(depth-1, 1))
				args, es = append(args, a), append(es, a.e)
			}
			return get(call(dot(v, "J"), es...), func() T {
				i := n.f().(int)
				var t [4]T
				for i, a := range args {
					t[i] = a.f().(T)
				}
				return s.J(i, t[0], t[1], t[2], t[3])
			})
		case 25:
			b := g.operand(boolK, depth-1)
			var l []T
			var p *T
			var m map[string]T
			var f func(T) T
			le, pe, me, fe := id("nil"), id("nil"), id("nil"), id("nil")
			switch r.n(4) {
			case 0:
				l, le = s.S, dot(v, "S")
			case 1:
				le = dot(v, "NilS")
			}
			switch r.n(4) {
			case 0:
				p, pe = s.P, dot(v, "P")
			case 1:
				pe = dot(v, "Nil")
			}
			switch r.n(4) {
			case 0:
				m, me = s.M, dot(v, "M")
			case 1:
				me = dot(v, "NilM")
			}
			switch r.n(4) {
			case 0:
				f, fe = s.F, dot(v, "F")
			case 1:
				fe = dot(v, "NilF")
			}
			return get(call(dot(v, "Q"), le, pe, b.e, me, fe), func() T { return s.Q(l, p, b.f().(bool), m, f) })
		case 22:
			return get(idx(dot(v, "NilM"), litStr("a")), func() T { return s.NilM["a"] })
		default:
			if depth <= 0 {
				return get(dot(v, "V"), func() T { return s.V })
			}
			c, a, b := g.typed(boolK, depth-1), g.typed(*k, depth-1), g.typed(*k, depth-1)
			if r.p(50) {
				return choice(g, v, s, c)
			}
			return nd{cond(c.e, a.e, b.e), func() interface{} {
				if c.f().(bool) {
					return a.f()
				}
				return b.f()
			}}
		}
	}
}

// either evaluates one of two operands, whatever the other one would do.
func either[U any](c nd, a *Ex, fa func() U, b *Ex, fb func() U, e func(x *Ex) *Ex, f func(u U) interface{}) nd {
	return nd{e(cond(c.e, a, b)), func() interface{} {
		if c.f().(bool) {
			return f(fa())
		}
		return f(fb())
	}}
}

// choice chooses between pointers, structs, slices, maps or functions, of which
// one may fail to evaluate.
func choice[T any](g *tgen, v *Ex, s *slot[T], c nd) nd {
	r := g.r
	d := func(names ...string) *Ex {
		x := v
		for _, n := range names {
			x = dot(x, n)
		}
		return x
	}
	far := litInt(int64(r.in(3, 300)))
	i := r.n(2)
	at := litInt(int64(i))
	swap := r.p(50)
	switch r.n(8) {
	case 0:
		a, fa := d("DP"), func() *deep[T] { return s.DP }
		b, fb := d("DP", "Next", "Next", "Next"), func() *deep[T] { return s.DP.Next.Next.Next }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return dot(x, "V") }, func(u *deep[T]) interface{} { return u.V })
	case 1:
		a, fa := d("P"), func() *T { return s.P }
		b, fb := idx(d("SP"), far), func() *T { panic("index") }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return un("*", x) }, func(u *T) interface{} { return *u })
	case 2:
		a, fa := d("In"), func() pt[T] { return s.In }
		b, fb := idx(d("D", "Arr"), far), func() pt[T] { panic("index") }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return dot(x, "Y") }, func(u pt[T]) interface{} { return u.Y })
	case 3:
		a, fa := d("In"), func() pt[T] { return s.In }
		b, fb := call(d("H")), func() pt[T] { return s.H() }
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return dot(x, "X") }, func(u pt[T]) interface{} { return u.X })
	case 4:
		a, fa := d("S"), func() []T { return s.S }
		b, fb := d("NilS"), func() []T { return s.NilS }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return idx(x, at) }, func(u []T) interface{} { return u[i] })
	case 5:
		a, fa := d("M"), func() map[string]T { return s.M }
		b, fb := d("NilM"), func() map[string]T { return s.NilM }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return idx(x, litStr("a")) }, func(u map[string]T) interface{} { return u["a"] })
	case 6:
		a, fa := idx(d("AA"), at), func() [2]T { return s.AA[i] }
		b, fb := idx(d("AA"), far), func() [2]T { panic("index") }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return idx(x, litInt(1)) }, func(u [2]T) interface{} { return u[1] })
	default:
		a, fa := un("*", d("DP")), func() deep[T] { return *s.DP }
		b, fb := un("*", d("NilD")), func() deep[T] { return *s.NilD }
		if swap {
			a, b, fa, fb = b, a, fb, fa
		}
		return either(c, a, fa, b, fb, func(x *Ex) *Ex { return dot(x, "V") }, func(u deep[T]) interface{} { return u.V })
	}
}

func addInt[T integer](signed bool) *kindOf {
	var k *kindOf
	var min, max T
	if signed {
		bits := reflect.TypeOf(min).Bits()
		min = T(1) << uint(bits-1)
		max = ^min
	} else {
		max = ^T(0)
	}
	k = addKind(&kindOf{t: reflect.TypeOf(min), class: 'i', signed: signed})
	k.leaf = leafOf[T](&k)
	bounds := []T{0, 1, 2, 3, 7, max, max - 1, max/2 + 1, max / 3, 0x55 & max, 100}
	if signed {
		bounds = append(bounds, min, min+1, ^T(0), ^T(0)-1, ^T(6), min/2)
	} else {
		bounds = append(bounds, max-6, max>>1)
	}
	for _, b := range bounds {
		k.bounds = append(k.bounds, b)
	}
	k.rand = func(r *rng) interface{} {
		switch r.n(4) {
		case 0:
			return bounds[r.n(len(bounds))]
		case 1:
			return T(r.n(10))
		case 2:
			return T(r.u64())
		default:
			return T(r.u64()) >> uint(r.n(reflect.TypeOf(min).Bits()))
		}
	}
	k.lit = func(r *rng, v interface{}) *Ex { return intLit(r, bigOf(reflect.ValueOf(v))) }
	k.bin = func(op string, a, b interface{}) interface{} {
		x, err := num(op, a.(T), b.(T))
		if err != nil {
			panic(err)
		}
		return x
	}
	k.un = func(op string, a interface{}) interface{} {
		x := a.(T)
		switch op {
		case "-":
			return -x
		case "^":
			return ^x
		case "+":
			return x
		}
		panic(op)
	}
	k.shift = func(op string, a interface{}, n uint64) interface{} {
		if op == "<<" {
			return a.(T) << n
		}
		return a.(T) >> n
	}
	return k
}

func intLit(r *rng, n *big.Int) *Ex {
	if n.Sign() < 0 {
		m := new(big.Int).Neg(n)
		if r.p(20) { // as a complement
			return un("^", litText(r, new(big.Int).Sub(m, big.NewInt(1))))
		}
		return un("-", litText(r, m))
	}
	return litText(r, n)
}

func litText(r *rng, n *big.Int) *Ex {
	text := n.String()
	switch r.n(8) {
	case 0:
		text = fmt.Sprintf("%#x", n)
	case 1:
		text = fmt.Sprintf("%#X", n)
	case 2:
		if n.Sign() > 0 {
			text = fmt.Sprintf("0%o", n)
		}
	case 3:
		if n.IsInt64() && n.Int64() >= 'A' && n.Int64() <= 'z' && n.Int64() != '\\' {
			text = "'" + string(rune(n.Int64())) + "'"
		}
	}
	return litBig(n, text)
}

func addFloat[T float]() *kindOf {
	var k *kindOf
	var zero T
	k = addKind(&kindOf{t: reflect.TypeOf(zero), class: 'f', signed: true})
	k.leaf = leafOf[T](&k)
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 1.5, 0.1, 3, 1e10, -2.25, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 1 << 53, 16777217, 1 << 63, -(1 << 63), 1<<63 + 1<<41, 1<<64 - 1<<40, 1<<62 + 1<<39, 1<<56 + 1<<34, -(1<<60 + 1<<37)} {
		k.bounds = append(k.bounds, T(f))
	}
	k.rand = func(r *rng) interface{} {
		switch r.n(5) {
		case 0:
			return pick(r, k.bounds...)
		case 1:
			return T(r.n(100)) / 4
		case 3:
			return T(r.u64() | 1<<uint(50+r.n(14)))
		case 2:
			return T(math.Float64frombits(r.u64()))
		default:
			return T(int64(r.u64())) / T(1+r.n(1000))
		}
	}
	k.lit = func(r *rng, v interface{}) *Ex {
		f := reflect.ValueOf(v).Float()
		if f != f || math.IsInf(f, 0) || f == 0 && math.Signbit(f) {
			return nil
		}
		a := math.Abs(f)
		text := strconv.FormatFloat(a, pick(r, byte('e'), 'g'), -1, 64)
		if a < 1e15 && a > 1e-10 && r.p(50) {
			text = strconv.FormatFloat(a, 'f', -1, 64)
		}
		if !strings.ContainsAny(text, ".e") && (a >= 1<<62 || r.p(60)) {
			text += ".0"
		}
		var e *Ex
		if a >= 1<<53 && (a < 1<<63 || a < 1<<64 && f > 0) && r.p(60) {
			// An integer constant that rounds to the value.
			n, _ := big.NewFloat(a).Int(nil)
			below := math.Nextafter(a, 0)
			if k.t.Kind() == reflect.Float32 {
				below = float64(math.Nextafter32(float32(a), 0))
			}
			half := int64(a-below) / 2
			if half > 1 && r.p(70) {
				d := half - 1 - int64(r.u64()>>uint(1+r.n(63)))%half
				if r.p(50) {
					d = -d
				}
				if m := new(big.Int).Add(n, big.NewInt(d)); m.IsUint64() && (f > 0 || m.IsInt64()) {
					n = m
				}
			}
			e = litText(r, n)
		} else if strings.ContainsAny(text, ".e") {
			e = litFloat(a, text)
		} else {
			n, _ := new(big.Int).SetString(text, 10)
			e = litBig(n, text)
		}
		if f < 0 {
			e = un("-", e)
		}
		return e
	}
	k.bin = func(op string, a, b interface{}) interface{} {
		x, err := flt(op, a.(T), b.(T))
		if err != nil {
			panic(err)
		}
		return x
	}
	k.un = func(op string, a interface{}) interface{} {
		if op == "-" {
			return -a.(T)
		}
		return a
	}
	return k
}

func addString[T ~string]() *kindOf {
	var k *kindOf
	k = addKind(&kindOf{t: reflect.TypeOf(T("")), class: 's'})
	k.leaf = leafOf[T](&k)
	for _, s := range []string{"", "a", "ab", "abc", "a\x00", "\xff\xfe", "héllo", "a b", "\"q\""} {
		k.bounds = append(k.bounds, T(s))
	}
	k.rand = func(r *rng) interface{} {
		if r.p(70) {
			return pick(r, k.bounds...)
		}
		return T(r.bytes(r.n(6)))
	}
	k.lit = func(r *rng, v interface{}) *Ex { return litStr(reflect.ValueOf(v).String()) }
	k.bin = func(op string, a, b interface{}) interface{} {
		x, y := a.(T), b.(T)
		switch op {
		case "+":
			return x + y
		case "==":
			return x == y
		case "!=":
			return x != y
		}
		panic(op)
	}
	return k
}

func addBool[T ~bool]() *kindOf {
	var k *kindOf
	k = addKind(&kindOf{t: reflect.TypeOf(T(false)), class: 'b'})
	k.leaf = leafOf[T](&k)
	k.bounds = []interface{}{T(true), T(false)}
	k.rand = func(r *rng) interface{} { return T(r.p(50)) }
	k.lit = func(r *rng, v interface{}) *Ex { return litBool(reflect.ValueOf(v).Bool()) }
	k.bin = func(op string, a, b interface{}) interface{} {
		x, y := a.(T), b.(T)
		switch op {
		case "==":
			return x == y
		case "!=":
			return x != y
		case "&&":
			return x && y
		case "||":
			return x || y
		}
		panic(op)
	}
	k.un = func(op string, a interface{}) interface{} {
		if op == "!" {
			return !a.(T)
		}
		return a
	}
	return k
}

type (
	NUintp uintptr
	NF32   float32
	NInt32 int32
)

func init() {
	intK = addInt[int](true)
	addInt[int8](true)
	addInt[int16](true)
	addInt[int32](true)
	addInt[int64](true)
	addInt[uint](false)
	uint8K = addInt[uint8](false)
	addInt[uint16](false)
	addInt[uint32](false)
	addInt[uint64](false)
	addInt[uintptr](false)
	addInt[NInt](true)
	addInt[NInt8](true)
	addInt[NInt16](true)
	addInt[NInt32](true)
	addInt[NInt64](true)
	addInt[NUint](false)
	addInt[NUint8](false)
	addInt[NUint16](false)
	addInt[NUint32](false)
	addInt[NUint64](false)
	addInt[NUintp](false)
	addFloat[float32]()
	addFloat[float64]()
	addFloat[NF32]()
	addFloat[NFloat]()
	strK = addString[string]()
	addString[NString]()
	boolK = addBool[bool]()
	addBool[NBool]()
}

// operand is a typed expression or, sometimes, a constant.
func (g *tgen) operand(k *kindOf, depth int) nd {
	if g.r.p(25) {
		v := k.rand(g.r)
		if e := k.lit(g.r, v); e != nil {
			return nd{e, func() interface{} { return v }}
		}
	}
	return g.typed(k, depth)
}

// pair is two operands of which one at least is typed.
func (g *tgen) pair(k *kindOf, depth int) (a, b nd) {
	switch g.r.n(3) {
	case 0:
		return g.typed(k, depth), g.operand(k, depth)
	case 1:
		return g.operand(k, depth), g.typed(k, depth)
	}
	return g.typed(k, depth), g.typed(k, depth)
}

var (
	intOps   = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^"}
	floatOps = []string{"+", "-", "*", "/"}
	cmpOps   = []string{"==", "!=", "<", "<=", ">", ">="}
)

// typed is an expression of type k that does not consist of constants only,
// unless it is of type int.
func (g *tgen) typed(k *kindOf, depth int) nd {
	r := g.r
	if depth <= 0 || r.p(20) {
		return k.leaf(g, depth)
	}
	if k == uint8K && r.p(12) {
		s := g.typed(pick(r, strK, kindByT[reflect.TypeOf(NString(""))]), depth-1)
		x, at := g.at(2, depth)
		if s.e.Op == "lit" {
			return k.leaf(g, depth)
		}
		return nd{idx(s.e, x.e), func() interface{} {
			v := reflect.ValueOf(s.f()).String()
			return at(func(i int) interface{} { return v[i] })
		}}
	}
	if k == intK && r.p(10) { // two constants
		op := pick(r, intOps...)
		a, b := int(int32(r.u64())), 1+r.n(1000)
		if r.p(30) {
			a = r.n(50)
		}
		return nd{bin(op, intLit(r, big.NewInt(int64(a))), intLit(r, big.NewInt(int64(b)))), func() interface{} { return k.bin(op, a, b) }}
	}
	binary := func(op string, a, b nd) nd {
		return nd{bin(op, a.e, b.e), func() interface{} { x := a.f(); return k.bin(op, x, b.f()) }}
	}
	unary := func(op string) nd {
		a := g.typed(k, depth-1)
		return nd{un(op, a.e), func() interface{} { return k.un(op, a.f()) }}
	}
	switch k.class {
	case 'i':
		switch {
		case r.p(12):
			return unary(pick(r, "-", "^", "+"))
		case r.p(20):
			a := g.typed(k, depth-1)
			op := pick(r, "<<", ">>")
			var n nd
			if r.p(40) {
				s := pick(r, 0, 1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 200)
				n = nd{litInt(int64(s)), func() interface{} { return s }}
			} else {
				kn := pick(r, intKs...)
				n = g.typed(kn, depth-1)
				if r.p(80) { // keep it small and positive
					inner, m := n, convTo(kn.t, int64(pick(r, 7, 15, 63, 127)))
					n = nd{bin("&", inner.e, kn.lit(r, m)), func() interface{} { return kn.bin("&", inner.f(), m) }}
				}
			}
			return nd{bin(op, a.e, n.e), func() interface{} {
				x := a.f()
				v := reflect.ValueOf(n.f())
				if isIntKind(v.Kind()) {
					if v.Int() < 0 {
						panic("negative shift count")
					}
					return k.shift(op, x, uint64(v.Int()))
				}
				return k.shift(op, x, v.Uint())
			}}
		}
		a, b := g.pair(k, depth-1)
		return binary(pick(r, intOps...), a, b)
	case 'f':
		if r.p(15) {
			return unary(pick(r, "-", "+"))
		}
		a, b := g.pair(k, depth-1)
		return binary(pick(r, floatOps...), a, b)
	case 's':
		a, b := g.pair(k, depth-1)
		return binary("+", a, b)
	}
	// Booleans.
	switch {
	case r.p(12):
		return unary(pick(r, "!", "!", "+"))
	case r.p(25):
		a, b := g.operand(k, depth-1), g.typed(k, depth-1)
		op := pick(r, "&&", "||")
		return nd{bin(op, a.e, b.e), func() interface{} {
			x := a.f()
			if k.bin("==", x, k.bounds[0]).(bool) == (op == "||") {
				return x
			}
			return k.bin(op, x, b.f())
		}}
	case k.named:
		// Comparisons are of type bool.
		return k.leaf(g, depth)
	case r.p(12):
		return g.same(depth)
	}
	of := pick(r, kinds...)
	a, b := g.pair(of, depth-1)
	op := pick(r, cmpOps...)
	if of.class == 's' || of.class == 'b' {
		op = pick(r, "==", "!=")
	}
	return nd{bin(op, a.e, b.e), func() interface{} { x := a.f(); return of.bin(op, x, b.f()) }}
}

// same compares composite values, pointers and nil.
func (g *tgen) same(depth int) nd {
	r := g.r
	name, s := slotOf[int16](g, kindByT[reflect.TypeOf(int16(0))])
	name2, s2 := slotOf[int16](g, kindByT[reflect.TypeOf(int16(0))])
	if r.p(30) {
		s2.In, s2.A, s2.D.Arr = s.In, s.A, s.D.Arr
		if v, ok := g.vars[name2].(slot[int16]); ok {
			v.In, v.A, v.D.Arr = s.In, s.A, s.D.Arr
			g.vars[name2] = v
		}
	}
	a, b := id(name), id(name2)
	not := r.p(50)
	mk := func(x, y *Ex, f func() bool) nd {
		op := "=="
		if not {
			op = "!="
		}
		if r.p(50) {
			x, y = y, x
		}
		return nd{bin(op, x, y), func() interface{} { return f() != not }}
	}
	switch r.n(14) {
	case 0:
		return mk(dot(a, "In"), dot(b, "In"), func() bool { return s.In == s2.In })
	case 1:
		return mk(dot(a, "A"), dot(b, "A"), func() bool { return s.A == s2.A })
	case 2:
		return mk(dot(a, "P"), dot(b, "P"), func() bool { return s.P == s2.P })
	case 3:
		return mk(dot(a, "P"), dot(b, "Nil"), func() bool { return false })
	case 4:
		return mk(dot(a, "P"), litNil(), func() bool { return false })
	case 5:
		return mk(dot(a, "Nil"), litNil(), func() bool { return true })
	case 6:
		return mk(dot(a, "NilS"), litNil(), func() bool { return true })
	case 7:
		return mk(dot(a, "S"), litNil(), func() bool { return false })
	case 8:
		return mk(dot(a, "NilM"), litNil(), func() bool { return true })
	case 9:
		return mk(dot(a, "M"), litNil(), func() bool { return false })
	case 10:
		return mk(dot(a, "F"), litNil(), func() bool { return false })
	case 11:
		return mk(dot(a, "NilF"), litNil(), func() bool { return true })
	case 12:
		return mk(dot(dot(a, "D"), "Arr"), dot(dot(b, "D"), "Arr"), func() bool { return s.D.Arr == s2.D.Arr })
	default:
		return mk(idx(dot(a, "MB"), litBool(true)), litNil(), func() bool { return false })
	}
}

// funcResolver counts what it is asked.
type funcResolver func(name string) expr.Value

func (f funcResolver) Resolve(name string) expr.Value { return f(name) }

// resolver makes a resolver of a random kind for a set of variables.
func (g *tgen) resolver() expr.Resolver { return resolverFor(g.r, g.vars) }

func resolverFor(r *rng, vars map[string]interface{}) expr.Resolver {
	m := map[string]expr.Value{}
	for k, v := range vars {
		m[k] = expr.ValueOf(v)
	}
	switch r.n(3) {
	case 0:
		return expr.NewMapResolver(m)
	case 1:
		return funcResolver(func(name string) expr.Value {
			if v, ok := vars[name]; ok {
				return expr.ValueOf(v)
			}
			return nil
		})
	}
	a, b := map[string]expr.Value{}, map[string]expr.Value{}
	for k, v := range m {
		if r.p(50) {
			a[k] = v
		} else {
			b[k] = v
		}
	}
	mr := expr.NewMetaResolver()
	mr.AddResolver(expr.NewMapResolver(a))
	mr.AddResolver(expr.NewMapResolver(b))
	return mr
}

// evalText evaluates with the real package. Panics that escape are returned
// in pan.
func evalText(res expr.Resolver, text string) (v interface{}, err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprintf("panic: %v", e)
		}
	}()
	v, err = expr.Eval(res, text)
	return
}

func evalProg(res expr.Resolver, p *expr.Program) (v interface{}, err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprintf("panic: %v", e)
		}
	}()
	v, err = expr.EvalProgram(res, p)
	return
}

func parseText(text string) (p *expr.Program, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprintf("panic: %v", e)
		}
	}()
	return expr.ParseString(text), ""
}

// wantOf runs a closure; ok is false if Go panics.
func wantOf(f func() interface{}) (v interface{}, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f(), true
}

// sameResult compares a result with what Go computes: same kind, same value,
// same type unless the operands were of a named type.
func sameResult(got, want interface{}) bool {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if !g.IsValid() || g.Kind() != w.Kind() {
		return false
	}
	if g.Type() != w.Type() {
		b := basicTypes[w.Kind()]
		if w.Type() == b || g.Type() != b {
			return false
		}
		w = w.Convert(b)
	}
	switch {
	case isFloatKind(g.Kind()):
		x, y := g.Float(), w.Float()
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	}
	if !g.Type().Comparable() {
		return reflect.DeepEqual(got, want) || g.Kind() == reflect.Func
	}
	return g.Interface() == w.Interface()
}

func (c *Ctx) judgeEval(src string, f func() interface{}, v interface{}, err error, pan, how string) {
	want, ok := wantOf(f)
	c.Eval(1)
	switch {
	case pan != "":
		c.Fail("%s: %s escapes: %s", how, pan, src)
	case !ok && err == nil:
		c.Fail("%s: %s gives %v (%T), but it fails in Go", how, src, v, v)
	case !ok:
		c.Count("failing_evaluations", 1)
	case err != nil:
		c.Fail("%s: %s fails: %v; Go gives %v (%T)", how, src, err, want, want)
	case !sameResult(v, want):
		c.Fail("%s: %s gives %#v (%T); Go gives %#v (%T)", how, src, v, v, want, want)
	}
}

type opCombo struct {
	k     *kindOf
	op    string
	count *kindOf // of a shift
}

var opCombos []opCombo

func init() {
	for _, k := range kinds {
		ops := append([]string{}, cmpOps...)
		switch k.class {
		case 'i':
			ops = append(ops, intOps...)
			ops = append(ops, "u-", "u^", "u+")
		case 'f':
			ops = append(ops, floatOps...)
			ops = append(ops, "u-", "u+")
		case 's':
			ops = []string{"==", "!=", "+"}
		case 'b':
			ops = []string{"==", "!=", "&&", "||", "u!", "u+"}
		}
		for _, op := range ops {
			opCombos = append(opCombos, opCombo{k, op, nil})
		}
		if k.class == 'i' {
			for _, n := range intKs {
				opCombos = append(opCombos, opCombo{k, "<<", n}, opCombo{k, ">>", n})
			}
		}
	}
}

// direct calls the method of an operator.
func direct(op string, a, b expr.Value) (v interface{}, err error, pan string) {
	defer func() {
		if e := recover(); e != nil { // operators report errors this way
			if x, ok := e.(error); ok {
				err = x
			} else {
				err = fmt.Errorf("%v", e)
			}
		}
	}()
	var r expr.Value
	switch op {
	case "+":
		r = a.Add(b)
	case "-":
		r = a.Sub(b)
	case "*":
		r = a.Mul(b)
	case "/":
		r = a.Div(b)
	case "%":
		r = a.Rem(b)
	case "&":
		r = a.And(b)
	case "|":
		r = a.Or(b)
	case "^":
		r = a.Xor(b)
	case "&^":
		r = a.AndNot(b)
	case "<<":
		r = a.Lsh(b)
	case ">>":
		r = a.Rsh(b)
	case "==":
		r = a.Equal(b)
	case "!=":
		r = a.NotEqual(b)
	case "<":
		r = a.Lesser(b)
	case "<=":
		r = a.LesserEqual(b)
	case ">":
		r = a.Greater(b)
	case ">=":
		r = a.GreaterEqual(b)
	case "&&":
		r = a.LogicalAnd(b)
	case "||":
		r = a.LogicalOr(b)
	case "u-":
		r = a.Negate()
	case "u^":
		r = a.BitNot()
	case "u!":
		r = a.Not()
	case "u+":
		r = a
	}
	if k := r.Type().Kind(); primKind[r.Value().Kind()] != k && k != expr.UntypedBool {
		return nil, nil, fmt.Sprintf("the result has type %s but holds a %s", r.Type(), r.Value().Type())
	}
	return r.RawValue(), nil, ""
}

var primKind = map[reflect.Kind]expr.Kind{
	reflect.Bool: expr.Bool, reflect.Int: expr.Int, reflect.Int8: expr.Int8, reflect.Int16: expr.Int16, reflect.Int32: expr.Int32, reflect.Int64: expr.Int64,
	reflect.Uint: expr.Uint, reflect.Uint8: expr.Uint8, reflect.Uint16: expr.Uint16, reflect.Uint32: expr.Uint32, reflect.Uint64: expr.Uint64, reflect.Uintptr: expr.Uintptr,
	reflect.Float32: expr.Float32, reflect.Float64: expr.Float64, reflect.String: expr.String,
	reflect.Slice: expr.Slice, reflect.Array: expr.Array, reflect.Map: expr.Map, reflect.Ptr: expr.Ptr, reflect.Func: expr.Func, reflect.Struct: expr.Struct,
}

func opSweep(c *Ctx, o opCombo) {
	r := c.R
	k := o.k
	name := k.name + " " + o.op
	if o.count != nil {
		name += " " + o.count.name
	}
	c.Distinct(hashStr(name))
	as := append([]interface{}{}, k.bounds...)
	for i := 0; i < 4; i++ {
		as = append(as, k.rand(r))
	}
	bs := append([]interface{}{}, as...)
	if o.count != nil {
		bs = nil
		for _, n := range []int64{0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127} {
			bs = append(bs, convTo(o.count.t, n))
		}
		bs = append(bs, o.count.bounds...)
	}
	if o.op[0] == 'u' {
		bs = bs[:1]
	}
	prog, _ := parseText("a " + o.op + " b")
	if o.op[0] == 'u' {
		prog, _ = parseText(o.op[1:] + "a")
	}
	for _, a := range as {
		for _, b := range bs {
			a, b := a, b
			f := func() interface{} {
				switch {
				case o.op[0] == 'u':
					return k.un(o.op[1:], a)
				case o.count != nil:
					v := reflect.ValueOf(b)
					if !isIntKind(v.Kind()) {
						return k.shift(o.op, a, v.Uint())
					}
					if v.Int() < 0 {
						panic("negative shift count")
					}
					return k.shift(o.op, a, uint64(v.Int()))
				}
				return k.bin(o.op, a, b)
			}
			src := fmt.Sprintf("%T(%v) %s %T(%v)", a, a, o.op, b, b)
			res := expr.NewMapResolver(map[string]expr.Value{"a": expr.ValueOf(a), "b": expr.ValueOf(b)})
			v, err, pan := evalProg(res, prog)
			c.judgeEval(src, f, v, err, pan, "EvalProgram")
			v, err, pan = direct(o.op, expr.ValueOf(a), expr.ValueOf(b))
			c.judgeEval(src, f, v, err, pan, "Value method")
			// One operand as a constant.
			if o.op[0] == 'u' {
				continue
			}
			kb := k
			if o.count != nil {
				kb = o.count
			}
			if e := kb.lit(r, b); e != nil && r.p(60) {
				if o.count == nil || reflect.ValueOf(b).Convert(reflect.TypeOf(int64(0))).Int() >= 0 {
					v, err, pan = evalText(res, "a "+o.op+" "+e.String())
					c.judgeEval(src+" (right operand constant: "+e.String()+")", f, v, err, pan, "Eval")
				}
			}
			if e := k.lit(r, a); e != nil && o.count == nil && r.p(60) {
				v, err, pan = evalText(res, "("+e.String()+") "+o.op+" b")
				c.judgeEval(src+" (left operand constant: "+e.String()+")", f, v, err, pan, "Eval")
			}
		}
	}
}

func opCase(c *Ctx) {
	r := c.R
	g := &tgen{r: r, vars: map[string]interface{}{}, slots: map[string]interface{}{}}
	k := pick(r, kinds...)
	n := g.typed(k, 1+r.n(5))
	src := n.e.Source(func() bool { return r.p(5) }, func() string { return pick(r, "", " ", "") })
	c.Distinct(hashStr(n.e.String()))
	c.Count("kind_"+k.name, 1)
	res := g.resolver()
	v, err, pan := evalText(res, src)
	c.judgeEval(src, n.f, v, err, pan, "Eval")
	if r.p(15) { // a reference, where there can be one, leads to the value
		text := "*&(" + src + ")"
		v, err, pan := evalText(res, text)
		want, ok := wantOf(n.f)
		c.Eval(1)
		if pan != "" || err == nil && (!ok || !sameResult(v, want)) {
			c.Fail("%s gives %#v (%T) %s; Go gives %#v (%T) %v", text, v, v, pan, want, want, ok)
		}
		if err == nil {
			c.Count("references", 1)
		}
	}
	prog, pan := parseText(src)
	if pan != "" {
		if err == nil {
			c.Fail("ParseString panics (%s) on what Eval accepts: %s", pan, src)
		}
		return
	}
	other := r.n(6)
	for i := 0; i < 2; i++ {
		if i == other { // the program with other values
			res := resolverFor(r, twist(r, g.vars))
			v, err, pan := evalText(res, src)
			v2, err2, pan2 := evalProg(res, prog)
			if a, b := outcome(v, err), outcome(v2, err2); a != b || pan != pan2 {
				c.Fail("%s gives %s %s by Eval and %s %s by EvalProgram of the same values", src, a, pan, b, pan2)
			}
			c.Count("programs_with_other_values", 1)
		}
		v, err, pan := evalProg(g.resolver(), prog)
		c.judgeEval(src, n.f, v, err, pan, "EvalProgram")
	}
	c.Sample("%s", src)
}

func init() {
	register(&Check{ID: "C18",
		Rule:  fmt.Sprintf("The first %d cases enumerate operator x operand type (all integer, float, string and boolean types and a named type of each) and shift x operand type x count type over all pairs of boundary values and some random ones, by text, by parsed program, by the methods of Value and with either operand as a constant; the rest are random nested expressions over variables, fields, elements, map entries, pointers and functions of those types, generated along with a closure that computes them with Go's operators. Value and type must be those of the compiled operation, and must fail where that panics. Non-trivial: distinct operator and type combinations or expressions.", len(opCombos)),
		Quick: len(opCombos) + 150000, Thorough: 4*len(opCombos) + 2000000,
		Case: func(c *Ctx) {
			k := len(opCombos)
			if c.Tier == "thorough" {
				k *= 4
			}
			if c.N < k {
				opSweep(c, opCombos[c.N%len(opCombos)])
				return
			}
			opCase(c)
		}})
}
