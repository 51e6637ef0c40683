package main

import (
	"fmt"
	"reflect"
	"strconv"
)

// prof says how often the generated definitions use each feature, in percent.
type prof struct {
	Fields, Depth                                    int
	Bits, Skip, Order, Pad, Ignore, Unexp, Ptr, Cust int
	If, SizeE, BitsE, InOut, Sw, Link, Wire, While   int
	Struct, Array, Count, Fixed, Stat                int
	Long                                             int // long byte slices
	Cplx                                             int
	Nil                                              int // nil pointers among the values
	Vary                                             int // structs whose size depends on one thing only
	Wide                                             int // structs and switches of many fields
	Int8Bits                                         bool
	NoFill                                           bool
}

var generalProf = prof{
	Fields: 6, Depth: 3, Bits: 25, Skip: 8, Order: 15, Pad: 6, Ignore: 5, Unexp: 5, Ptr: 8, Cust: 8,
	If: 10, SizeE: 8, BitsE: 5, InOut: 5, Sw: 6, Link: 4, Wire: 35, Struct: 14, Array: 10, Count: 14, Fixed: 8, Stat: 4, Long: 3, Cplx: 4, While: 6,
	Vary: 25, Wide: 1,
}

// narrow is a profile for structs that use one feature, often, and few others.
func (p prof) narrow(r *rng) prof {
	q := prof{Fields: r.in(2, 3), Depth: p.Depth, Wire: 35, Struct: 15, Array: 10, Long: p.Long, Nil: p.Nil, Int8Bits: p.Int8Bits, NoFill: p.NoFill}
	use := func(has int, x *int) {
		if has > 0 {
			*x = 60
		}
	}
	switch r.n(8) {
	case 0:
		use(p.If, &q.If)
	case 1:
		use(p.Sw, &q.Sw)
	case 2:
		use(p.Count, &q.Count)
	case 3:
		use(p.SizeE, &q.SizeE)
	case 4:
		use(p.BitsE, &q.BitsE)
	case 5:
		use(p.Ptr, &q.Ptr)
	case 6:
		use(p.Cust, &q.Cust)
	default:
		use(p.Stat, &q.Stat)
	}
	return q
}

// Types with a name of their own; conversions between them and the basic types
// are easy to get wrong.
type (
	NBool   bool
	NInt8   int8
	NInt16  int16
	NInt    int
	NInt64  int64
	NUint8  uint8
	NUint16 uint16
	NUint32 uint32
	NUint64 uint64
	NUint   uint
	NFloat  float64
	NString string
	NBytes  []byte
)

var (
	intTypes   = []reflect.Type{basicTypes[reflect.Int], basicTypes[reflect.Int8], basicTypes[reflect.Int16], basicTypes[reflect.Int32], basicTypes[reflect.Int64], reflect.TypeOf(NInt8(0)), reflect.TypeOf(NInt16(0)), reflect.TypeOf(NInt(0)), reflect.TypeOf(NInt64(0))}
	uintTypes  = []reflect.Type{basicTypes[reflect.Uint], basicTypes[reflect.Uint8], basicTypes[reflect.Uint16], basicTypes[reflect.Uint32], basicTypes[reflect.Uint64], basicTypes[reflect.Uint8], reflect.TypeOf(NUint8(0)), reflect.TypeOf(NUint16(0)), reflect.TypeOf(NUint32(0)), reflect.TypeOf(NUint64(0)), reflect.TypeOf(NUint(0))}
	floatTypes = []reflect.Type{basicTypes[reflect.Float32], basicTypes[reflect.Float64], reflect.TypeOf(NFloat(0))}
	cplxTypes  = []reflect.Type{basicTypes[reflect.Complex64], basicTypes[reflect.Complex128]}
	boolTypes  = []reflect.Type{basicTypes[reflect.Bool], reflect.TypeOf(NBool(false))}
	wireInts   = []string{"int", "int8", "int16", "int32", "int64", "rune"}
	wireUints  = []string{"uint", "uint8", "uint16", "uint32", "uint64", "byte"}
)

type variable struct {
	ex *Ex
	t  reflect.Type
	fd *Fd // set if the variable is a whole field
}

type gen struct {
	r     *rng
	p     prof
	names int
	cust  bool // a custom codec was used (alignment matters)
	wide  bool // there is a wide struct already
	chain int  // how many structs are to be nested in this one
	deep  bool // there is a deep struct already
}

func newGen(r *rng, p prof) *gen { return &gen{r: r, p: p} }

func (g *gen) name() string {
	g.names++
	return "F" + strconv.Itoa(g.names)
}

// shape describes the encoded size of something.
type shape struct {
	mod int // size in bits modulo 8, or -1
	min int // least size in bits
}

func (s shape) times(n int) shape {
	if s.mod < 0 {
		return shape{-1, s.min * n}
	}
	return shape{s.mod * n % 8, s.min * n}
}

func (s shape) any() shape { // any number of times
	if s.mod == 0 {
		return shape{0, 0}
	}
	return shape{-1, 0}
}

func plus(a, b int) int {
	if a < 0 || b < 0 {
		return -1
	}
	return (a + b) % 8
}

func or(a, b shape) shape {
	s := shape{a.mod, a.min}
	if a.mod != b.mod {
		s.mod = -1
	}
	if b.min < s.min {
		s.min = b.min
	}
	return s
}

// scalar picks a native type, its wire type ("" if the same) and the wire's type.
func (g *gen) scalar() (nt reflect.Type, tx string) {
	r := g.r
	k := r.weighted([]int{10, 30, 40, 8, g.p.Cplx})
	switch k {
	case 0:
		nt = pick(r, boolTypes...)
		if r.p(g.p.Wire) {
			tx = pick(r, append(append([]string{"bool"}, wireInts...), wireUints...)...)
		}
	case 1:
		nt = pick(r, intTypes...)
		if r.p(g.p.Wire) {
			tx = pick(r, wireInts...)
		}
	case 2:
		nt = pick(r, uintTypes...)
		if r.p(g.p.Wire) {
			tx = pick(r, wireUints...)
		}
	case 3:
		nt = pick(r, floatTypes...)
		if r.p(g.p.Wire) {
			tx = pick(r, "float32", "float64")
		}
	default:
		nt = pick(r, cplxTypes...)
		if r.p(g.p.Wire) {
			tx = pick(r, "complex64", "complex128")
		}
	}
	return
}

func scalarShape(wt reflect.Type) shape { return shape{0, wireBits(wt.Kind())} }

// kindName is the wire name of a basic kind.
func kindName(k reflect.Kind) string { return k.String() }

// typ generates a type for elements, fields and targets of pointers. start is
// the bit position modulo 8. tx is a wire type, or "" for the type itself.
func (g *gen) typ(depth, start int, noWire bool) (nt reflect.Type, tx string, sh shape) {
	r := g.r
	ws, wa, wp, wc, wst := g.p.Struct, g.p.Array, g.p.Ptr, g.p.Cust, g.p.Stat
	if depth <= 0 {
		ws, wa, wp = 0, 0, 0
	}
	if start != 0 || len(customList) == 0 {
		wc = 0
	}
	if start < 0 || len(staticList) == 0 || depth <= 0 {
		wst = 0
	}
	switch r.weighted([]int{60, ws, wa, wp, wc, wst}) {
	case 1:
		if r.p(g.p.Vary) {
			was := g.p
			g.p = was.narrow(r)
			st, sh := g.strct(depth-1, start)
			g.p = was
			return st.RT, "", sh
		}
		st, sh := g.strct(depth-1, start)
		return st.RT, "", sh
	case 2:
		n := r.in(1, 4)
		if r.p(5) {
			n = 0
		}
		et, etx, sh := g.elem(depth-1, start, noWire)
		if etx != "" {
			tx = fmt.Sprintf("[%d]%s", n, etx)
		}
		return reflect.ArrayOf(n, et), tx, sh.times(n)
	case 3:
		et, etx, sh := g.typ(depth-1, start, noWire)
		if et.Kind() == reflect.Ptr || customs[et] != nil && customs[et].Ptr {
			break
		}
		if etx != "" {
			tx = "*" + etx
		}
		if g.p.Nil > 0 {
			sh.min = 0
			if sh.mod != 0 {
				sh.mod = -1
			}
		}
		return reflect.PtrTo(et), tx, sh
	case 4:
		c := pick(r, customList...)
		g.cust = true
		return c.T, "", shape{0, 8 * c.Min}
	case 5:
		s := pick(r, staticList...)
		if s.Aligned && start != 0 {
			break
		}
		g.cust = g.cust || s.Aligned
		return s.T, "", shape{s.Mod, s.Min}
	}
	nt, tx = g.scalar()
	if noWire {
		tx = ""
	}
	wt := nt
	if tx != "" {
		wt = wireType(tx)
	}
	return nt, tx, scalarShape(wt)
}

// elem generates an element type whose alignment is the same for every element.
func (g *gen) elem(depth, start int, noWire bool) (nt reflect.Type, tx string, sh shape) {
	was := g.cust
	g.cust = false
	nt, tx, sh = g.typ(depth, start, noWire)
	if g.cust && sh.mod != 0 {
		g.cust = false
		nt, tx, sh = g.typ(depth, -1, noWire)
	}
	g.cust = g.cust || was
	return
}

// nonEmptyElem generates an element type of at least one bit.
func (g *gen) nonEmptyElem(depth, start int, noWire bool) (nt reflect.Type, tx string, sh shape) {
	for i := 0; i < 3; i++ {
		if nt, tx, sh = g.elem(depth, start, noWire); sh.min > 0 {
			return
		}
	}
	nt = pick(g.r, uintTypes...)
	return nt, "", scalarShape(nt)
}

type pending struct {
	counter *Fd
	left    int
	ifx     *Ex
	vars    []variable // known before the counter
	shared  bool
	viaOf   bool
	also    []*Fd
}

// strct generates a struct type.
func (g *gen) strct(depth, start int) (*St, shape) {
	r := g.r
	st := &St{}
	n := r.in(1, g.p.Fields)
	if r.p(3) {
		n = 0
	}
	soon := 35
	if g.p.Wide > 0 && !g.wide && r.p(g.p.Wide) {
		n = r.in(20, pick(r, 40, 80, 150, 300))
		depth, soon = 0, 2
		g.wide = true
		defer func(was prof) { g.p = was }(g.p)
		// Counters are to end up far apart, and few things should be too large.
		g.p.Link, g.p.Count = g.p.Link/2, (g.p.Count+2)/3
	}
	chain := g.chain
	g.chain = 0
	if g.p.Wide > 0 && !g.deep && r.p(g.p.Wide) {
		chain = r.in(8, pick(r, 16, 40, 70))
		g.deep = true
	}
	if chain > 0 {
		depth = 0
		if n > 2 {
			n = r.in(1, 2)
		}
	}
	var vars []variable
	var pend []*pending
	total := shape{0, 0}
	pos := start
	add := func(f *Fd, sh shape) {
		f.Idx = len(st.F)
		st.F = append(st.F, f)
		total.min += sh.min
		total.mod = plus(total.mod, sh.mod)
		pos = plus(pos, sh.mod)
	}
	for i := 0; i < n || len(pend) > 0; i++ {
		if len(pend) > 0 && (i >= n || r.p(soon)) {
			k := r.n(len(pend))
			p := pend[k]
			f, sh := g.countedField(p, depth, pos)
			add(f, sh)
			if p.left--; p.left == 0 {
				pend = append(pend[:k], pend[k+1:]...)
			}
			continue
		}
		switch {
		case r.p(g.p.Ignore):
			add(&Fd{Name: g.name(), NT: g.junkType(), Ignore: true, CountedBy: -1}, shape{})
			continue
		case r.p(g.p.Unexp):
			g.names++
			add(&Fd{Name: "u" + strconv.Itoa(g.names), NT: g.junkType(), Unexp: true, CountedBy: -1}, shape{})
			continue
		case r.p(g.p.Pad):
			f, sh := g.padField(vars)
			add(f, sh)
			continue
		case r.p(g.p.Link):
			f := &Fd{Name: g.name(), NT: reflect.TypeOf((*interface{})(nil)).Elem(), CountedBy: -1}
			f.WT = f.NT
			if r.p(50) {
				f.Root = true
			} else {
				f.Parent = true
			}
			add(f, shape{})
			continue
		case r.p(g.p.Count):
			var also []*Fd
			for r.p(8) {
				x, _, sh := g.counterField(nil, &pos)
				if x.BitsE != nil || x.In != nil || x.Out != nil {
					continue
				}
				add(x, sh)
				also = append(also, x)
			}
			f, p, sh := g.counterField(vars, &pos)
			add(f, sh)
			p.also = also
			p.counter = f
			pend = append(pend, p)
			if f.If == nil {
				vars = append(vars, variable{id(f.Name), f.NT, nil})
			}
			continue
		}
		f, sh := g.field(vars, depth, pos, false)
		add(f, sh)
		vars = append(vars, g.varsOf(f)...)
	}
	if chain > 0 {
		g.chain = chain - 1
		inner, sh := g.strct(0, pos)
		f := &Fd{Name: g.name(), NT: inner.RT, WT: inner.RT, CountedBy: -1}
		switch {
		case chain == 1 || r.p(80):
		case r.p(60):
			f.NT = reflect.PtrTo(f.NT)
			f.WT = f.NT
			if g.p.Nil > 0 {
				sh.min = 0
				if sh.mod != 0 {
					sh.mod = -1
				}
			}
		default:
			f.NT = reflect.ArrayOf(1, f.NT)
			f.WT = f.NT
		}
		add(f, sh)
	}
	if depth == g.p.Depth && chain == 0 && pos == 0 && r.p(g.p.While) {
		if et, tx, sh := g.nonEmptyElem(depth-1, 0, false); sh.mod == 0 {
			f := &Fd{Name: g.name(), NT: reflect.SliceOf(et), CountedBy: -1}
			f.WT = f.NT
			if tx != "" {
				f.TypeTx = "[]" + tx
				f.WT = wireType(f.TypeTx)
			}
			f.While = un("!", id("_eof"))
			if len(vars) > 0 && r.p(20) {
				f.While = bin("&&", g.boolExpr(vars, 0), f.While)
			}
			add(f, shape{0, 0})
		}
	}
	st.build(r)
	return st, total
}

var junkTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf([3]uint16{}),
	reflect.TypeOf((*int)(nil)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(false), reflect.TypeOf(func() {}), reflect.TypeOf((chan int)(nil)),
	reflect.TypeOf(struct{ A, B int }{}), reflect.TypeOf(1.5),
}

func (g *gen) junkType() reflect.Type { return pick(g.r, junkTypes...) }

func (g *gen) padField(vars []variable) (*Fd, shape) {
	r := g.r
	f := &Fd{Name: "_", Pad: true, CountedBy: -1}
	var sh shape
	switch r.n(5) {
	case 0:
		f.NT = pick(r, uintTypes[1:5]...)
		f.WT = f.NT
		f.TypeTx = kindName(f.NT.Kind())
		f.Bits = r.in(1, wireBits(f.NT.Kind())-1)
		sh = shape{f.Bits % 8, f.Bits}
	case 1:
		f.NT = reflect.ArrayOf(r.n(6), basicTypes[reflect.Uint8])
		f.WT = f.NT
		sh = shape{0, 8 * f.NT.Len()}
	case 2:
		f.NT, f.TypeTx = reflect.TypeOf([]byte(nil)), fmt.Sprintf("[%d]byte", r.n(5))
		f.WT = wireType(f.TypeTx)
		sh = shape{0, 8 * f.WT.Len()}
	case 3:
		f.NT = reflect.TypeOf(struct {
			A uint8
			B int16
			C [2]uint8
		}{})
		f.WT = f.NT
		sh = shape{0, 40}
	default:
		f.NT = pick(r, intTypes[:5]...)
		f.WT = f.NT
		sh = scalarShape(f.WT)
		if wireBits(f.WT.Kind()) > 8 && len(vars) > 0 && r.p(g.p.BitsE) {
			f.BitsE = g.smallExpr(vars, 1)
			sh = g.shapeOf(f)
		}
	}
	if r.p(g.p.Skip) {
		f.Skip = r.in(1, 3)
		sh.min += 8 * f.Skip
	}
	if len(vars) > 0 && r.p(g.p.If) {
		f.If = g.boolExpr(vars, 1)
		sh.min = 0
		if sh.mod != 0 {
			sh.mod = -1
		}
	}
	return f, sh
}

// counterField generates the counter of one or more slices to come.
func (g *gen) counterField(vars []variable, pos *int) (*Fd, *pending, shape) {
	r := g.r
	f := &Fd{Name: g.name(), CountedBy: -1}
	if r.p(50) {
		f.NT = pick(r, intTypes...)
		if r.p(g.p.Wire) {
			f.TypeTx = pick(r, wireInts...)
		}
	} else {
		f.NT = pick(r, uintTypes...)
		if r.p(g.p.Wire) {
			f.TypeTx = pick(r, wireUints...)
		}
	}
	g.finishScalar(f, vars)
	g.inOut(f, id(f.Name))
	sh := g.shapeOf(f)
	p := &pending{left: r.weighted([]int{0, 75, 20, 5}), viaOf: r.p(50)}
	p.vars, p.shared = vars[:len(vars):len(vars)], p.left > 1
	if r.p(g.p.If) && len(vars) > 0 {
		p.ifx = g.boolExpr(vars, 1)
		if !p.shared && r.p(40) {
			f.If = p.ifx // comes and goes with its slice
		}
	}
	g.common(f, &sh, nil)
	return f, p, sh
}

// finishScalar decides the wire type and width of a scalar field.
func (g *gen) finishScalar(f *Fd, vars []variable) {
	r := g.r
	f.WT = f.NT
	if f.TypeTx != "" {
		f.WT = wireType(f.TypeTx)
	}
	k := f.WT.Kind()
	if k == reflect.Float32 || isComplexKind(k) && (k == reflect.Complex64 || f.NT.Kind() == k) {
		// The width of the pattern, or of either part's.
		if r.p(g.p.Bits / 3) {
			f.Bits = r.in(1, partBits(k)-1)
			if f.TypeTx == "" {
				f.TypeTx = kindName(k)
				f.WT = wireType(f.TypeTx)
			}
		}
		return
	}
	if !isIntKind(k) && !isUintKind(k) || k == reflect.Int8 && !g.p.Int8Bits {
		return
	}
	if r.p(g.p.Bits) {
		f.Bits = r.in(1, wireBits(k)-1)
		if isIntKind(f.NT.Kind()) && f.Bits == 1 {
			f.Bits++
		}
		if r.p(10) {
			f.Bits = wireBits(k) - 1
		}
		if f.TypeTx == "" {
			f.TypeTx = kindName(k)
			f.WT = wireType(f.TypeTx)
		}
	} else if r.p(g.p.BitsE) && wireBits(k) > 8 {
		f.BitsE = g.smallExpr(vars, 1)
	}
}

func (g *gen) shapeOf(f *Fd) shape {
	switch {
	case f.BitsE != nil:
		return shape{-1, 1}
	case f.Bits > 0:
		n := f.Bits
		if isComplexKind(f.WT.Kind()) {
			n *= 2
		}
		return shape{n % 8, n}
	}
	return scalarShape(f.WT)
}

// common adds the options every field can have.
func (g *gen) common(f *Fd, sh *shape, vars []variable) {
	r := g.r
	if r.p(g.p.Order) {
		f.Order = pick(r, byte('l'), 'b')
	}
	if r.p(g.p.Skip) {
		f.Skip = r.in(1, 4)
		if g.p.Wide > 0 && r.p(3) {
			f.Skip = r.in(5, pick(r, 20, 300))
		}
		sh.min += 8 * f.Skip
	}
	if len(vars) > 0 && f.If == nil && r.p(g.p.If) {
		f.If = g.boolExpr(vars, 1)
		if f.Size != nil || f.BitsE != nil || f.Switch != nil || f.In != nil || f.Out != nil {
			g.traps(f, vars)
		}
	}
	if f.If != nil {
		sh.min = 0
		if sh.mod != 0 {
			sh.mod = -1
		}
	}
}

// traps makes expressions of a field that fail where the field is absent.
func (g *gen) traps(f *Fd, vars []variable) {
	r := g.r
	if !r.p(40) {
		return
	}
	v, ok := g.divisor(vars)
	if !ok {
		return
	}
	guard := bin("!=", v.ex, litInt(0))
	if r.p(50) {
		f.If = guard
	} else {
		f.If = bin("&&", guard, f.If)
	}
	for _, x := range []**Ex{&f.Size, &f.BitsE, &f.Switch, &f.In, &f.Out} {
		if *x != nil {
			*x = trap(v.ex, *x)
		}
	}
}

// divisor picks an integer variable, and has it be zero more often.
func (g *gen) divisor(vars []variable) (v variable, ok bool) {
	var ints []variable
	for _, v := range vars {
		if isIntKind(v.t.Kind()) || isUintKind(v.t.Kind()) {
			ints = append(ints, v)
		}
	}
	if len(ints) == 0 {
		return
	}
	v = pick(g.r, ints...)
	if v.fd != nil {
		v.fd.Hint = append(v.fd.Hint, 0, 0, 1)
	}
	return v, true
}

// trap makes an expression like x that fails if v is zero.
func trap(v, x *Ex) *Ex {
	return cond(bin("<", bin("/", litInt(1), v), litInt(100)), x, x)
}

func (g *gen) skipShift(pos int) int { return pos }

// countedField generates a slice or string with a counter.
func (g *gen) countedField(p *pending, depth, pos int) (*Fd, shape) {
	f, sh := g.list(depth, pos)
	f.CountedBy = p.counter.Idx
	if p.viaOf && p.left == 1 {
		p.counter.SizeofTag = f.Name
		for _, x := range p.also {
			x.SizeofTag = f.Name
			f.Also = append(f.Also, x.Idx)
		}
	} else {
		f.SizefromTag = p.counter.Name
	}
	f.If = p.ifx
	if p.shared && len(p.vars) > 0 && g.r.p(g.p.If) {
		f.If = g.boolExpr(p.vars, 1) // comes and goes on its own
	}
	g.common(f, &sh, nil)
	return f, sh
}

// list generates a slice or string of no particular length.
func (g *gen) list(depth, pos int) (*Fd, shape) {
	r := g.r
	f := &Fd{Name: g.name(), CountedBy: -1}
	switch r.n(5) {
	case 0:
		f.NT = pick(r, reflect.TypeOf(""), reflect.TypeOf(NString("")))
		f.TypeTx = pick(r, "", "", "[]byte", "string", "[]uint8")
		if r.p(15) {
			f.TypeTx = "[]" + pick(r, wireUints...) // characters of another width
		}
		f.WT = f.NT
		if f.TypeTx != "" {
			f.WT = wireType(f.TypeTx)
		}
		return f, shape{0, 0}
	case 1:
		f.NT = pick(r, reflect.TypeOf([]byte(nil)), reflect.TypeOf(NBytes(nil)), reflect.TypeOf([]NUint8(nil)))
		f.TypeTx = pick(r, "", "", "[]byte", "string")
		f.WT = f.NT
		if f.TypeTx != "" {
			f.WT = wireType(f.TypeTx)
		}
		return f, shape{0, 0}
	}
	et, tx, sh := g.nonEmptyElem(depth-1, pos, false)
	f.NT = reflect.SliceOf(et)
	f.WT = f.NT
	if tx != "" {
		f.TypeTx = "[]" + tx
		f.WT = wireType(f.TypeTx)
	}
	return f, sh.any()
}

// field generates one ordinary field.
func (g *gen) field(vars []variable, depth, pos int, inSwitch bool) (*Fd, shape) {
	r := g.r
	f := &Fd{CountedBy: -1}
	var sh shape
	wsz, wfx, wsw := g.p.SizeE, g.p.Fixed, g.p.Sw
	if inSwitch {
		wsw /= 4
	}
	if depth <= 0 {
		wsw = 0
	}
	switch r.weighted([]int{100 - wsz - wfx - wsw, wsz, wfx, wsw}) {
	case 1:
		f, sh = g.list(depth, pos)
		f.Size = g.smallExpr(vars, 0)
	case 2:
		f.Name = g.name()
		n := r.in(1, 6)
		if g.p.Wide > 0 && r.p(3) {
			n = r.in(7, pick(r, 40, 300, 700))
		}
		if r.p(40) {
			f.NT = pick(r, reflect.TypeOf(""), reflect.TypeOf(NString("")), reflect.TypeOf([]byte(nil)), reflect.TypeOf(NBytes(nil)))
			f.TypeTx = fmt.Sprintf("[%d]%s", n, pick(r, "byte", "uint8"))
			sh = shape{0, 8 * n}
			if r.p(20) {
				et := pick(r, wireUints...)
				f.TypeTx = fmt.Sprintf("[%d]%s", n, et)
				sh = scalarShape(wireType(et)).times(n)
			}
		} else {
			// Only scalars have wire names.
			nt, tx := g.scalar()
			if tx == "" {
				tx = kindName(nt.Kind())
			}
			if r.p(30) {
				f.NT = reflect.ArrayOf(n, nt)
				f.TypeTx = pick(r, "[]"+tx, fmt.Sprintf("[%d]%s", n, tx))
			} else {
				f.NT = reflect.SliceOf(nt)
				f.TypeTx = fmt.Sprintf("[%d]%s", n, tx)
			}
			sh = scalarShape(wireType(tx)).times(n)
		}
		f.WT = wireType(f.TypeTx)
	case 3:
		if len(vars) == 0 {
			break
		}
		f, sh = g.switchField(vars, depth, pos, inSwitch)
	}
	if f.Name == "" {
		f.Name = g.name()
		f.NT, f.TypeTx, sh = g.typ(depth, pos, false)
		f.WT = f.NT
		if f.TypeTx != "" {
			f.WT = wireType(f.TypeTx)
		}
		if k := f.WT.Kind(); isComplexKind(k) && customs[f.NT] == nil {
			g.finishScalar(f, vars)
			sh = g.shapeOf(f)
		} else if (k == reflect.Bool || isIntKind(k) || isUintKind(k) || isFloatKind(k)) && customs[f.NT] == nil {
			g.finishScalar(f, vars)
			sh = g.shapeOf(f)
			if f.NT.Kind() == reflect.Bool {
				f.VB = r.p(g.p.Wire / 2)
				f.IB = r.p(g.p.Wire / 2)
			}
			if !inSwitch && r.p(g.p.InOut) {
				g.inOut(f, id(f.Name))
				g.trapOut(f, id(f.Name))
			}
		}
	}
	g.common(f, &sh, vars)
	return f, sh
}

// inOut adds a pair of mappings that are each other's inverse.
// trapOut makes an out expression one that fails for a value that is never
// encoded.
func (g *gen) trapOut(f *Fd, x *Ex) {
	if k := f.NT.Kind(); f.Out != nil && (isIntKind(k) || isUintKind(k)) && g.r.p(10) {
		f.NonZero, f.Out = true, trap(x, f.Out)
	}
}

func (g *gen) inOut(f *Fd, x *Ex) {
	r := g.r
	switch k := f.NT.Kind(); {
	case k == reflect.Bool:
		f.In, f.Out = un("!", x), un("!", x)
	case isFloatKind(k) && f.Bits > 0:
	case isFloatKind(k):
		f.In, f.Out = bin("*", x, litInt(2)), bin("/", x, litInt(2))
	default:
		w := wireBits(f.WT.Kind())
		if n := kindBits(k); n < w {
			w = n
		}
		if f.Bits > 0 && f.Bits < w {
			w = f.Bits
		}
		if f.BitsE != nil || w < 4 {
			return
		}
		c := litInt(int64(r.in(1, 7)))
		f.In, f.Out = bin("^", x, c), bin("^", x, c)
		if f.Bits == 0 && w == wireBits(f.WT.Kind()) && w == kindBits(k) && r.p(50) {
			f.In, f.Out = bin("+", x, c), bin("-", x, c)
		}
	}
}

func (g *gen) switchField(vars []variable, depth, pos int, inSwitch bool) (*Fd, shape) {
	r := g.r
	f := &Fd{Name: g.name(), CountedBy: -1}
	v := pick(r, vars...)
	var cases []*Ex
	f.Switch = v.ex
	switch k := v.t.Kind(); {
	case isIntKind(k) || isUintKind(k):
		if r.p(25) {
			f.Switch = bin("&", v.ex, litInt(3))
		} else if v.fd != nil {
			v.fd.Hint = append(v.fd.Hint, 0, 1, 2, 3, 100, 255, 256, 300)
			if isIntKind(k) {
				v.fd.Hint = append(v.fd.Hint, -1, -2)
			}
		}
		cases = []*Ex{litInt(0), litInt(1), litInt(2), litInt(3), litInt(100)}
		if r.p(40) {
			// Constants that the type of the switch value may not hold.
			cases = append(cases, litInt(-1), litInt(-2), litInt(255), litInt(256), litInt(300), litInt(65535), litInt(65536))
		}
	case k == reflect.String:
		f.Switch = v.ex
		cases = []*Ex{litStr(""), litStr("a"), litStr("ab"), litStr("IHDR")}
		if v.fd != nil {
			v.fd.HintS = true
		}
	default:
		f.Switch = g.boolExpr(vars, 1)
		cases = []*Ex{litBool(true), litBool(false)}
	}
	if isIntKind(v.t.Kind()) || isUintKind(v.t.Kind()) {
		for _, w := range vars {
			if k := w.t.Kind(); (isIntKind(k) || isUintKind(k)) && w.ex != v.ex && r.p(30) {
				cases = append(cases, w.ex)
			}
		}
	}
	if r.p(10) {
		// Nothing equals a value of another kind.
		cases = append(cases, litStr("1"), litBool(true), litInt(1), litInt(-1))
		for _, w := range vars {
			if !isFloatKind(w.t.Kind()) && w.ex != v.ex && r.p(50) {
				cases = append(cases, w.ex)
			}
		}
	}
	alts := &St{}
	n := r.in(1, 4)
	if g.p.Wide > 0 && r.p(4) {
		n = r.in(5, pick(r, 12, 40))
		for k := 0; k < n && (isIntKind(v.t.Kind()) || isUintKind(v.t.Kind())); k++ {
			cases = append(cases, litInt(int64(k)))
			if v.fd != nil && v.fd.Hint != nil {
				v.fd.Hint = append(v.fd.Hint, int64(k))
			}
		}
	}
	def := -1
	if r.p(60) {
		def = r.n(n)
	}
	var first *Fd
	alike := r.p(40)
	var sh shape
	for i := 0; i < n; i++ {
		if r.p(5) {
			alts.F = append(alts.F, &Fd{Name: g.name(), NT: g.junkType(), Ignore: true, CountedBy: -1})
		}
		p := pos
		var a *Fd
		var ash shape
		if i > 0 && first.NT.Kind() != reflect.Struct && alike {
			a, ash = g.likeField(first, vars, p)
		} else {
			a, ash = g.field(vars, depth-1, p, true)
		}
		if i == 0 {
			first = a
		}
		if i == def {
			a.Default = true
		} else {
			a.Case = pick(r, cases...)
		}
		alts.F = append(alts.F, a)
		if i == 0 {
			sh = ash
		} else {
			sh = or(sh, ash)
		}
	}
	if def < 0 {
		sh = or(sh, shape{0, 0})
	}
	if (isIntKind(v.t.Kind()) || isUintKind(v.t.Kind())) && f.Switch == v.ex && r.p(25) {
		// Case expressions that fail if an earlier alternative is selected.
		first := true
		for _, a := range alts.F {
			if a.Case == nil {
				continue
			}
			if first {
				a.Case, first = litInt(0), false
				continue
			}
			a.Case = trap(v.ex, a.Case)
		}
		if v.fd != nil {
			v.fd.Hint = append(v.fd.Hint, 0, 0)
		}
	}
	ok := !inSwitch // or the path would be another
	for _, a := range alts.F {
		ok = ok && representable(a.NT) && !a.Root && !a.Parent
	}
	if ok {
		for _, a := range alts.F {
			k := a.NT.Kind()
			if a.active() && !a.Pad && customs[a.NT] == nil && (k == reflect.Bool || isIntKind(k) || isUintKind(k) || isFloatKind(k)) && r.p(g.p.InOut) {
				g.inOut(a, dot(id(f.Name), a.Name))
				g.trapOut(a, dot(id(f.Name), a.Name))
			}
		}
	}
	alts.build(r)
	f.NT, f.WT = alts.RT, alts.RT
	return f, sh
}

// likeField generates a field of the same native type as another, but with its own
// representation.
func (g *gen) likeField(h *Fd, vars []variable, pos int) (*Fd, shape) {
	r := g.r
	f := &Fd{Name: g.name(), NT: h.NT, CountedBy: -1}
	f.WT = f.NT
	k := f.NT.Kind()
	if customs[f.NT] != nil {
		return g.field(vars, 0, pos, true)
	}
	switch {
	case k == reflect.Bool:
		f.TypeTx = pick(r, "bool", "uint8", "uint16", "int32", "uint64")
	case isIntKind(k):
		f.TypeTx = pick(r, wireInts...)
	case isUintKind(k):
		f.TypeTx = pick(r, wireUints...)
	case isFloatKind(k):
		f.TypeTx = pick(r, "float32", "float64")
	case k == reflect.Complex64 || k == reflect.Complex128:
		f.TypeTx = pick(r, "complex64", "complex128")
	case k == reflect.String:
		f.TypeTx = fmt.Sprintf("[%d]byte", r.n(7))
	default:
		return g.field(vars, 0, pos, true)
	}
	f.WT = wireType(f.TypeTx)
	var sh shape
	if k == reflect.String {
		sh = shape{0, 8 * f.WT.Len()}
	} else {
		g.finishScalar(f, vars)
		sh = g.shapeOf(f)
	}
	g.common(f, &sh, vars)
	return f, sh
}

// representable tells whether the expression language has a type like t.
func representable(t reflect.Type) bool {
	switch k := t.Kind(); {
	case k == reflect.Bool || isIntKind(k) || isUintKind(k) || isFloatKind(k) || k == reflect.String:
		return true
	case k == reflect.Array || k == reflect.Slice || k == reflect.Ptr:
		return representable(t.Elem())
	case k == reflect.Struct && t.Name() == "":
		for i := 0; i < t.NumField(); i++ {
			if !representable(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

// varsOf lists what later expressions can refer to.
func (g *gen) varsOf(f *Fd) (vs []variable) {
	var add func(x *Ex, t reflect.Type, depth int)
	add = func(x *Ex, t reflect.Type, depth int) {
		switch k := t.Kind(); {
		case k == reflect.Bool || isIntKind(k) || isUintKind(k) || isFloatKind(k) || k == reflect.String:
			vs = append(vs, variable{x, t, nil})
		case depth > 2 || customs[t] != nil:
		case k == reflect.Array && t.Len() > 0:
			add(idx(x, litInt(int64(g.r.n(t.Len())))), t.Elem(), depth+1)
		case k == reflect.Struct && t.Name() == "":
			for _, h := range stOf(t).F {
				if h.active() && !h.Root && !h.Parent && !h.Pad {
					add(dot(x, h.Name), h.NT, depth+1)
				}
			}
		}
	}
	if f.Switch != nil || !representable(f.NT) {
		return
	}
	add(id(f.Name), f.NT, 0)
	if len(vs) == 1 && vs[0].ex.Op == "id" {
		vs[0].fd = f
	}
	return
}

// boolExpr generates a condition over some variables.
func (g *gen) boolExpr(vars []variable, depth int) *Ex {
	r := g.r
	if depth > 0 && r.p(30) {
		a, b := g.boolExpr(vars, depth-1), g.boolExpr(vars, depth-1)
		switch r.n(4) {
		case 0:
			return bin("&&", a, b)
		case 1:
			return bin("||", a, b)
		case 2:
			return un("!", a)
		default:
			return bin(pick(r, "==", "!="), a, b)
		}
	}
	if len(vars) == 0 {
		return litBool(r.p(70))
	}
	v := pick(r, vars...)
	switch k := v.t.Kind(); {
	case k == reflect.Bool:
		if r.p(30) {
			return un("!", v.ex)
		}
		return v.ex
	case k == reflect.String:
		if v.fd != nil {
			v.fd.HintS = true
		}
		return bin(pick(r, "==", "!="), v.ex, litStr(pick(r, "", "a", "ab", "IHDR")))
	case isFloatKind(k):
		return bin(pick(r, "<", ">", "<=", ">="), v.ex, pick(r, litInt(0), litFloat(1.5, "1.5")))
	}
	switch r.n(3) {
	case 0:
		if v.fd != nil {
			v.fd.Hint = append(v.fd.Hint, 0, 1, 2)
		}
		return bin(pick(r, "==", "!=", "<", ">", "<=", ">="), v.ex, litInt(int64(r.n(3))))
	case 1:
		return bin(pick(r, "==", "!="), bin("&", v.ex, litInt(int64(1)<<uint(r.n(4)))), litInt(0))
	default:
		for _, w := range vars {
			if w.t == v.t && w.ex != v.ex {
				return bin(pick(r, "==", "!=", "<", ">"), v.ex, w.ex)
			}
		}
		return bin(pick(r, "<", ">"), v.ex, litInt(int64(r.n(100))))
	}
}

// smallExpr generates an integer expression between min and about min+7.
func (g *gen) smallExpr(vars []variable, min int) *Ex {
	r := g.r
	var ints []variable
	for _, v := range vars {
		if isIntKind(v.t.Kind()) || isUintKind(v.t.Kind()) {
			ints = append(ints, v)
		}
	}
	var x *Ex
	if len(ints) == 0 || r.p(15) {
		if len(vars) > 0 && r.p(50) {
			return cond(g.boolExpr(vars, 1), litInt(int64(min+r.n(6))), litInt(int64(min+r.n(6))))
		}
		return litInt(int64(min + r.n(6)))
	}
	v := pick(r, ints...)
	switch r.n(5) {
	case 0:
		x = bin("&", bin(">>", v.ex, litInt(int64(r.n(4)))), litInt(int64(pick(r, 3, 7))))
	case 1:
		if isUintKind(v.t.Kind()) {
			x = bin("%", v.ex, litInt(int64(r.in(1, 7))))
		} else {
			x = bin("&", v.ex, litInt(5))
		}
	case 2:
		if v.t == basicTypes[reflect.Uint8] {
			x = call(dot(id("bits"), "OnesCount8"), v.ex)
		} else if v.t == basicTypes[reflect.Uint16] {
			x = bin("/", call(dot(id("bits"), "Len16"), v.ex), litInt(2))
		} else {
			x = bin("&", bin("+", v.ex, litInt(1)), litInt(3))
		}
	default:
		x = bin("&", v.ex, litInt(int64(pick(r, 3, 6, 7))))
	}
	if min > 0 {
		x = bin("+", x, litInt(int64(min)))
	}
	if r.p(10) {
		x = cond(g.boolExpr(vars, 0), x, litInt(int64(min+r.n(4))))
	}
	return x
}
