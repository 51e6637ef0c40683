package main

import (
	"fmt"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"hash/fnv"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct/expr"
)

// This file checks how expressions are read. Texts are made token by token,
// without building a tree first; go/parser says how they group, and the tree it
// makes is evaluated in several environments to tell groupings apart.

var binOps = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "^", "*", "/", "%", "<<", ">>", "&", "&^"}

// toks is a text as the language and as Go spells it. Parts that Go has no
// syntax for are placeholders there.
type toks struct {
	real, gos []string
	sub       map[string]*Ex
}

func (t *toks) add(ss ...string) {
	t.real = append(t.real, ss...)
	t.gos = append(t.gos, ss...)
}

func (t *toks) addAll(o *toks) {
	t.real = append(t.real, o.real...)
	t.gos = append(t.gos, o.gos...)
	for k, v := range o.sub {
		t.sub[k] = v
	}
}

var fuseMemo = map[[2]string]bool{}

// fuses tells whether two tokens without space between them read as others.
func fuses(a, b string) bool {
	if f, ok := fuseMemo[[2]string{a, b}]; ok {
		return f
	}
	if strings.HasPrefix(b, "$") || strings.HasPrefix(a, "$") || a == "?" || a == ":" || b == "?" || b == ":" {
		return false
	}
	var s scanner.Scanner
	text := []byte(a + b)
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", -1, len(text)), text, func(token.Position, string) {}, 0)
	lit := func() string {
		_, t, l := s.Scan()
		if l == "" || t.IsOperator() {
			return t.String()
		}
		return l
	}
	f := lit() != a || lit() != b
	if len(fuseMemo) < 100000 {
		fuseMemo[[2]string{a, b}] = f
	}
	return f
}

// join spaces tokens at random.
func join(r *rng, ts []string) string {
	style := r.n(4)
	var b strings.Builder
	sp := func(need bool) {
		switch {
		case style == 0 && !need:
		case style == 1:
			b.WriteString(" ")
		case style == 2 && !need && r.p(50):
		case style == 3 && !need && r.p(30):
		case style == 3:
			for i := r.in(1, 3); i > 0; i-- {
				b.WriteString(pick(r, " ", "\t"))
			}
		default:
			b.WriteString(" ")
		}
	}
	for i, t := range ts {
		if i > 0 {
			sp(fuses(ts[i-1], t))
		} else if style == 3 {
			sp(false)
		}
		b.WriteString(t)
	}
	if style == 3 {
		sp(false)
	}
	return b.String()
}

func (e *Ex) subst(m map[string]*Ex) *Ex {
	if e == nil {
		return nil
	}
	if e.Op == "id" {
		if x := m[e.Name]; x != nil {
			return x
		}
		return e
	}
	c := *e
	c.A, c.B, c.C = e.A.subst(m), e.B.subst(m), e.C.subst(m)
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, a.subst(m))
	}
	return &c
}

// goParse reads a text with go/parser. ok is false if it has syntax that is
// not part of the language.
func goParse(text string) (e *Ex, ok bool, err error) {
	n, err := parser.ParseExpr(text)
	if err != nil {
		return nil, false, err
	}
	defer func() {
		if recover() != nil {
			e, ok = nil, false
		}
	}()
	return fromGo(n), true, nil
}

type pgen struct {
	r *rng
	n int
	k *kindOf // of the integers
}

func (g *pgen) placeholder(t *toks, inner *toks, e *Ex) {
	g.n++
	name := fmt.Sprintf("zz%d", g.n)
	t.real = append(t.real, inner.real...)
	t.gos = append(t.gos, name)
	t.sub[name] = e
}

func newToks() *toks { return &toks{sub: map[string]*Ex{}} }

// tern is a text that may have conditionals on its outermost level.
func (g *pgen) tern(depth int, seq func(depth int) *toks) (*toks, *Ex) {
	if depth <= 0 || !g.r.p(40) {
		t := seq(depth)
		return t, t.tree()
	}
	c := g.bools(depth - 1)
	a, ea := g.tern(depth-1, seq)
	b, eb := g.tern(depth-1, seq)
	t := newToks()
	t.real = append(t.real, c.real...)
	t.real = append(t.real, "?")
	t.real = append(t.real, a.real...)
	t.real = append(t.real, ":")
	t.real = append(t.real, b.real...)
	return t, cond(c.tree(), ea, eb)
}

func (t *toks) tree() *Ex {
	text := strings.Join(t.gos, " ")
	n, ok, err := goParse(text)
	if err != nil || !ok {
		panic(fmt.Sprintf("goParse %q: %v", text, err))
	}
	return n.subst(t.sub)
}

// nested puts a text with possible conditionals between brackets.
func (g *pgen) nested(t *toks, depth int, seq func(depth int) *toks) {
	inner, e := g.tern(depth, seq)
	if len(inner.gos) == 0 {
		g.placeholder(t, inner, e)
		return
	}
	t.addAll(inner)
}

func (g *pgen) primary(t *toks, depth int) {
	r := g.r
	brackets := func(o, c string, seq func(int) *toks) {
		t.add(o)
		g.nested(t, depth-1, seq)
		t.add(c)
	}
	if depth <= 0 {
		t.add(pick(r, "a", "b", "c", "d"))
		return
	}
	switch r.weighted([]int{20, 8, 4, 4, 4, 4, 3, 3, 3, 3, 6, 3, 3, 3, 3, 3}) {
	case 0:
		t.add(pick(r, "a", "b", "c", "d"))
	case 1:
		if g.k.t.Kind() == reflect.Int {
			t.add(pick(r, strconv.Itoa(r.n(100)), "1", "2", fmt.Sprintf("%#x", r.n(100)), "'A'"))
		} else {
			t.add(pick(r, "a", "b", "c", "d"))
		}
	case 2:
		t.add("s", ".", "f")
	case 3:
		t.add("s", ".", "In", ".", pick(r, "f", "g"))
	case 4:
		t.add("arr")
		if r.p(70) {
			t.add("[", pick(r, "0", "1", "2", "3"), "]")
			break
		}
		t.add("[", "(")
		g.nested(t, depth-1, g.arith)
		t.add(")", "&", "3", "]")
	case 5:
		t.add("f")
		brackets("(", ")", g.arith)
	case 6:
		t.add("h", "(", ")", ".", "f")
	case 7:
		t.add("*", "p")
	case 8:
		t.add("*", "s", ".", "p")
	case 9:
		t.add("(", "*", "ps", ")", ".", "f")
	case 10:
		brackets("(", ")", g.arith)
	case 11:
		t.add("m", "[")
		g.strs(t)
		t.add("]")
	case 12:
		t.add("*", "q", "(", ")", ".", "ar", "[", "1", "]")
	case 13:
		t.add("f2", "(")
		g.nested(t, depth-2, g.arith)
		t.add(",")
		g.nested(t, depth-2, g.bools)
		t.add(")")
	case 14:
		n := r.in(1, 5)
		if r.p(10) {
			n = pick(r, 8, 11, 17)
		}
		t.add("sum"+strconv.Itoa(n), "(")
		for i := 0; i < n; i++ {
			if i > 0 {
				t.add(",")
			}
			g.nested(t, depth-2, g.arith)
		}
		t.add(")")
	default:
		t.add("ff", "(")
		g.nested(t, depth-2, g.arith)
		t.add(")", "(")
		g.nested(t, depth-2, g.arith)
		t.add(")")
	}
}

func (g *pgen) strs(t *toks) {
	s := pick(g.r, "k", "", "a b", "+ 1")
	switch g.r.n(4) {
	case 0:
		t.add("t")
	case 1:
		t.real = append(t.real, "$'"+s+"'")
		t.gos = append(t.gos, strconv.Quote(s))
	default:
		t.add(strconv.Quote(s))
	}
}

var intBins = []string{"+", "-", "|", "^", "*", "/", "%", "<<", ">>", "&", "&^"}

// arith is a flat sequence of integer operators.
func (g *pgen) arith(depth int) *toks {
	r := g.r
	t := newToks()
	n := r.in(0, 4)
	for i := 0; ; i++ {
		for r.p(20) {
			t.add(pick(r, "-", "^", "+", "-"))
		}
		g.primary(t, depth)
		if i == n {
			return t
		}
		t.add(pick(r, intBins...))
	}
}

// bools is a flat sequence of logical operators and comparisons.
func (g *pgen) bools(depth int) *toks {
	r := g.r
	t := newToks()
	n := r.in(0, 4)
	for i := 0; ; i++ {
		switch r.weighted([]int{8, 6, 3, 2, 2, 2}) {
		case 0:
			t.addAll(g.arith(depth - 1))
			t.add(pick(r, "==", "!=", "<", "<=", ">", ">="))
			t.addAll(g.arith(depth - 1))
		case 1:
			for r.p(30) {
				t.add("!")
			}
			t.add(pick(r, "x", "y", "z"))
		case 2:
			for r.p(30) {
				t.add("!")
			}
			t.add("(")
			g.nested(t, depth-1, g.bools)
			t.add(")")
		case 3:
			t.add(pick(r, "true", "false", "x", "y"))
			t.add(pick(r, "==", "!="))
			t.add(pick(r, "x", "y", "z"))
		case 4:
			g.strs(t)
			t.add(pick(r, "==", "!="))
			g.strs(t)
		default:
			t.add("s", ".", "g")
		}
		if i == n {
			return t
		}
		t.add(pick(r, "||", "&&"))
	}
}

type pIn[T any] struct{ F, G T }

// penvOf makes values for all names of a text.
func penvOf[T any](r *rng, gen func() T) map[string]interface{} {
	v, w := gen(), gen()
	arr := [4]T{gen(), gen(), gen(), gen()}
	s := pStruct[T]{F: gen(), G: r.p(50), In: pIn[T]{gen(), gen()}, P: &w, Ar: [2]*T{&v, &w}}
	m := map[string]T{"k": gen(), "": gen(), "a b": gen(), "+ 1": gen()}
	c1, c2 := gen(), gen()
	ps := &pStruct[T]{F: gen()}
	return map[string]interface{}{
		"a": gen(), "b": gen(), "c": gen(), "d": gen(),
		"x": r.p(50), "y": r.p(50), "z": r.p(50), "t": pick(r, "k", "", "a b"),
		"arr": arr, "s": s, "m": m, "p": &v, "ps": ps,
		"f": func(x T) T { return x },
		"f2": func(x T, b bool) T {
			if b {
				return x
			}
			return c1
		},
		"sum1": func(a T) T { return a },
		"sum2": func(a, b T) T { return pick2(v, a, b) },
		"sum3": func(a, b, c T) T { return pick2(v, a, b, c) },
		"sum4": func(a, b, c, d T) T { return pick2(v, a, b, c, d) },
		"sum5": func(a, b, c, d, e T) T { return pick2(v, a, b, c, d, e) },
		"sum8": func(a, b, c, d, e, f, g, h T) T { return pick2(v, a, b, c, d, e, f, g, h) },
		"sum11": func(a, b, c, d, e, f, g, h, i, j, k T) T {
			return pick2(v, a, b, c, d, e, f, g, h, i, j, k)
		},
		"sum17": func(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q T) T {
			return pick2(v, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q)
		},
		"h": func() pStruct[T] { return s },
		"q": func() *pStruct[T] { return &s },
		"ff": func(x T) func(T) T {
			return func(y T) T {
				if reflect.ValueOf(x).Interface() == reflect.ValueOf(y).Interface() {
					return c2
				}
				return y
			}
		},
	}
}

// pick2 picks one of its arguments, depending on all of them.
func pick2[T any](seed T, args ...T) T {
	h := fnv.New32a()
	fmt.Fprint(h, seed, args)
	return args[h.Sum32()%uint32(len(args))]
}

type pStruct[T any] struct {
	F  T
	G  bool
	In pIn[T]
	P  *T
	Ar [2]*T
}

var fieldNames = map[string]string{"f": "F", "g": "G", "p": "P", "ar": "Ar"}

// renames turns the field names of the generator into exported ones.
func renameFields(ts []string) {
	for i := 1; i < len(ts); i++ {
		if ts[i-1] == "." {
			if n := fieldNames[ts[i]]; n != "" {
				ts[i] = n
			}
		}
	}
}

func (e *Ex) renameFields() {
	if e == nil {
		return
	}
	if e.Op == "." {
		if n := fieldNames[e.Name]; n != "" {
			e.Name = n
		}
	}
	e.A.renameFields()
	e.B.renameFields()
	e.C.renameFields()
	for _, a := range e.Args {
		a.renameFields()
	}
}

func mapEnv(vars map[string]interface{}) env {
	return func(name string) (*RV, error) {
		v, ok := vars[name]
		if !ok {
			return nil, errEval
		}
		return typed(v), nil
	}
}

// judgeRef compares a result with that of the reference tree. It returns false
// if there is no expectation.
func (c *Ctx) judgeRef(text string, e *Ex, vars map[string]interface{}, v interface{}, err error, pan string) bool {
	want, rerr := e.Eval(mapEnv(vars))
	untyped := rerr == nil && want.U == 'i'
	if rerr == nil {
		want, rerr = want.asTyped()
	}
	if rerr == errDomain {
		return false
	}
	c.Eval(1)
	at := func() string {
		s := ""
		for _, n := range []string{"a", "b", "c", "d", "x", "y", "z"} {
			if x, ok := vars[n]; ok {
				s += fmt.Sprintf(" %s=%v", n, x)
			}
		}
		return s
	}
	switch {
	case pan != "":
		c.Fail("%s escapes: %q", pan, text)
	case rerr != nil && err == nil:
		c.Fail("%q gives %v (%T), but must fail as %s with%s", text, v, v, e.Full(), at())
	case rerr != nil:
		c.Count("failing_evaluations", 1)
	case err != nil:
		c.Fail("%q fails: %v; it reads %s with%s", text, err, e.Full(), at())
	case !sameConst(v, want.V.Interface(), untyped):
		c.Fail("%q gives %v (%T); it reads %s and gives %v (%T) with%s", text, v, v, e.Full(), want.V.Interface(), want.V.Interface(), at())
	}
	return true
}

// sameConst is sameResult for results that may be integer constants, whose type
// is not determined.
func sameConst(got, want interface{}, untyped bool) bool {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if untyped && g.IsValid() && (isIntKind(g.Kind()) || isUintKind(g.Kind())) {
		return bigOf(g).Cmp(bigOf(w)) == 0
	}
	return sameResult(got, want)
}

// Full prints with all parentheses.
func (e *Ex) Full() string {
	if e.level() == 8 && e.Op != "lit" {
		return e.String()
	}
	return e.Source(func() bool { return true }, noSpace)
}

func (c *Ctx) evalRead(text string, e *Ex, k *kindOf, n int) {
	prog, pan := parseText(text)
	for i := 0; i < n && c.ok(); i++ {
		vars := k.penv(c.R)
		var v interface{}
		var err error
		p := ""
		if pan != "" { // this is how ParseString reports errors
			v, err, p = evalText(resolverFor(c.R, vars), text)
		} else {
			v, err, p = evalProg(resolverFor(c.R, vars), prog)
		}
		if !c.judgeRef(text, e, vars, v, err, p) {
			c.Count("outside_reference", 1)
			return
		}
	}
}

// small integers and large ones
func penvInt[T integer](r *rng) map[string]interface{} {
	var k = kindByT[reflect.TypeOf(T(0))]
	small := r.p(50)
	return penvOf(r, func() T {
		if small {
			return T(r.n(8))
		}
		return k.rand(r).(T)
	})
}

var penvs = map[reflect.Kind]func(r *rng) map[string]interface{}{
	reflect.Int: penvInt[int], reflect.Int8: penvInt[int8], reflect.Uint8: penvInt[uint8],
	reflect.Uint32: penvInt[uint32], reflect.Int64: penvInt[int64], reflect.Uint64: penvInt[uint64],
}

func (k *kindOf) penv(r *rng) map[string]interface{} { return penvs[k.t.Kind()](r) }

func pKind(r *rng) *kindOf {
	switch r.n(10) {
	case 0:
		return kindByT[reflect.TypeOf(int8(0))]
	case 1:
		return kindByT[reflect.TypeOf(uint8(0))]
	case 2:
		return kindByT[reflect.TypeOf(uint32(0))]
	case 3:
		return kindByT[reflect.TypeOf(int64(0))]
	case 4, 5, 6:
		return kindByT[reflect.TypeOf(uint64(0))]
	}
	return intK
}

// infer types the leaves of a tree: 'i' or 'b'. Leaves are identifiers.
func infer(r *rng, e *Ex, want byte, leaf map[string]byte) bool {
	switch {
	case e.Op == "id":
		if leaf[e.Name] != 0 && leaf[e.Name] != want {
			return false
		}
		leaf[e.Name] = want
		return true
	case e.Op == "u!":
		return want == 'b' && infer(r, e.A, 'b', leaf)
	case e.Op == "u-", e.Op == "u^":
		return want == 'i' && infer(r, e.A, 'i', leaf)
	case e.Op == "&&", e.Op == "||":
		return want == 'b' && infer(r, e.A, 'b', leaf) && infer(r, e.B, 'b', leaf)
	case e.Op == "==", e.Op == "!=":
		if want != 'b' {
			return false
		}
		t := e.A.resultOf()
		if t == 0 {
			t = e.B.resultOf()
		}
		if t == 0 {
			t = pick(r, byte('i'), 'i', 'b')
		}
		return infer(r, e.A, t, leaf) && infer(r, e.B, t, leaf)
	case prec[e.Op] == 3:
		return want == 'b' && infer(r, e.A, 'i', leaf) && infer(r, e.B, 'i', leaf)
	}
	return want == 'i' && infer(r, e.A, 'i', leaf) && infer(r, e.B, 'i', leaf)
}

func (e *Ex) resultOf() byte {
	switch {
	case e.Op == "id":
		return 0
	case e.Op == "u!", prec[e.Op] > 0 && prec[e.Op] <= 3:
		return 'b'
	}
	return 'i'
}

// groupings lists the trees over a sequence of operands and operators.
func groupings(xs []*Ex, ops []string) []*Ex {
	if len(ops) == 0 {
		return xs
	}
	var all []*Ex
	for i := range ops {
		for _, a := range groupings(xs[:i+1], ops[:i]) {
			for _, b := range groupings(xs[i+1:], ops[i+1:]) {
				all = append(all, bin(ops[i], a, b))
			}
		}
	}
	return all
}

// sweepOps checks all sequences of three operators that start with two given
// ones.
func sweepOps(c *Ctx, op1, op2 string) {
	r := c.R
	c.Distinct(hashStr(op1 + " " + op2))
	for _, op3 := range append([]string{""}, binOps...) {
		if !c.ok() {
			return
		}
		ts := []string{"a", op1, "b", op2, "c"}
		ops := []string{op1, op2}
		if op3 != "" {
			ts = append(ts, op3, "d")
			ops = append(ops, op3)
		}
		// Unary operators in front of operands.
		un := map[string]string{}
		if r.p(50) {
			var us []string
			for i, t := range ts {
				if i%2 == 0 && r.p(50) {
					u := pick(r, "-", "^", "!")
					us = append(us, u)
					un[t] = u
				}
				us = append(us, t)
			}
			ts = us
		}
		e, _, err := goParse(strings.Join(ts, " "))
		if err != nil {
			panic(err)
		}
		leaf := map[string]byte{}
		t := e.resultOf()
		if !infer(r, e, t, leaf) {
			c.Count("ill_typed_sequences", 1)
			continue
		}
		c.Count("sequences", 1)
		text := join(r, ts)
		prog, pan := parseText(text)
		// All other groupings of the same text, to see what tells them apart.
		var xs []*Ex
		for i, n := range []string{"a", "b", "c", "d"} {
			if i > len(ops) {
				break
			}
			x := id(n)
			if u := un[n]; u != "" {
				x = &Ex{Op: "u" + u, A: x}
			}
			xs = append(xs, x)
		}
		type alt struct {
			e    *Ex
			told bool
		}
		var alts []*alt
		for _, g := range groupings(xs, ops) {
			if g.Full() != e.Full() {
				alts = append(alts, &alt{e: g})
			}
		}
		k := pKind(r)
		for i := 0; i < 12; i++ {
			vars := k.penv(r)
			for n, t := range leaf {
				if t == 'b' {
					vars[n] = r.p(50)
				}
			}
			v, err, p := evalProg(resolverFor(r, vars), prog)
			if pan != "" {
				err = errEval
			}
			if !c.judgeRef(text, e, vars, v, err, p) {
				break
			}
			want, werr := e.Eval(mapEnv(vars))
			for _, a := range alts {
				if !a.told {
					x, xerr := a.e.Eval(mapEnv(vars))
					a.told = (werr == nil) != (xerr == nil) || werr == nil && want.V.Interface() != x.V.Interface()
				}
			}
		}
		for _, a := range alts {
			if a.told {
				c.Count("other_groupings_told_apart", 1)
			} else {
				c.Count("other_groupings_same_results", 1)
			}
		}
	}
}

// readCase checks a random text.
func readCase(c *Ctx) {
	r := c.R
	g := &pgen{r: r, k: pKind(r)}
	seq := g.arith
	if r.p(50) {
		seq = g.bools
	}
	t, e := g.tern(r.in(1, 3), seq)
	renameFields(t.real)
	e.renameFields()
	c.Distinct(hashStr(strings.Join(t.real, " ")))
	text := join(r, t.real)
	c.Count("texts", 1)
	c.Count("tokens", len(t.real))
	c.Sample("%s", text)
	c.evalRead(text, e, g.k, 4)
	if !c.ok() {
		return
	}
	// White space must not matter.
	other := join(r, t.real)
	vars := g.k.penv(r)
	v1, err1, _ := evalText(resolverFor(r, vars), text)
	v2, err2, _ := evalText(resolverFor(r, vars), other)
	if (err1 == nil) != (err2 == nil) || err1 == nil && !sameAny(v1, v2) {
		c.Fail("white space matters: %q gives %v, %v; %q gives %v, %v", text, v1, err1, other, v2, err2)
	}
}

func sameAny(a, b interface{}) bool {
	if !reflect.ValueOf(a).IsValid() || !reflect.TypeOf(a).Comparable() {
		return true
	}
	return sameResult(a, b)
}

var garbage = []string{"@", "#", "{", "}", ";", "~", "=", ":=", "`", "\\", "$", "a", "1", "\"s\"", "x", ")", "(", "]", "[", ".", ":", "?", "=>", "!", "*", "/", "%", "==", "<", "&&", "||", "&", "|", "^", "+", "-", "&^", "<<", ">>", "'", "\"", "1.5", "true", "nil", "f", "€", "\x00", "\xff"}

// mutateCase corrupts a text. What go/parser rejects must be rejected; what it
// still accepts must read the same.
func mutateCase(c *Ctx) {
	r := c.R
	g := &pgen{r: r, k: pKind(r)}
	seq := g.arith
	if r.p(50) {
		seq = g.bools
	}
	t := seq(r.n(4))
	ts := append([]string{}, t.gos...)
	if len(t.sub) > 0 || strings.Contains(strings.Join(ts, " "), ",") {
		ts = []string{"a", "+", "(", "b", ")", "*", "arr", "[", "c", "]"}
	}
	renameFields(ts)
	for i := r.in(1, 3); i > 0; i-- {
		j := r.n(len(ts) + 1)
		switch r.n(5) {
		case 0, 1:
			if j < len(ts) {
				ts = append(ts[:j:j], ts[j+1:]...)
			}
		case 2:
			ts = append(ts[:j:j], append([]string{pick(r, garbage...)}, ts[j:]...)...)
		case 3:
			if j < len(ts) {
				ts[j] = pick(r, garbage...)
			}
		default:
			if k := r.n(len(ts) + 1); j < len(ts) && k < len(ts) {
				ts[j], ts[k] = ts[k], ts[j]
			}
		}
		if r.p(10) { // truncate
			ts = ts[:r.n(len(ts)+1)]
		}
		if len(ts) == 0 {
			break
		}
	}
	text := join(r, ts)
	c.Distinct(hashStr(text))
	e, ok, err := goParse(text)
	if err == nil && !ok || strings.Contains(text, "//") || strings.Contains(text, "/*") || strings.Count(text, "?") > 1 || strings.Contains(text, "`") && err == nil {
		c.Count("texts_with_other_syntax", 1)
		return
	}
	// The one question mark goes with a colon.
	if strings.Contains(text, "?") && strings.Contains(text, ":") {
		c.Count("texts_with_other_syntax", 1)
		return
	}
	if err != nil {
		c.Count("corrupted_texts", 1)
		c.rejected(g.k, text, err.Error())
		return
	}
	if fieldOfNumber(e) { // Go's grammar has it, but no program does
		c.Count("texts_with_other_syntax", 1)
		return
	}
	c.Count("texts_still_valid", 1)
	c.evalRead(text, e, g.k, 3)
}

// fieldOfNumber tells whether a field of a number is taken somewhere. Where
// nothing separates the two, as in 1.5.f, there is no telling them apart from
// a malformed number.
func fieldOfNumber(e *Ex) bool {
	if e == nil {
		return false
	}
	for _, a := range e.Args {
		if fieldOfNumber(a) {
			return true
		}
	}
	return e.Op == "." && e.A.Op == "lit" || fieldOfNumber(e.A) || fieldOfNumber(e.B) || fieldOfNumber(e.C)
}

func (c *Ctx) rejected(k *kindOf, text, why string) {
	for i := 0; i < 3; i++ {
		vars := k.penv(c.R)
		v, err, pan := evalText(resolverFor(c.R, vars), text)
		c.Eval(1)
		if pan != "" {
			c.Fail("%s escapes: %q", pan, text)
			return
		}
		if err == nil {
			c.Fail("%q is not an expression (%s), but gives %v (%T)", text, why, v, v)
			return
		}
	}
	c.Count("rejections", 1)
}

// literalCase checks one random literal, by itself and against values.
func literalCase(c *Ctx) {
	r := c.R
	digits := func(set string, n int) string {
		s := ""
		for ; n > 0; n-- {
			s += string(set[r.n(len(set))])
		}
		return s
	}
	num := func() string {
		switch r.n(6) {
		case 0:
			return strconv.FormatUint(r.u64()>>uint(r.n(64)), 10)
		case 1:
			return fmt.Sprintf(pick(r, "%#x", "%#X", "0x%016x", "0X%x"), r.u64()>>uint(r.n(64)))
		case 2:
			return fmt.Sprintf("0%o", r.u64()>>uint(r.n(64)))
		case 3:
			return fmt.Sprintf(pick(r, "0b%b", "0B%b"), r.u64()>>uint(r.n(64)))
		case 4:
			return pick(r, "0", "1", "00", "007", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0xffffffffffffffff", "01777777777777777777777", "255", "256", "65535", "65536", "4294967295", "4294967296", "0x7fffffffffffffff", "0x8000000000000000")
		}
		return strconv.Itoa(r.n(1000))
	}
	flo := func() string {
		d := "0123456789"
		m := ""
		switch r.n(5) {
		case 0:
			m = digits(d, r.in(1, 6)) + "." + digits(d, r.in(1, 6))
		case 1:
			m = digits(d, r.in(1, 6)) + "."
		case 2:
			m = "." + digits(d, r.in(1, 6))
		case 3:
			return digits(d, r.in(1, 4)) + pick(r, "e", "E") + pick(r, "", "+", "-") + digits(d, r.in(1, 2))
		default:
			return pick(r, "1e308", "5e-324", "1.7976931348623157e308", "0.1", "1e23", "4.35", "9007199254740993.0", "0.", ".0", "00.5", "08.5", "1e0", "1E+10", "123456789012345678901234567890.", "1e-400", "2.2250738585072011e-308")
		}
		if r.p(40) {
			m += pick(r, "e", "E") + pick(r, "", "+", "-") + digits(d, r.in(1, 2))
		}
		return m
	}
	char := func(quote byte) string { // one character or escape
		switch r.n(9) {
		case 0:
			return `\` + pick(r, "a", "b", "f", "n", "r", "t", "v", `\`)
		case 1:
			return `\` + string(quote)
		case 2:
			return fmt.Sprintf(`\%03o`, r.n(256))
		case 3:
			return fmt.Sprintf(pick(r, `\x%02x`, `\x%02X`), r.n(256))
		case 4:
			return fmt.Sprintf(pick(r, `\u%04x`, `\u%04X`), pick(r, r.n(0xd800), 0xe000+r.n(0x2000), r.n(256)))
		case 5:
			return fmt.Sprintf(pick(r, `\U%08x`, `\U%08X`), pick(r, r.n(0xd800), 0xe000+r.n(0x110000-0xe000), r.n(256)))
		case 6:
			return string(rune(pick(r, 0xa0+r.n(0x300), 0x4e00+r.n(0x1000), 0x1f300+r.n(0x200), 0xfffd, 0xe000, 0x10ffff)))
		}
		for {
			b := byte(r.in(0x20, 0x7e))
			if b != quote && b != '\\' {
				return string(rune(b))
			}
		}
	}
	str := func(quote byte) string {
		s := ""
		for n := r.weighted([]int{10, 20, 10, 10, 5, 5, 5}); n > 0; n-- {
			s += char(quote)
		}
		return s
	}
	surround := func(s string) string {
		switch r.n(5) {
		case 0:
			return "(" + s + ")"
		case 1:
			return " " + s + "\t"
		case 2:
			return "( " + s + " )"
		}
		return s
	}
	res := func(vars map[string]interface{}) expr.Resolver { return resolverFor(r, vars) }
	check := func(text string, vars map[string]interface{}, want interface{}) {
		c.Eval(1)
		v, err, pan := evalText(res(vars), text)
		switch {
		case pan != "":
			c.Fail("%s escapes: %q", pan, text)
		case err != nil:
			c.Fail("%q fails: %v; want %v (%T)", text, err, want, want)
		case !sameConst(v, want, vars == nil && reflect.TypeOf(want).Kind() == reflect.Int):
			c.Fail("%q gives %#v (%T), want %#v (%T)", text, v, v, want, want)
		}
	}
	switch r.n(5) {
	case 0: // integers
		s := num()
		n, ok := new(big.Int).SetString(s, 0)
		if !ok {
			panic(s)
		}
		c.Distinct(hashStr(s))
		c.Count("int_literals", 1)
		if n.IsInt64() {
			check(surround(s), nil, int(n.Int64()))
			check("-"+s, nil, -int(n.Int64()))
			check("- "+s, nil, -int(n.Int64()))
			check("^"+s, nil, ^int(n.Int64()))
		}
		for _, k := range intKs {
			if fits(n, k.t.Kind()) && !k.named {
				v := wrapInt(n, k.t.Kind()).Interface()
				vars := map[string]interface{}{"v": v, "o": convTo(k.t, 1), "zero": convTo(k.t, 0)}
				check("v == "+s, vars, true)
				check(s+"==v", vars, true)
				check("zero+"+s, vars, v)
				check(s+" | zero", vars, v)
				check("(v^o) == "+s, vars, false)
				check("v-"+s, vars, convTo(k.t, 0))
				check("v -"+s, vars, convTo(k.t, 0))
			}
		}
	case 1: // floats
		s := flo()
		cv := constant.MakeFromLiteral(s, token.FLOAT, 0)
		f, _ := constant.Float64Val(cv)
		if cv.Kind() == constant.Unknown {
			panic(s)
		}
		if f != f || f > 1e308*1.79 {
			return
		}
		c.Distinct(hashStr(s))
		c.Count("float_literals", 1)
		check(surround(s), nil, f)
		check("-"+s, nil, negf(f))
		vars := map[string]interface{}{"v": f, "w": float32(f), "zero": 0.0}
		check("v == "+s, vars, true)
		check(s+" == w", vars, true)
		check("v-"+s, vars, 0.0)
		check("zero+"+s, vars, 0.0+f)
		check("zero -"+s, vars, 0.0-f)
	case 2: // runes
		s := "'" + char('\'') + "'"
		cv := constant.MakeFromLiteral(s, token.CHAR, 0)
		n, ok := constant.Int64Val(cv)
		if !ok {
			panic(s)
		}
		c.Distinct(hashStr(s))
		c.Count("rune_literals", 1)
		check(surround(s), nil, int(n))
		vars := map[string]interface{}{"v": int32(n), "w": uint32(n), "zero": int64(0)}
		check("v == "+s, vars, true)
		check("w=="+s, vars, true)
		check(s+"+zero", vars, n)
		check("- "+s, nil, -int(n))
		if n < 256 {
			vars["u"] = uint8(n)
			check("u == "+s, vars, true)
		}
	case 3: // strings
		s := str('"')
		text := `"` + s + `"`
		want, err := strconv.Unquote(text)
		if err != nil {
			panic(text)
		}
		c.Distinct(hashStr(text))
		c.Count("string_literals", 1)
		vars := map[string]interface{}{"v": want, "m": map[string]int{want: 7, want + "x": 8}}
		check(surround(text), vars, want)
		check("v == "+text, vars, true)
		check("m["+text+"]", vars, 7)
		check(text+"+v", vars, want+want)
		// The other kind of quotes.
		s = str('\'')
		text = "$'" + s + "'"
		// Quotes are the only characters that differ.
		q := strings.ReplaceAll(strings.ReplaceAll(s, `\\`, "\x00"), `\'`, "\x01")
		q = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(q, `"`, `\"`), "\x01", `'`), "\x00", `\\`)
		want, err = strconv.Unquote(`"` + q + `"`)
		if err != nil {
			panic(text)
		}
		c.Distinct(hashStr(text))
		check(surround(text), nil, want)
		check("v == "+text, map[string]interface{}{"v": want}, true)
	default: // malformed ones
		h := digits("0123456789abcdefABCDEF", 8)
		bad := pick(r,
			"0x", "0X", "08", "09", "0b", "0b2", "0b12", "0xg", "12a", "1x", "5f", "0777778", "99999999999999999999", "0x10000000000000000", "18446744073709551616",
			"1.2.3", "1..2", "1e", "1e+", "1E-", ".", "..", "1e5e5", "1.e+", ".e5", "1e5.5", "e.5.",
			`"`, `"abc`, `"abc\"`, `"\`, `'`, `'a`, `''`, `'ab'`, `'\`, `'\'`, `'\n`, `"abc'`, `'a"`, `$`, `$"a"`, `$'abc`, `$'`, `$'\'`, `$a`,
			`"\q"`, `"\8"`, `"\'"`, `'\"'`, `$'\"'`, `"\x"`, `"\x1"`, `"\xg0"`, `"\1"`, `"\12"`, `"\128"`, `"\400"`, `'\777'`, `"\u12"`, `"\u123g"`, `"\U1234567"`, `"\U`+h[:7]+`"`, `"\x`+h[:1]+`z"`, `"\u`+h[:3]+`"`, `'\x`+h[:1]+`'`, `"\c"`, `"\ "`, `"\X41"`,
			`"\ud800"`, `'\udfff'`, `"\U00110000"`, `'\UFFFFFFFF'`, `"\U0000dabc"`, `$'\uDE00'`, fmt.Sprintf(`"\u%04x"`, 0xd800+r.n(0x800)), fmt.Sprintf(`"\U%08X"`, 0x110000+r.n(1<<31)))
		if r.p(50) {
			// Corrupt an escape at a random place of a longer string.
			s := str('"') + pick(r, `\q`, `\9`, `\'`, `\x0`, `\xg`, `\38x`, `\u00`, `\U0000`, `\777`, `\ud834\udd1e`, `\U80000041`)
			bad = `"` + s + `g` + str('"') + `"`
			if _, err := strconv.Unquote(bad); err == nil {
				return
			}
		}
		c.Distinct(hashStr(bad))
		c.Count("malformed_literals", 1)
		for _, t := range []string{bad, " " + bad, bad + " ", "1 + " + bad, "(" + bad + ")", "t == " + bad, "m[" + bad + "]"} {
			v, err, pan := evalText(res(map[string]interface{}{"t": "", "m": map[string]int{"a": 1}, "e": 1, "x": 1, "f": 1, "a": 1}), t)
			c.Eval(1)
			if pan != "" {
				c.Fail("%s escapes: %q", pan, t)
			}
			if err == nil {
				c.Fail("%q is not a valid expression, but gives %v (%T)", t, v, v)
			}
		}
	}
}

func negf(f float64) float64 { return math.Copysign(f, -1) }

func init() {
	register(&Check{ID: "C19",
		Rule:  "The first 361 cases enumerate all sequences of three of the 19 binary operators (half of them with unary operators in front of operands); go/parser says how each groups, leaf types are inferred from its tree, and results in twelve random environments must be those of that tree (counted: how many of the other groupings those environments refute). The rest are random texts made token by token, with conditionals, brackets, member, index and call postfixes, unary operators, strings and odd spacing; token-wise corrupted texts, which must be rejected where go/parser rejects them and otherwise read the same; and random literals of every form against go/constant and strconv, with malformed ones that must be rejected. Non-trivial: distinct texts.",
		Quick: 361 + 150000, Thorough: 4*361 + 2000000,
		Case: func(c *Ctx) {
			k := len(binOps) * len(binOps)
			n := k
			if c.Tier == "thorough" {
				n *= 4
			}
			if c.N < n {
				sweepOps(c, binOps[c.N%k/len(binOps)], binOps[c.N%k%len(binOps)])
				return
			}
			switch c.R.n(4) {
			case 0:
				mutateCase(c)
			case 1:
				literalCase(c)
			default:
				readCase(c)
			}
		}})
}
