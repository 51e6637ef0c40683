package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

// Ex is an expression of the reference language. Its evaluator below is written
// from the Go specification and does not share code with the one under test.
type Ex struct {
	Op      string // "lit", "id", ".", "[]", "call", "?:", "u-" "u!" "u^" "u*" "u&" "u+", or a binary operator
	A, B, C *Ex
	Args    []*Ex
	Name    string
	Lit     *RV
	Text    string // spelling of a literal
}

// RV is a reference value: typed (U == 0) or an untyped constant.
type RV struct {
	U byte // 0 typed, 'i' int, 'f' float, 'b' bool, 'n' nil
	V reflect.Value
	N *big.Int
	F float64
	P func(name string) (*RV, error) // package
	S bool                           // string literal, which goes with any string type
}

func typed(x interface{}) *RV { return &RV{V: reflect.ValueOf(x)} }

func tbool(b bool) *RV { return typed(b) }

func litInt(n int64) *Ex {
	return &Ex{Op: "lit", Lit: &RV{U: 'i', N: big.NewInt(n)}, Text: strconv.FormatInt(n, 10)}
}
func litBig(n *big.Int, text string) *Ex { return &Ex{Op: "lit", Lit: &RV{U: 'i', N: n}, Text: text} }
func litFloat(f float64, text string) *Ex {
	return &Ex{Op: "lit", Lit: &RV{U: 'f', F: f}, Text: text}
}
func litBool(b bool) *Ex {
	return &Ex{Op: "lit", Lit: &RV{U: 'b', V: reflect.ValueOf(b)}, Text: strconv.FormatBool(b)}
}
func litStr(s string) *Ex {
	return &Ex{Op: "lit", Lit: &RV{V: reflect.ValueOf(s), S: true}, Text: strconv.Quote(s)}
}
func litNil() *Ex                 { return &Ex{Op: "lit", Lit: &RV{U: 'n'}, Text: "nil"} }
func id(name string) *Ex          { return &Ex{Op: "id", Name: name} }
func dot(a *Ex, n string) *Ex     { return &Ex{Op: ".", A: a, Name: n} }
func bin(op string, a, b *Ex) *Ex { return &Ex{Op: op, A: a, B: b} }
func un(op string, a *Ex) *Ex     { return &Ex{Op: "u" + op, A: a} }
func cond(a, b, c *Ex) *Ex        { return &Ex{Op: "?:", A: a, B: b, C: c} }
func idx(a, b *Ex) *Ex            { return &Ex{Op: "[]", A: a, B: b} }
func call(a *Ex, args ...*Ex) *Ex { return &Ex{Op: "call", A: a, Args: args} }

var prec = map[string]int{
	"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"+": 4, "-": 4, "|": 4, "^": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5,
}

// level is the precedence of the outermost operator.
func (e *Ex) level() int {
	switch {
	case e.Op == "?:":
		return 0
	case e.Op == "lit":
		if strings.HasPrefix(e.Text, "-") {
			return 6
		}
		return 8
	case e.Op == "id", e.Op == ".", e.Op == "[]", e.Op == "call":
		return 8
	case e.Op[0] == 'u' && len(e.Op) > 1:
		return 6
	}
	return prec[e.Op]
}

// Source prints an expression. parens is asked whether to add redundant
// parentheses, space for the white space between tokens.
func (e *Ex) Source(parens func() bool, space func() string) string {
	var p func(e *Ex, min int) string
	p = func(e *Ex, min int) string {
		s := ""
		switch e.Op {
		case "lit":
			s = e.Text
		case "id":
			s = e.Name
		case ".":
			s = p(e.A, 8) + space() + "." + space() + e.Name
		case "[]":
			s = p(e.A, 8) + space() + "[" + space() + p(e.B, 0) + space() + "]"
		case "call":
			s = p(e.A, 8) + space() + "(" + space()
			for i, a := range e.Args {
				if i > 0 {
					s += space() + "," + space()
				}
				s += p(a, 0)
			}
			s += space() + ")"
		case "?:":
			s = p(e.A, 1) + space() + "?" + space() + p(e.B, 0) + space() + ":" + space() + p(e.C, 0)
		default:
			if e.Op[0] == 'u' && len(e.Op) > 1 {
				a := p(e.A, 6)
				// A sign or reference operator in front of another must not fuse.
				sp := space()
				if sp == "" && a != "" && (strings.ContainsRune("-+&", rune(a[0])) || e.Op == "u&" && a[0] == '^') {
					sp = " "
				}
				if e.Op == "u-" && sp == "" && a[0] >= '0' && a[0] <= '9' {
					sp = " "
				}
				s = e.Op[1:] + sp + a
				break
			}
			l := prec[e.Op]
			a, b := p(e.A, l), p(e.B, l+1)
			sl, sr := space(), space()
			if sr == "" && b != "" {
				f := e.Op[len(e.Op)-1]
				switch {
				case f == b[0], e.Op == "&" && b[0] == '^', e.Op == "<" && (b[0] == '-'):
					sr = " "
				case (e.Op == "-" || e.Op == "+") && strings.ContainsRune("+-", rune(b[0])):
					sr = " "
				}
			}
			s = a + sl + e.Op + sr + b
		}
		if e.level() < min || parens() {
			s = "(" + space() + s + space() + ")"
		}
		return s
	}
	return p(e, 0)
}

func (e *Ex) String() string {
	return e.Source(func() bool { return false }, func() string { return " " })
}

// Tight prints without any white space.
func (e *Ex) Tight() string {
	return e.Source(func() bool { return false }, func() string { return "" })
}

var (
	errDomain = errors.New("outside the reference language") // no expectation
	errEval   = errors.New("evaluation must fail")           // the real one must fail too
)

type env func(name string) (*RV, error)

func noSpace() string { return "" }

func isIntKind(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUintKind(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
func isFloatKind(k reflect.Kind) bool {
	return k == reflect.Float32 || k == reflect.Float64
}

func kindBits(k reflect.Kind) int {
	switch k {
	case reflect.Int8, reflect.Uint8, reflect.Bool:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr, reflect.Float64, reflect.Complex64:
		return 64
	case reflect.Complex128:
		return 128
	}
	return 0
}

var basicTypes = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(false), reflect.Int: reflect.TypeOf(int(0)), reflect.Int8: reflect.TypeOf(int8(0)),
	reflect.Int16: reflect.TypeOf(int16(0)), reflect.Int32: reflect.TypeOf(int32(0)), reflect.Int64: reflect.TypeOf(int64(0)),
	reflect.Uint: reflect.TypeOf(uint(0)), reflect.Uint8: reflect.TypeOf(uint8(0)), reflect.Uint16: reflect.TypeOf(uint16(0)),
	reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)), reflect.Uintptr: reflect.TypeOf(uintptr(0)),
	reflect.Float32: reflect.TypeOf(float32(0)), reflect.Float64: reflect.TypeOf(float64(0)), reflect.String: reflect.TypeOf(""),
	reflect.Complex64: reflect.TypeOf(complex64(0)), reflect.Complex128: reflect.TypeOf(complex128(0)),
}

// wrapInt makes a value of basic kind k from the low bits of n.
func wrapInt(n *big.Int, k reflect.Kind) reflect.Value {
	m := new(big.Int).And(n, new(big.Int).SetUint64(^uint64(0)))
	v := reflect.New(basicTypes[k]).Elem()
	if isIntKind(k) {
		b := uint(64 - kindBits(k))
		v.SetInt(int64(m.Uint64()<<b) >> b)
	} else {
		b := uint(64 - kindBits(k))
		v.SetUint(m.Uint64() << b >> b)
	}
	return v
}

func fits(n *big.Int, k reflect.Kind) bool {
	return bigOf(wrapInt(n, k)).Cmp(n) == 0
}

func bigOf(v reflect.Value) *big.Int {
	if isIntKind(v.Kind()) {
		return big.NewInt(v.Int())
	}
	return new(big.Int).SetUint64(v.Uint())
}

// asTyped gives a constant the type it has on its own.
func (r *RV) asTyped() (*RV, error) {
	switch r.U {
	case 'i':
		if !fits(r.N, reflect.Int) {
			// The documented language has int and uint64 constants only.
			return nil, errDomain
		}
		return &RV{V: wrapInt(r.N, reflect.Int)}, nil
	case 'f':
		return typed(r.F), nil
	case 'b':
		return &RV{V: r.V}, nil
	case 'n':
		return nil, errDomain
	}
	return r, nil
}

// adopt converts an untyped constant to type t.
func (r *RV) adopt(t reflect.Type) (*RV, error) {
	k := t.Kind()
	switch r.U {
	case 'i':
		switch {
		case isIntKind(k) || isUintKind(k):
			if !fits(r.N, k) {
				return nil, errDomain // a compile error in Go
			}
			return &RV{V: wrapInt(r.N, k).Convert(t)}, nil
		case isFloatKind(k):
			f, _ := new(big.Float).SetInt(r.N).Float64()
			return &RV{V: reflect.ValueOf(f).Convert(t)}, nil
		}
	case 'f':
		if isFloatKind(k) {
			return &RV{V: reflect.ValueOf(r.F).Convert(t)}, nil
		}
	case 'b':
		if k == reflect.Bool {
			return &RV{V: r.V.Convert(t)}, nil
		}
	case 'n':
		switch k {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func:
			return &RV{V: reflect.Zero(t)}, nil
		}
	}
	return nil, errEval
}

// unify brings two operands to one type.
func unify(a, b *RV) (*RV, *RV, error) {
	var err error
	switch {
	case a.P != nil || b.P != nil:
		return nil, nil, errDomain
	case a.U != 0 && b.U != 0:
		if a.U != b.U {
			return nil, nil, errDomain // mixed untyped constants
		}
		if a, err = a.asTyped(); err != nil {
			return nil, nil, err
		}
		b, err = b.asTyped()
		return a, b, err
	case a.U != 0:
		a, err = a.adopt(b.V.Type())
		return a, b, err
	case b.U != 0:
		b, err = b.adopt(a.V.Type())
		return a, b, err
	}
	if a.S && b.V.Kind() == reflect.String {
		a = &RV{V: a.V.Convert(b.V.Type())}
	}
	if b.S && a.V.Kind() == reflect.String || a.V.Kind() == reflect.Bool && b.V.Kind() == reflect.Bool {
		b = &RV{V: b.V.Convert(a.V.Type())}
	}
	if a.V.Type() != b.V.Type() {
		if a.V.Kind() == b.V.Kind() {
			return nil, nil, errDomain // different named types: a compile error in Go
		}
		return nil, nil, errEval
	}
	return a, b, nil
}

func num[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](op string, a, b T) (interface{}, error) {
	switch op {
	case "+":
		return a + b, nil
	case "-":
		return a - b, nil
	case "*":
		return a * b, nil
	case "/":
		if b == 0 {
			return nil, errEval
		}
		return a / b, nil
	case "%":
		if b == 0 {
			return nil, errEval
		}
		return a % b, nil
	case "&":
		return a & b, nil
	case "|":
		return a | b, nil
	case "^":
		return a ^ b, nil
	case "&^":
		return a &^ b, nil
	case "==":
		return a == b, nil
	case "!=":
		return a != b, nil
	case "<":
		return a < b, nil
	case "<=":
		return a <= b, nil
	case ">":
		return a > b, nil
	case ">=":
		return a >= b, nil
	}
	return nil, errEval
}

func flt[T ~float32 | ~float64](op string, a, b T) (interface{}, error) {
	switch op {
	case "+":
		return a + b, nil
	case "-":
		return a - b, nil
	case "*":
		return a * b, nil
	case "/":
		return a / b, nil
	case "==":
		return a == b, nil
	case "!=":
		return a != b, nil
	case "<":
		return a < b, nil
	case "<=":
		return a <= b, nil
	case ">":
		return a > b, nil
	case ">=":
		return a >= b, nil
	}
	return nil, errEval
}

func binop(op string, a, b *RV) (*RV, error) {
	a, b, err := unify(a, b)
	if err != nil {
		return nil, err
	}
	var r interface{}
	x, y := a.V, b.V
	switch x.Kind() {
	case reflect.Int:
		r, err = num(op, int(x.Int()), int(y.Int()))
	case reflect.Int8:
		r, err = num(op, int8(x.Int()), int8(y.Int()))
	case reflect.Int16:
		r, err = num(op, int16(x.Int()), int16(y.Int()))
	case reflect.Int32:
		r, err = num(op, int32(x.Int()), int32(y.Int()))
	case reflect.Int64:
		r, err = num(op, x.Int(), y.Int())
	case reflect.Uint:
		r, err = num(op, uint(x.Uint()), uint(y.Uint()))
	case reflect.Uint8:
		r, err = num(op, uint8(x.Uint()), uint8(y.Uint()))
	case reflect.Uint16:
		r, err = num(op, uint16(x.Uint()), uint16(y.Uint()))
	case reflect.Uint32:
		r, err = num(op, uint32(x.Uint()), uint32(y.Uint()))
	case reflect.Uint64:
		r, err = num(op, x.Uint(), y.Uint())
	case reflect.Uintptr:
		r, err = num(op, uintptr(x.Uint()), uintptr(y.Uint()))
	case reflect.Float32:
		r, err = flt(op, float32(x.Float()), float32(y.Float()))
	case reflect.Float64:
		r, err = flt(op, x.Float(), y.Float())
	case reflect.String:
		switch op {
		case "==":
			r = x.String() == y.String()
		case "!=":
			r = x.String() != y.String()
		case "+":
			r = x.String() + y.String()
		case "<", "<=", ">", ">=":
			return nil, errDomain
		default:
			return nil, errEval
		}
	case reflect.Bool:
		switch op {
		case "==":
			r = x.Bool() == y.Bool()
		case "!=":
			r = x.Bool() != y.Bool()
		default:
			return nil, errEval
		}
	case reflect.Slice, reflect.Map, reflect.Func:
		if a.V.IsNil() || b.V.IsNil() {
			switch op {
			case "==":
				return tbool(a.V.IsNil() && b.V.IsNil()), nil
			case "!=":
				return tbool(!(a.V.IsNil() && b.V.IsNil())), nil
			}
		}
		if op == "==" || op == "!=" {
			return nil, errDomain
		}
		return nil, errEval
	default:
		if !x.Type().Comparable() {
			return nil, errEval
		}
		if !x.CanInterface() {
			return nil, errDomain
		}
		switch op {
		case "==":
			r = x.Interface() == y.Interface()
		case "!=":
			r = x.Interface() != y.Interface()
		default:
			return nil, errEval
		}
	}
	if err != nil {
		return nil, err
	}
	return typed(r), nil
}

func shift(op string, a, b *RV) (*RV, error) {
	var err error
	if a, err = a.asTyped(); err != nil {
		return nil, err
	}
	if b, err = b.asTyped(); err != nil {
		return nil, err
	}
	if a.P != nil || b.P != nil {
		return nil, errDomain
	}
	k := b.V.Kind()
	if !isIntKind(k) && !isUintKind(k) {
		return nil, errEval
	}
	n := bigOf(b.V)
	if n.Sign() < 0 {
		return nil, errEval
	}
	k = a.V.Kind()
	if !isIntKind(k) && !isUintKind(k) {
		return nil, errEval
	}
	cnt := uint(200)
	if n.IsUint64() && n.Uint64() < 200 {
		cnt = uint(n.Uint64())
	}
	x := bigOf(a.V)
	if op == "<<" {
		x = new(big.Int).Lsh(x, cnt)
	} else {
		x = new(big.Int).Rsh(x, cnt) // floors, like an arithmetic shift
	}
	return &RV{V: wrapInt(x, k)}, nil
}

func indexVal(r *RV) (int, error) {
	if r.U == 'i' {
		if !fits(r.N, reflect.Int) {
			return 0, errDomain
		}
		return int(r.N.Int64()), nil
	}
	if r.U != 0 || r.P != nil {
		return 0, errEval
	}
	if !isIntKind(r.V.Kind()) && !isUintKind(r.V.Kind()) {
		return 0, errEval
	}
	n := bigOf(r.V)
	if !n.IsInt64() {
		return 0, errEval
	}
	return int(n.Int64()), nil
}

// Eval computes the value of an expression.
// refEvals counts evaluations.
var refEvals int

func (e *Ex) Eval(en env) (*RV, error) {
	refEvals++
	switch e.Op {
	case "lit":
		return e.Lit, nil
	case "id":
		return en(e.Name)
	case ".":
		a, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		if a.P != nil {
			return a.P(e.Name)
		}
		if a.U != 0 {
			return nil, errEval
		}
		v := a.V
		for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return nil, errEval
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return nil, errEval
		}
		f, ok := v.Type().FieldByName(e.Name)
		if !ok {
			return nil, errEval
		}
		if f.PkgPath != "" {
			return nil, errDomain
		}
		fv, err := v.FieldByIndexErr(f.Index)
		if err != nil {
			return nil, errEval
		}
		return &RV{V: fv}, nil
	case "[]":
		a, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		b, err := e.B.Eval(en)
		if err != nil {
			return nil, err
		}
		if a.U != 0 || a.P != nil {
			return nil, errEval
		}
		switch a.V.Kind() {
		case reflect.String:
			i, err := indexVal(b)
			if err != nil {
				return nil, err
			}
			if s := a.V.String(); i >= 0 && i < len(s) {
				return typed(s[i]), nil
			}
			return nil, errEval
		case reflect.Array, reflect.Slice:
			i, err := indexVal(b)
			if err != nil {
				return nil, err
			}
			if i >= 0 && i < a.V.Len() {
				return &RV{V: a.V.Index(i)}, nil
			}
			return nil, errEval
		case reflect.Map:
			if b.U != 0 {
				if b, err = b.adopt(a.V.Type().Key()); err != nil {
					return nil, err
				}
			}
			if b.P != nil {
				return nil, errEval
			}
			if b.V.Type() != a.V.Type().Key() {
				return nil, errDomain
			}
			if v := a.V.MapIndex(b.V); v.IsValid() {
				return &RV{V: v}, nil
			}
			return &RV{V: reflect.Zero(a.V.Type().Elem())}, nil
		}
		return nil, errEval
	case "call":
		f, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		if f.U != 0 || f.P != nil || f.V.Kind() != reflect.Func || f.V.IsNil() {
			return nil, errEval
		}
		t := f.V.Type()
		if t.IsVariadic() {
			return nil, errDomain
		}
		if t.NumIn() != len(e.Args) || t.NumOut() != 1 {
			return nil, errEval
		}
		var in []reflect.Value
		for i, a := range e.Args {
			v, err := a.Eval(en)
			if err != nil {
				return nil, err
			}
			if v.P != nil {
				return nil, errEval
			}
			if v.U != 0 {
				if v, err = v.adopt(t.In(i)); err != nil {
					return nil, err
				}
			} else if v.V.Type() != t.In(i) {
				if v.V.Kind() == t.In(i).Kind() {
					return nil, errDomain
				}
				return nil, errEval
			}
			in = append(in, v.V)
		}
		return &RV{V: f.V.Call(in)[0]}, nil
	case "?:":
		a, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		if a.P != nil || a.U != 0 && a.U != 'b' || a.V.Kind() != reflect.Bool {
			return nil, errEval
		}
		if a.V.Bool() {
			return e.B.Eval(en)
		}
		return e.C.Eval(en)
	case "&&", "||":
		a, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		if a.P != nil || a.U != 0 && a.U != 'b' || a.V.Kind() != reflect.Bool {
			return nil, errEval
		}
		if a.V.Bool() == (e.Op == "||") {
			return tbool(a.V.Bool()), nil
		}
		b, err := e.B.Eval(en)
		if err != nil {
			return nil, err
		}
		if b.P != nil || b.U != 0 && b.U != 'b' || b.V.Kind() != reflect.Bool {
			return nil, errEval
		}
		return tbool(b.V.Bool()), nil
	}
	if e.Op[0] == 'u' && len(e.Op) > 1 {
		a, err := e.A.Eval(en)
		if err != nil {
			return nil, err
		}
		return unop(e.Op[1:], a)
	}
	a, err := e.A.Eval(en)
	if err != nil {
		return nil, err
	}
	b, err := e.B.Eval(en)
	if err != nil {
		return nil, err
	}
	if e.Op == "<<" || e.Op == ">>" {
		return shift(e.Op, a, b)
	}
	return binop(e.Op, a, b)
}

func unop(op string, a *RV) (*RV, error) {
	if a.P != nil {
		return nil, errEval
	}
	switch op {
	case "+":
		switch {
		case a.U == 'i', a.U == 'f', a.U == 0 && (isIntKind(a.V.Kind()) || isUintKind(a.V.Kind()) || isFloatKind(a.V.Kind())):
			return a, nil
		}
		return nil, errDomain // unary plus is not checked
	case "-":
		switch {
		case a.U == 'i':
			n := new(big.Int).Neg(a.N)
			if !fits(n, reflect.Int) || !fits(a.N, reflect.Int) {
				return nil, errDomain
			}
			return &RV{U: 'i', N: n}, nil
		case a.U == 'f':
			return &RV{U: 'f', F: -a.F}, nil
		case a.U != 0:
			return nil, errEval
		case isIntKind(a.V.Kind()) || isUintKind(a.V.Kind()):
			return &RV{V: wrapInt(new(big.Int).Neg(bigOf(a.V)), a.V.Kind())}, nil
		case a.V.Kind() == reflect.Float32:
			return typed(-float32(a.V.Float())), nil
		case a.V.Kind() == reflect.Float64:
			return typed(-a.V.Float()), nil
		}
	case "!":
		if a.U == 'b' || a.U == 0 && a.V.Kind() == reflect.Bool {
			if a.U == 'b' {
				return &RV{U: 'b', V: reflect.ValueOf(!a.V.Bool())}, nil
			}
			return tbool(!a.V.Bool()), nil
		}
	case "^":
		switch {
		case a.U == 'i':
			if !fits(a.N, reflect.Int) {
				return nil, errDomain
			}
			return &RV{U: 'i', N: new(big.Int).Not(a.N)}, nil
		case a.U == 0 && (isIntKind(a.V.Kind()) || isUintKind(a.V.Kind())):
			return &RV{V: wrapInt(new(big.Int).Not(bigOf(a.V)), a.V.Kind())}, nil
		}
	case "*":
		if a.U == 0 && a.V.Kind() == reflect.Ptr {
			if a.V.IsNil() {
				return nil, errEval
			}
			return &RV{V: a.V.Elem()}, nil
		}
	case "&":
		if a.U == 0 && a.V.CanAddr() {
			return &RV{V: a.V.Addr()}, nil
		}
		return nil, errDomain // addressability depends on the resolver
	}
	return nil, errEval
}

// structEnv resolves names in a struct value, then in the bits package.
func structEnv(v reflect.Value, eof func() bool) env {
	return func(name string) (*RV, error) {
		switch name {
		case "_eof":
			if eof == nil {
				return nil, errDomain
			}
			return tbool(eof()), nil
		case "bits":
			return &RV{P: bitsFunc}, nil
		}
		if !v.IsValid() {
			return nil, errEval
		}
		f, ok := v.Type().FieldByName(name)
		if !ok {
			return nil, errEval
		}
		if f.PkgPath != "" {
			return nil, errDomain
		}
		fv, err := v.FieldByIndexErr(f.Index)
		if err != nil {
			return nil, errEval
		}
		return &RV{V: fv}, nil
	}
}

var bitsFuncs = map[string]interface{}{
	"LeadingZeros": bits.LeadingZeros, "LeadingZeros8": bits.LeadingZeros8, "LeadingZeros16": bits.LeadingZeros16, "LeadingZeros32": bits.LeadingZeros32, "LeadingZeros64": bits.LeadingZeros64,
	"Len": bits.Len, "Len8": bits.Len8, "Len16": bits.Len16, "Len32": bits.Len32, "Len64": bits.Len64,
	"OnesCount": bits.OnesCount, "OnesCount8": bits.OnesCount8, "OnesCount16": bits.OnesCount16, "OnesCount32": bits.OnesCount32, "OnesCount64": bits.OnesCount64,
	"Reverse": bits.Reverse, "Reverse8": bits.Reverse8, "Reverse16": bits.Reverse16, "Reverse32": bits.Reverse32, "Reverse64": bits.Reverse64,
	"ReverseBytes": bits.ReverseBytes, "ReverseBytes16": bits.ReverseBytes16, "ReverseBytes32": bits.ReverseBytes32, "ReverseBytes64": bits.ReverseBytes64,
	"RotateLeft": bits.RotateLeft, "RotateLeft8": bits.RotateLeft8, "RotateLeft16": bits.RotateLeft16, "RotateLeft32": bits.RotateLeft32, "RotateLeft64": bits.RotateLeft64,
	"TrailingZeros": bits.TrailingZeros, "TrailingZeros8": bits.TrailingZeros8, "TrailingZeros16": bits.TrailingZeros16, "TrailingZeros32": bits.TrailingZeros32, "TrailingZeros64": bits.TrailingZeros64,
}

func bitsFunc(name string) (*RV, error) {
	if f, ok := bitsFuncs[name]; ok {
		return typed(f), nil
	}
	return nil, errEval
}

// parseRef parses the Go subset of the language with go/parser, for the
// hand-written definitions. Ternaries are not supported.
func parseRef(text string) *Ex {
	t := text
	for {
		i := strings.Index(t, "$'")
		if i < 0 {
			break
		}
		j := strings.Index(t[i+2:], "'")
		t = t[:i] + strconv.Quote(t[i+2:i+2+j]) + t[i+2+j+1:]
	}
	n, err := parser.ParseExpr(t)
	if err != nil {
		panic(fmt.Sprintf("parseRef %q: %v", text, err))
	}
	return fromGo(n)
}

func fromGo(n ast.Expr) *Ex {
	switch n := n.(type) {
	case *ast.ParenExpr:
		return fromGo(n.X)
	case *ast.Ident:
		switch n.Name {
		case "true":
			return litBool(true)
		case "false":
			return litBool(false)
		case "nil":
			return litNil()
		}
		return id(n.Name)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				panic(n.Value)
			}
			return litBig(b, n.Value)
		case token.FLOAT:
			f, _ := strconv.ParseFloat(n.Value, 64)
			return litFloat(f, n.Value)
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return litStr(s)
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			return litBig(big.NewInt(int64(r)), n.Value)
		}
	case *ast.UnaryExpr:
		if !strings.Contains("+-!^", n.Op.String()) {
			break
		}
		return un(n.Op.String(), fromGo(n.X))
	case *ast.StarExpr:
		return un("*", fromGo(n.X))
	case *ast.BinaryExpr:
		return bin(n.Op.String(), fromGo(n.X), fromGo(n.Y))
	case *ast.SelectorExpr:
		switch n.Sel.Name {
		case "true", "false", "nil":
			panic("keyword")
		}
		return dot(fromGo(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		return idx(fromGo(n.X), fromGo(n.Index))
	case *ast.CallExpr:
		var args []*Ex
		for _, a := range n.Args {
			args = append(args, fromGo(a))
		}
		return call(fromGo(n.Fun), args...)
	}
	panic(fmt.Sprintf("unsupported syntax %T", n))
}
