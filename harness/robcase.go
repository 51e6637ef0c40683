package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/go-restruct/restruct/expr"
)

// This file evaluates hostile texts against hostile values.

// snap prints a value with everything that can be reached from it.
func snap(v reflect.Value) string {
	var b strings.Builder
	seen := map[unsafe.Pointer]bool{}
	var p func(v reflect.Value)
	p = func(v reflect.Value) {
		if v.IsValid() && strings.HasSuffix(v.Type().PkgPath(), "/expr") {
			b.WriteString(v.Type().String()) // opaque
			return
		}
		switch v.Kind() {
		case reflect.Invalid:
			b.WriteString("invalid")
		case reflect.Ptr:
			fmt.Fprintf(&b, "%p", v.UnsafePointer())
			if !v.IsNil() && !seen[v.UnsafePointer()] {
				seen[v.UnsafePointer()] = true
				b.WriteString("&")
				p(v.Elem())
			}
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString(v.Elem().Type().String())
			p(v.Elem())
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				p(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice:
			fmt.Fprintf(&b, "%d/%d/%p", v.Len(), v.Cap(), v.UnsafePointer())
			fallthrough
		case reflect.Array:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				p(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			b.WriteString("map[")
			for _, k := range ks {
				p(k)
				b.WriteString(":")
				p(v.MapIndex(k))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprintf(&b, "%v", v.IsNil())
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&b, "%b", v.Float())
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Bool:
			fmt.Fprintf(&b, "%v", v.Bool())
		case reflect.Complex64, reflect.Complex128:
			fmt.Fprintf(&b, "%v", v.Complex())
		default:
			if isIntKind(v.Kind()) {
				fmt.Fprintf(&b, "%d", v.Int())
			} else {
				fmt.Fprintf(&b, "%d", v.Uint())
			}
		}
	}
	p(v)
	return b.String()
}

type hidden struct {
	A int
	b int
	c *hidden
}

func (h hidden) Get() int   { return h.b }
func (h *hidden) Set(n int) { h.b = n }

type withIface struct {
	A int
	I interface{}
	E error
}

type withChan struct {
	A int
	C chan int
}

type withComplex struct {
	A int
	Z complex128
}

type loop struct {
	V    int
	Next *loop
	All  []*loop
	By   map[string]*loop
	F    func(*loop) *loop
}

type embedsNil struct {
	*hidden
	V int
}

type selfSlice []selfSlice
type selfMap map[string]selfMap
type selfPtr *selfPtr
type selfFunc func(selfFunc) selfFunc

type valueErr struct{ n *int }

func (e valueErr) Error() string { return fmt.Sprint(*e.n) } // panics

// hostileVars makes variables that go wrong in all kinds of ways.
func hostileVars(r *rng) map[string]interface{} {
	l := &loop{V: 1, F: func(x *loop) *loop { return x }}
	l.Next = &loop{V: 2, Next: l}
	l.All = []*loop{l, nil, l.Next}
	l.By = map[string]*loop{"a": l, "n": nil}
	var sp selfPtr
	sp = selfPtr(&sp)
	var nilLoop *loop
	return map[string]interface{}{
		"boom":  func() int { panic("boom") },
		"booms": func(x int) int { panic(errors.New("boom")) },
		"boomn": func(x int) int { panic(&x) },
		"boome": func() int { panic(valueErr{}) },
		"idx":   func(i int) int { return []int{1, 2, 3}[i] },
		"void":  func() {},
		"two":   func() (int, int) { return 1, 2 },
		"erro":  func() (int, error) { return 0, errors.New("no") },
		"vari":  func(xs ...int) int { return len(xs) },
		"varis": func(s string, xs ...int) int { return len(xs) },
		"nilp":  func() *loop { return nil },
		"any":   func(x interface{}) int { return 1 },
		"gen":   func() interface{} { return 7 },
		"nilf":  (func() int)(nil),
		"ch":    make(chan int),
		"cplx":  complex(1, 2),
		"uptr":  unsafe.Pointer(l),
		"hid":   hidden{A: 1, b: 2},
		"phid":  &hidden{A: 1, b: 2},
		"ifc":   withIface{A: 1, I: 2},
		"chs":   withChan{A: 1},
		"cps":   withComplex{A: 1},
		"loop":  l,
		"nloop": nilLoop,
		"emb":   embedsNil{V: 3},
		"ssl":   selfSlice{selfSlice{}, nil},
		"smp":   selfMap{"a": nil, "b": selfMap{}},
		"sptr":  sp,
		"sfn":   selfFunc(func(f selfFunc) selfFunc { return f }),
		"null":  nil,
		"rv":    reflect.ValueOf(1),
		"pkg":   expr.NewPackage(map[string]expr.Value{"one": expr.ValueOf(1), "f": expr.ValueOf(func(x int) int { return x / (x - 1) }), "sub": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"two": expr.ValueOf(2)}))}),
		"e0":    struct{}{},
		"a0":    [0]int{},
		"nsl":   []int(nil),
		"nmap":  map[string]int(nil),
		"fkey":  map[float64]int{0.5: 1},
		"skey":  map[pt[int]]int{{1, 2}: 3},
		"ikey":  map[interface{}]int{1: 2},
		"pkey":  map[*int]int{nil: 3},
		"str":   "héllo",
		"big":   ^uint64(0),
		"min":   int64(-1) << 63,
		"zero":  0,
		"zu8":   uint8(0),
		"fz":    0.0,
		"mat":   [2][2]int{{1, 2}, {3, 4}},
		"bs":    []byte("abc"),
		"nstr":  NString("n"),
		"ppp":   func() ***int { x := 1; y := &x; z := &y; return &z }(),
		"ns":    make([]*int, 3),
	}
}

// lazy resolves by reflection at the time of the call; what cannot be
// represented panics in it.
func lazy(vars map[string]interface{}) expr.Resolver {
	return funcResolver(func(name string) expr.Value {
		if name == "resolverpanic" {
			panic("resolver")
		}
		v, ok := vars[name]
		if !ok {
			return nil
		}
		return expr.ValueOf(v)
	})
}

// twist copies variables, giving many of them other values of the same types.
func twist(r *rng, vars map[string]interface{}) map[string]interface{} {
	memo := map[unsafe.Pointer]reflect.Value{}
	var do func(d, s reflect.Value, depth int)
	do = func(d, s reflect.Value, depth int) {
		d.Set(s)
		change := r.p(50)
		switch k := s.Kind(); {
		case depth > 5:
		case k == reflect.Bool && change:
			d.SetBool(!s.Bool())
		case isIntKind(k) && change:
			d.SetInt(pick(r, s.Int()+1, -s.Int(), int64(r.n(3)), int64(r.u64())))
		case isUintKind(k) && change:
			d.SetUint(pick(r, s.Uint()+1, ^s.Uint(), uint64(r.n(3)), r.u64()))
		case isFloatKind(k) && change:
			d.SetFloat(pick(r, -s.Float(), s.Float()+1, 0))
		case k == reflect.String && change:
			d.SetString(pick(r, "", "a", s.String()+"x"))
		case k == reflect.Struct:
			for i := 0; i < s.NumField(); i++ {
				if d.Field(i).CanSet() {
					do(d.Field(i), s.Field(i), depth+1)
				}
			}
		case k == reflect.Array:
			for i := 0; i < s.Len(); i++ {
				do(d.Index(i), s.Index(i), depth+1)
			}
		case k == reflect.Slice && s.Len() > 0:
			d.Set(reflect.MakeSlice(s.Type(), s.Len(), s.Len()))
			for i := 0; i < s.Len(); i++ {
				do(d.Index(i), s.Index(i), depth+1)
			}
		case k == reflect.Map && s.Len() > 0:
			d.Set(reflect.MakeMap(s.Type()))
			ks := s.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, key := range ks {
				x := reflect.New(s.Type().Elem()).Elem()
				do(x, s.MapIndex(key), depth+1)
				d.SetMapIndex(key, x)
			}
		case k == reflect.Ptr && !s.IsNil():
			if strings.HasSuffix(s.Type().Elem().PkgPath(), "/expr") {
				break
			}
			p, ok := memo[s.UnsafePointer()]
			if !ok || p.Type() != s.Type() {
				p = reflect.New(s.Type().Elem()).Convert(s.Type())
				memo[s.UnsafePointer()] = p
				do(p.Elem(), s.Elem(), depth+1)
			}
			d.Set(p)
		}
	}
	out := map[string]interface{}{}
	for _, n := range vocab(vars) {
		out[n] = vars[n]
		v := reflect.ValueOf(vars[n])
		if !v.IsValid() || strings.HasSuffix(v.Type().PkgPath(), "/expr") || v.Type() == reflect.TypeOf(reflect.Value{}) {
			continue
		}
		d := reflect.New(v.Type()).Elem()
		do(d, v, 0)
		out[n] = d.Interface()
	}
	return out
}

// soup is a random tree over all names and operators, mostly ill-typed.
func soup(r *rng, names []string, depth int) *Ex {
	if depth <= 0 || r.p(15) {
		switch r.n(9) {
		case 0:
			return litInt(int64(pick(r, 0, 1, 2, 3, 255, 1<<31, 1<<62)))
		case 1:
			return litStr(pick(r, "a", "", "n", "k"))
		case 2:
			return litBool(r.p(50))
		case 3:
			return pick(r, litNil(), litFloat(1.5, "1.5"), litFloat(0, "0.0"))
		case 4:
			return pick(r, id("missing"), id("yes"), id("no"))
		}
		return id(names[r.n(len(names))])
	}
	s := func() *Ex { return soup(r, names, depth-1) }
	switch r.n(12) {
	case 0, 1:
		return un(pick(r, "-", "!", "^", "*", "&", "+", "*"), s())
	case 2, 3:
		return idx(s(), s())
	case 4, 5:
		var args []*Ex
		for i := r.weighted([]int{30, 40, 20, 10}); i > 0; i-- {
			args = append(args, s())
		}
		return call(s(), args...)
	case 6, 7:
		return dot(s(), pick(r, "V", "A", "b", "c", "Next", "All", "By", "F", "X", "Y", "P", "one", "f", "sub", "two", "Get", "Set", "I", "Len", "Missing", "hidden", "M", "S"))
	case 8:
		return cond(s(), s(), s())
	}
	return bin(pick(r, binOps...), s(), s())
}

// logic is a small condition with constants in it.
func logic(r *rng, depth int) *Ex {
	if depth <= 0 || r.p(20) {
		switch r.n(8) {
		case 0, 1:
			return litBool(r.p(50))
		case 2:
			return bin(pick(r, cmpOps...), id("zero"), litInt(int64(r.n(2))))
		case 3:
			return bin(pick(r, cmpOps...), litInt(1), litInt(int64(r.n(2))))
		case 4:
			return call(id("boom"))
		}
		return id(pick(r, "yes", "no"))
	}
	s := func() *Ex { return logic(r, depth-1) }
	switch r.n(6) {
	case 0:
		return un("!", s())
	case 1:
		return cond(s(), s(), s())
	case 2:
		return bin(pick(r, "==", "!="), s(), s())
	}
	return bin(pick(r, "&&", "||"), s(), s())
}

var soupToks = []string{"(", ")", "[", "]", ".", ",", "?", ":", "+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!",
	"0", "1", "2", "18446744073709551615", "0x7f", "1.5", "1e9", "'a'", "\"a\"", "$'a'", "true", "false", "nil", "int", "uint8", "string", "_", "$", "@", "#", "=", "\\", "\n", "\x00", "é", "\xff", "'", "\"", "0x", "1e", "..", "9999999999999999999999", "-9223372036854775808", "-1", "--", "$$", "{", "}", "`", "~"}

// nest makes long and deeply nested texts. want is nil if any outcome will do.
func nest(r *rng, n int) (text string, want interface{}) {
	rep := strings.Repeat
	switch r.n(24) {
	case 0:
		return rep("(", n) + "one" + rep(")", n), 1
	case 1:
		return rep("-", n) + "one", nil
	case 2:
		return rep("!", n) + "t", n%2 == 0
	case 3:
		return "one" + rep("+one", n), n + 1
	case 4:
		return rep("one+(", n) + "one" + rep(")", n), n + 1
	case 5:
		return "loop" + rep(".Next", n) + ".V", 1 + n%2
	case 6:
		return rep("id(", n) + "one" + rep(")", n), 1
	case 7:
		return rep("t?", n) + "one" + rep(":one", n), 1
	case 8:
		return rep("t?one:", n) + "one", 1
	case 9:
		return rep("arr[", n) + "0" + rep("]", n), nil
	case 10:
		return `"` + rep("x", n) + `"`, rep("x", n)
	case 11:
		return `"` + rep(`\x41`, n) + `"`, rep("A", n)
	case 12:
		return rep("(", n), nil
	case 13:
		return rep("[", n), nil
	case 14:
		return rep("one.", n), nil
	case 15:
		return rep("*", n) + "loop", nil
	case 16:
		return rep("^", n) + "one", []int{1, ^1}[n%2]
	case 17:
		return "t" + rep("&&t", n), true
	case 18:
		return "f" + rep("||f", n), false
	case 19:
		return rep("a", n), nil
	case 20:
		return rep("9", n), nil
	case 21:
		return rep(" ", n) + "one" + rep("\t", n), 1
	case 22:
		return rep("one?", n), nil
	}
	return "one" + rep("-one", n), 1 - n
}

func vocab(vars map[string]interface{}) []string {
	var ns []string
	for n := range vars {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func robust(c *Ctx) {
	r := c.R
	vars := hostileVars(r)
	for n, v := range pKind(r).penv(r) {
		if _, ok := vars[n]; !ok {
			vars[n] = v
		}
	}
	vars["yes"], vars["no"] = r.p(50), r.p(50)
	var text string
	var want interface{}
	large := false
	bytesOf := func(s string) string { // byte-wise corruption
		b := []byte(s)
		for i := r.weighted([]int{0, 40, 30, 20, 10}); i > 0; i-- {
			j := r.n(len(b) + 1)
			switch r.n(4) {
			case 0:
				if j < len(b) {
					b = append(b[:j:j], b[j+1:]...)
				}
			case 1:
				b = append(b[:j:j], append([]byte{byte(r.u64())}, b[j:]...)...)
			case 2:
				if j < len(b) {
					b[j] = byte(r.u64())
				}
			default:
				b = append(b[:j:j], append([]byte(pick(r, soupToks...)), b[j:]...)...)
			}
		}
		return string(b)
	}
	mode := r.weighted([]int{20, 20, 25, 20, 5, 5})
	if c.N%997 == 7 {
		mode = 6
	}
	switch mode {
	case 0:
		names := vocab(vars)
		var ts []string
		for i := r.in(0, 20); i > 0; i-- {
			if r.p(50) {
				ts = append(ts, names[r.n(len(names))])
			} else {
				ts = append(ts, pick(r, soupToks...))
			}
		}
		text = strings.Join(ts, pick(r, "", " "))
		c.Count("token_soups", 1)
	case 1:
		g := &pgen{r: r, k: pKind(r)}
		t, _ := g.tern(r.n(3), g.bools)
		renameFields(t.real)
		text = bytesOf(join(r, t.real))
		c.Count("corrupted_texts", 1)
	case 2:
		if r.p(25) {
			text = logic(r, 3).String()
		} else {
			text = soup(r, vocab(vars), r.in(1, 4)).String()
		}
		c.Count("ill_typed_trees", 1)
	case 3:
		g := &tgen{r: r, vars: vars, slots: map[string]interface{}{}}
		n := g.typed(pick(r, kinds...), r.in(1, 3))
		text = n.e.String()
		if r.p(70) {
			text = bytesOf(text)
		}
		c.Count("corrupted_typed_expressions", 1)
	case 4:
		text = string(r.bytes(r.n(40)))
		c.Count("random_bytes", 1)
	case 5:
		text, want = nest(r, r.in(0, 60))
		vars = nestVars()
		c.Count("nested_texts", 1)
	default:
		n := pick(r, 1000, 4000, 16000, 60000)
		if r.p(20) || c.Tier == "thorough" && r.p(50) {
			n = pick(r, 99990, 100010, 200000, 400000)
		}
		text, want = nest(r, n)
		if len(text) > 100000 && (strings.HasPrefix(text, "aaa") || strings.HasPrefix(text, "999")) {
			text = text[:60000]
		}
		large = n > 16000
		vars = nestVars()
		c.Count("huge_texts", 1)
		c.Count("huge_text_bytes", len(text))
	}
	c.Distinct(hashStr(text))
	short := text
	if len(short) > 300 {
		short = short[:150] + fmt.Sprintf("...(%d bytes)...", len(text)) + short[len(short)-50:]
	}
	c.Sample("%q", short)
	before := snap(reflect.ValueOf(vars))
	res := lazy(vars)
	v, err, pan := evalText(res, text)
	c.Eval(1)
	if pan != "" {
		c.Fail("%s escapes from Eval: %q", pan, short)
		return
	}
	if large && err != nil { // it may be too much
		want = nil
	}
	if want != nil && (err != nil || !sameConst(v, want, true)) {
		c.Fail("%q gives %.60v, %v; want %.60v", short, v, err, want)
	}
	if err == nil {
		c.Count("values", 1)
	} else {
		c.Count("errors", 1)
	}
	first := outcome(v, err)
	again := func(how string, v interface{}, err error, pan string) {
		c.Eval(1)
		if pan != "" {
			c.Fail("%s escapes from %s: %q", pan, how, short)
		} else if o := outcome(v, err); o != first {
			c.Fail("%s of %q gives %.200s after %.200s", how, short, o, first)
		}
	}
	if prog, p := parseText(text); p == "" && prog != nil {
		if r.p(30) { // in another environment
			res2 := lazy(twist(r, vars))
			v2, err2, pan2 := evalText(res2, text)
			for i := r.n(2); i >= 0 && pan2 == ""; i-- {
				v3, err3, pan3 := evalProg(res2, prog)
				if i == 1 {
					v4, err4, pan4 := evalProg(res, prog)
					again("EvalProgram, after the same with other values,", v4, err4, pan4)
				}
				c.Eval(1)
				if a, b := outcome(v2, err2), outcome(v3, err3); pan3 != "" || a != b {
					c.Fail("EvalProgram of %q gives %.200s %s, Eval %.200s", short, b, pan3, a)
				}
			}
			c.Count("other_values", 1)
		}
		for i := 0; i < 3; i++ {
			v, err, pan := evalProg(res, prog)
			again("EvalProgram", v, err, pan)
			if i == 1 && r.p(30) { // the program in another environment, then here again
				_, _, p := evalProg(lazy(map[string]interface{}{"one": true, "a": "x"}), prog)
				if p != "" {
					c.Fail("%s escapes from EvalProgram with other names: %q", p, short)
				}
			}
		}
	} else if err == nil {
		c.Fail("ParseString panics (%s) on what Eval accepts: %q", p, short)
	}
	v, err, pan = evalText(res, text)
	again("a second Eval", v, err, pan)
	if after := snap(reflect.ValueOf(vars)); after != before {
		c.Fail("evaluating %q changed a value: %s", short, textDiff(before, after))
	}
}

func textDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 40
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("%.120q became %.120q", a[from:], b[from:])
}

func outcome(v interface{}, err error) string {
	if err != nil {
		return "an error"
	}
	switch x := v.(type) {
	case expr.Package:
		return "package"
	case reflect.Value:
		return "reflect.Value"
	case nil:
		return "nil"
	default:
		rv := reflect.ValueOf(x)
		s := snap(rv)
		if rv.Kind() == reflect.Ptr { // each reference may be to a copy
			s = ""
		}
		return rv.Type().String() + " " + s
	}
}

func nestVars() map[string]interface{} {
	l := &loop{V: 1}
	l.Next = &loop{V: 2, Next: l}
	return map[string]interface{}{"one": 1, "t": true, "f": false, "id": func(x int) int { return x }, "loop": l, "arr": []int{0, 1}, "aa": 1}
}

// illTyped checks that operations Go does not have fail: all operators on all
// pairs of kinds of values.
func illTyped(c *Ctx, op string) {
	r := c.R
	c.Distinct(hashStr("op " + op))
	l := &loop{}
	vals := []interface{}{int(1), int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), float64(1), true, "s",
		pt[int]{1, 2}, [2]int{1, 2}, []int{1}, map[string]int{"a": 1}, l, func(x int) int { return x }, (*loop)(nil), []int(nil), pt[int8]{1, 2}, [3]int{}, []uint8{1}}
	for i, a := range vals {
		for j, b := range vals {
			ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
			bad := ta != tb
			class := func(k reflect.Kind) byte {
				switch {
				case isIntKind(k), isUintKind(k):
					return 'i'
				case isFloatKind(k):
					return 'f'
				case k == reflect.Bool:
					return 'b'
				case k == reflect.String:
					return 's'
				}
				return 'o'
			}
			ca, cb := class(ta.Kind()), class(tb.Kind())
			switch op {
			case "<<", ">>":
				bad = ca != 'i' || cb != 'i'
			case "+":
				bad = bad || ca != 'i' && ca != 'f' && ca != 's'
			case "-", "*", "/":
				bad = bad || ca != 'i' && ca != 'f'
			case "%", "&", "|", "^", "&^":
				bad = bad || ca != 'i'
			case "<", "<=", ">", ">=":
				bad = bad || ca != 'i' && ca != 'f' && ca != 's'
			case "&&", "||":
				bad = ca != 'b' || cb != 'b'
				if ca == 'b' && op == "||" { // the right operand is not looked at
					a = false
				}
			default:
				bad = bad || ca == 'o' && !ta.Comparable()
			}
			v, err, pan := evalText(resolverFor(r, map[string]interface{}{"a": a, "b": b}), "a "+op+" b")
			c.Eval(1)
			if pan != "" {
				c.Fail("%s escapes: %T %s %T", pan, a, op, b)
			}
			if bad && err == nil {
				c.Fail("%T %s %T is not an operation, but gives %v (%T) [%d %d]", a, op, b, v, v, i, j)
			}
			if bad {
				c.Count("ill_typed_operations", 1)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C20",
		Rule:  "The first 19 cases apply each binary operator to all pairs of 25 kinds of operands; those Go has no operation for must fail. The rest are random texts (token soup, corrupted valid texts, ill-typed trees, random bytes, deep nesting, texts of up to megabytes) over variables that include panicking, variadic and multi-valued functions, nil pointers, cyclic values, recursive types, unexported and unrepresentable fields, packages and resolvers that panic. Each is evaluated six times by text and by program: it must return, with a value or an error, the same each time, and leave everything reachable from the variables as it was. A case that crashes, runs out of memory or hangs is a violation. Non-trivial: distinct texts.",
		Quick: len(binOps) + 80000, Thorough: len(binOps) + 2000000,
		Case: func(c *Ctx) {
			if c.N < len(binOps) {
				illTyped(c, binOps[c.N])
				return
			}
			robust(c)
		}})
}
