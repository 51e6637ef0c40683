package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Fd is the specification of one struct field: what the tag means, decided by
// this framework and not by the library under test.
type Fd struct {
	Idx    int
	Name   string
	NT, WT reflect.Type // native type; wire type (equal unless one is given)
	TypeTx string       // wire type as written in the tag, "" if none
	Bits   int
	Skip   int
	Order  byte // 0 inherit, 'l', 'b'
	VB, IB bool

	Ignore, Unexp, Pad  bool
	Root, Parent        bool
	Default             bool
	CountedBy           int   // index of the counter, or -1
	Also                []int // indices of further counters, which have no say when decoding
	SizeofTag           string
	SizefromTag         string
	If, Size, BitsE     *Ex
	In, Out             *Ex
	While, Switch, Case *Ex
	Anon                bool

	opts    []string // extra raw options (tag checks)
	Hint    []int64  // values that matter to some expression
	NonZero bool     // zero can't be encoded
	HintS   bool
}

func (f *Fd) active() bool { return !f.Ignore && !f.Unexp }

func (f *Fd) isCounter(st *St) bool {
	for _, g := range st.F {
		if g.counts(f.Idx) {
			return true
		}
	}
	return false
}

// counts tells whether a counter holds the length of the field.
func (f *Fd) counts(counter int) bool {
	for _, i := range f.Also {
		if i == counter {
			return true
		}
	}
	return f.CountedBy == counter
}

func (f *Fd) hasExpr() bool {
	return f.If != nil || f.Size != nil || f.BitsE != nil || f.In != nil || f.Out != nil || f.While != nil || f.Switch != nil || f.Case != nil
}

// St is the specification of a struct type.
type St struct {
	RT reflect.Type
	F  []*Fd
}

// structs is the registry of specifications by Go type.
var structs = map[reflect.Type]*St{}

// Cust is a type with its own codec, described independently of its methods.
type Cust struct {
	Name string
	T    reflect.Type
	// Enc or Dec is nil if the type does that by its fields.
	Enc   func(v reflect.Value, little bool) []byte
	Dec   func(v reflect.Value, buf []byte, little bool) (n int, ok bool)
	Gen   func(r *rng, v reflect.Value)
	Min   int // least number of bytes
	Fixed int // size if constant, else 0
	Ptr   bool
}

// Stat is a hand-written struct type that generated types may contain.
type Stat struct {
	T       reflect.Type
	Min     int
	Aligned bool // contains custom codecs
	Mod     int  // size in bits modulo 8
}

var (
	customList []*Cust
	staticList []*Stat
)

var (
	customs      = map[reflect.Type]*Cust{}
	customByName = map[string]*Cust{}
)

const pkgPath = "verif"

var orderNames = map[byte][]string{'l': {"little", "lsb"}, 'b': {"big", "msb", "network"}}

// options returns the tag options of a field, and the expression options, which
// may live in tag keys of their own.
func (f *Fd) options(r *rng) (opts []string, exprs map[string]string) {
	exprs = map[string]string{}
	if f.TypeTx != "" || f.Bits > 0 {
		t := f.TypeTx
		if f.Bits > 0 {
			t += ":" + numeral(r, f.Bits)
		}
		opts = append(opts, t)
	}
	if f.Order != 0 {
		opts = append(opts, pick(r, orderNames[f.Order]...))
	}
	if f.Skip > 0 {
		opts = append(opts, "skip="+numeral(r, f.Skip))
	}
	if f.VB {
		opts = append(opts, "variantbool")
	}
	if f.IB {
		opts = append(opts, "invertedbool")
	}
	if f.Root {
		opts = append(opts, "root")
	}
	if f.Parent {
		opts = append(opts, "parent")
	}
	if f.Default {
		opts = append(opts, "default")
	}
	if f.SizeofTag != "" {
		opts = append(opts, "sizeof="+f.SizeofTag)
	}
	if f.SizefromTag != "" {
		opts = append(opts, "sizefrom="+f.SizefromTag)
	}
	opts = append(opts, f.opts...)
	for k, e := range map[string]*Ex{"if": f.If, "size": f.Size, "bits": f.BitsE, "in": f.In, "out": f.Out, "while": f.While, "switch": f.Switch, "case": f.Case} {
		if e != nil {
			exprs[k] = e.String()
		}
	}
	return
}

// numeral spells a number in one of the ways integer literals can be written.
func numeral(r *rng, n int) string {
	if r.p(60) {
		return strconv.Itoa(n)
	}
	return fmt.Sprintf(pick(r, "%#x", "%#X", "0b%b", "0%o", "0x0%x"), n)
}

// exprKeys is ordered: map iteration must not reach the generator.
var exprKeys = []string{"if", "size", "bits", "in", "out", "while", "switch", "case"}

// tag renders the options with r deciding order, synonyms and placement.
func (f *Fd) tag(r *rng) reflect.StructTag {
	if f.Ignore {
		return `struct:"-"`
	}
	if f.Unexp && !f.Pad {
		return ""
	}
	opts, exprs := f.options(r)
	own := ""
	for _, k := range exprKeys {
		e, ok := exprs[k]
		if !ok {
			continue
		}
		if r.p(50) {
			own += fmt.Sprintf(" struct-%s:%s", k, strconv.Quote(e))
		} else {
			opts = append(opts, k+"="+e)
		}
	}
	p := r.perm(len(opts))
	out := make([]string, len(opts))
	for i, j := range p {
		out[i] = opts[j]
	}
	t := ""
	if len(out) > 0 {
		t = "struct:" + strconv.Quote(strings.Join(out, ","))
	}
	return reflect.StructTag(strings.TrimSpace(t + own))
}

// stamp, if set, makes generated types new to the process.
var stamp string

// build makes the Go type of a specification and registers it.
func (st *St) build(r *rng) reflect.Type {
	var sf []reflect.StructField
	for i, f := range st.F {
		f.Idx = i
		g := reflect.StructField{Name: f.Name, Type: f.NT, Tag: f.tag(r)}
		if stamp != "" {
			g.Tag += reflect.StructTag(" stamp:" + strconv.Quote(stamp))
		}
		if f.Unexp || f.Pad {
			g.PkgPath = pkgPath
		}
		sf = append(sf, g)
	}
	st.RT = reflect.StructOf(sf)
	if old, ok := structs[st.RT]; ok {
		return old.RT
	}
	structs[st.RT] = st
	return st.RT
}

func resetGenerated() {
	for k := range structs {
		if k.Name() == "" {
			delete(structs, k)
		}
	}
}

// stOf returns the specification of a struct type, reading the tags of
// hand-written types on first use.
func stOf(t reflect.Type) *St {
	if st, ok := structs[t]; ok {
		return st
	}
	st := readSt(t)
	structs[t] = st
	return st
}

var wireNames = map[string]reflect.Type{
	"bool": basicTypes[reflect.Bool], "int": basicTypes[reflect.Int], "uint": basicTypes[reflect.Uint],
	"int8": basicTypes[reflect.Int8], "int16": basicTypes[reflect.Int16], "int32": basicTypes[reflect.Int32], "int64": basicTypes[reflect.Int64],
	"uint8": basicTypes[reflect.Uint8], "uint16": basicTypes[reflect.Uint16], "uint32": basicTypes[reflect.Uint32], "uint64": basicTypes[reflect.Uint64],
	"byte": basicTypes[reflect.Uint8], "rune": basicTypes[reflect.Int32], "string": reflect.TypeOf([]byte(nil)),
	"float32": basicTypes[reflect.Float32], "float64": basicTypes[reflect.Float64],
	"complex64": basicTypes[reflect.Complex64], "complex128": basicTypes[reflect.Complex128],
}

func wireType(s string) reflect.Type {
	switch {
	case strings.HasPrefix(s, "[]"):
		return reflect.SliceOf(wireType(s[2:]))
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		n, err := strconv.ParseInt(s[1:i], 0, 64)
		if err != nil {
			panic(err)
		}
		return reflect.ArrayOf(int(n), wireType(s[i+1:]))
	case strings.HasPrefix(s, "*"):
		return reflect.PtrTo(wireType(s[1:]))
	}
	if t, ok := wireNames[s]; ok {
		return t
	}
	panic("wire type " + s)
}

// readSt reads the tags of a hand-written type. It understands just the tags
// that this framework itself writes.
func readSt(t reflect.Type) *St {
	st := &St{RT: t}
	sizeof := map[string][]int{}
	for i := 0; i < t.NumField(); i++ {
		g := t.Field(i)
		f := &Fd{Idx: i, Name: g.Name, NT: g.Type, WT: g.Type, CountedBy: -1, Anon: g.Anonymous}
		st.F = append(st.F, f)
		if g.Name == "_" {
			f.Pad = true
		} else if g.PkgPath != "" {
			f.Unexp = true
			continue
		}
		tag := g.Tag.Get("struct")
		if tag == "-" {
			f.Ignore = true
			continue
		}
		for k, p := range map[string]**Ex{"if": &f.If, "size": &f.Size, "bits": &f.BitsE, "in": &f.In, "out": &f.Out, "while": &f.While, "switch": &f.Switch, "case": &f.Case} {
			if s := g.Tag.Get("struct-" + k); s != "" {
				*p = parseRef(s)
			}
		}
		for _, o := range strings.Split(tag, ",") {
			k, val, has := strings.Cut(o, "=")
			switch {
			case o == "":
			case o == "little", o == "lsb":
				f.Order = 'l'
			case o == "big", o == "msb", o == "network":
				f.Order = 'b'
			case o == "variantbool":
				f.VB = true
			case o == "invertedbool":
				f.IB = true
			case o == "root":
				f.Root = true
			case o == "parent":
				f.Parent = true
			case o == "default":
				f.Default = true
			case k == "skip" && has:
				n, err := strconv.ParseInt(val, 0, 64)
				if err != nil {
					panic(err)
				}
				f.Skip = int(n)
			case k == "sizeof" && has:
				f.SizeofTag = val
				sizeof[val] = append(sizeof[val], i)
			case k == "sizefrom" && has:
				f.SizefromTag = val
				for j := 0; j < i; j++ {
					if t.Field(j).Name == val {
						f.CountedBy = j
					}
				}
				if f.CountedBy < 0 {
					panic("sizefrom " + val)
				}
			case k == "if" && has:
				f.If = parseRef(val)
			case k == "size" && has:
				f.Size = parseRef(val)
			case k == "case" && has:
				f.Case = parseRef(val)
			case k == "switch" && has:
				f.Switch = parseRef(val)
			case k == "while" && has:
				f.While = parseRef(val)
			case k == "bits" && has:
				f.BitsE = parseRef(val)
			case k == "in" && has:
				f.In = parseRef(val)
			case k == "out" && has:
				f.Out = parseRef(val)
			default:
				tx, b, hasBits := strings.Cut(o, ":")
				f.TypeTx = tx
				f.WT = wireType(tx)
				if hasBits {
					f.Bits, _ = strconv.Atoi(b)
				}
			}
		}
	}
	for name, js := range sizeof {
		ok := false
		for _, f := range st.F {
			if f.Name == name {
				f.CountedBy, f.Also = js[len(js)-1], js[:len(js)-1]
				ok = true
			}
		}
		if !ok {
			panic("sizeof " + name)
		}
	}
	return st
}
