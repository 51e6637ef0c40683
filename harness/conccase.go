package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-restruct/restruct/expr"
	"github.com/go-restruct/restruct/formats/png"
)

// C12: many goroutines at once. The harness is built with the race detector.

// disturbing makes callbacks out of the code under test (codecs, byte orders,
// resolvers) give other goroutines a chance to run.
var disturbing atomic.Bool
var disturbances atomic.Uint64

func disturb() {
	if !disturbing.Load() {
		return
	}
	switch n := mix(disturbances.Add(1)); {
	case n%64 == 0:
		time.Sleep(20 * time.Microsecond)
	case n%3 == 0:
		runtime.Gosched()
	}
}

// yieldOrder is a byte order that gives way.
type yieldOrder struct{ binary.ByteOrder }

func (o yieldOrder) Uint16(b []byte) uint16 { disturb(); return o.ByteOrder.Uint16(b) }
func (o yieldOrder) Uint32(b []byte) uint32 { disturb(); return o.ByteOrder.Uint32(b) }
func (o yieldOrder) Uint64(b []byte) uint64 { disturb(); return o.ByteOrder.Uint64(b) }
func (o yieldOrder) PutUint16(b []byte, x uint16) {
	disturb()
	o.ByteOrder.PutUint16(b, x)
}
func (o yieldOrder) PutUint32(b []byte, x uint32) {
	disturb()
	o.ByteOrder.PutUint32(b, x)
}
func (o yieldOrder) PutUint64(b []byte, x uint64) {
	disturb()
	o.ByteOrder.PutUint64(b, x)
}

// job is one call to make, on values of its own. run makes the call; the result
// it returns must not be touched by anyone else. judge compares results, after
// all goroutines have ended.
type job struct {
	what  string
	run   func() interface{}
	judge func(res interface{}) string
}

type called4 struct {
	b   []byte
	n   int
	err error
	pan string
	v   reflect.Value
}

// maker makes a job like its earlier ones, on fresh values.
type maker func() job

// ---- recursive types that are new to expressions

type PRec[T any] struct {
	V    int
	X    T
	Next *PRec[T]
	Kids []PRec[T]
	Mut  *PMut[T]
	M    map[string]*PMut[T]
	Fn   func(PRec[T]) int `struct:"-"`
}

type PMut[T any] struct {
	W    uint8
	Back *PRec[T]
	Arr  [2]*PRec[T]
	All  []PTop[T]
}

type PTop[T any] struct {
	R PRec[T]
	P *PMut[T]
}

type recMaker func(r *rng) (entries map[string]interface{}, exprs []recExpr)

type recExpr struct {
	entry, text string
	want        interface{}
}

func makeRec[T any](r *rng) (map[string]interface{}, []recExpr) {
	a, b, d := r.n(100), r.n(100), r.n(100)
	w := uint8(r.n(100))
	rec := PRec[T]{V: a}
	mut := &PMut[T]{W: w, Back: &PRec[T]{V: b}}
	rec.Next = &PRec[T]{V: b, Mut: mut}
	rec.Kids = []PRec[T]{{V: d, Next: rec.Next}, {V: a, Mut: mut}}
	rec.Mut = mut
	rec.M = map[string]*PMut[T]{"k": mut}
	rec.Fn = func(p PRec[T]) int { return p.V + 1 }
	mut.Arr = [2]*PRec[T]{rec.Next, mut.Back}
	mut.All = []PTop[T]{{R: PRec[T]{V: d}, P: mut}}
	ents := map[string]interface{}{"R": rec, "P": &rec, "S": rec.Kids, "M": *mut, "Q": mut, "T": PTop[T]{rec, mut}, "A": mut.Arr, "D": rec.M}
	return ents, []recExpr{
		{"R", "R.V", a}, {"R", "R.Next.V", b}, {"R", "R.Kids[0].Next.Mut.W", w}, {"R", "R.M[\"k\"].Back.V + R.V", a + b}, {"R", "R.Fn(R) == R.V + 1", true},
		{"P", "P.V", a}, {"P", "P.Next.Mut.Back.V", b}, {"P", "P.Kids[1].Mut.All[0].R.V", d},
		{"S", "S[0].V", d}, {"S", "S[1].Mut.W", w}, {"M", "M.W", w}, {"M", "M.Arr[1].V", b}, {"M", "M.All[0].P.W", w},
		{"Q", "Q.Back.V", b}, {"Q", "Q.All[0].P.Arr[0].Mut.W", w}, {"T", "T.R.V", a}, {"T", "T.P.All[0].R.V", d}, {"T", "T.R.Next.V == T.P.Back.V", true},
		{"A", "A[0].V", b}, {"A", "A[1].V * 2", b * 2}, {"D", "D[\"k\"].W", w}, {"D", "D[\"k\"].Arr[0].Mut.W", w},
	}
}

// recJobs evaluates over such a type from several entry points at once.
func recJobs(c *Ctx, mk recMaker) (ms []maker) {
	r := c.R
	ents, xs := mk(r)
	progs := map[string]*expr.Program{}
	for _, x := range xs {
		if p, pan := parseText(x.text); pan == "" {
			progs[x.text] = p
		} else {
			c.Fail("ParseString(%s): %s", x.text, pan)
		}
	}
	for i := 0; i < 12; i++ {
		x := pick(r, xs...)
		how := r.n(5)
		ms = append(ms, func() job {
			res := funcResolver(func(name string) expr.Value {
				disturb()
				if v, ok := ents[name]; ok {
					return expr.ValueOf(v)
				}
				return nil
			})
			j := job{what: "Eval " + x.text}
			j.run = func() interface{} {
				var k called4
				var v interface{}
				switch how {
				case 0:
					v, k.err, k.pan = evalText(res, x.text)
				case 1:
					// The model of the type, before it is used.
					func() {
						defer guard(&k.pan)
						t := expr.TypeOf(ents[x.entry])
						_ = t.String()
						if !expr.TypeEqual(t, expr.TypeOf(ents[x.entry])) {
							k.pan = "TypeEqual is false for a type and itself"
						}
					}()
					if k.pan != "" {
						return k
					}
					fallthrough
				default:
					v, k.err, k.pan = evalProg(res, progs[x.text])
				}
				k.v = reflect.ValueOf(&v).Elem()
				return k
			}
			j.judge = func(res interface{}) string {
				k := res.(called4)
				if k.err != nil || k.pan != "" {
					return fmt.Sprintf("fails: %v %s", k.err, k.pan)
				}
				if v := k.v.Interface(); v != x.want {
					return fmt.Sprintf("gives %v (%T), want %v (%T)", v, v, x.want, x.want)
				}
				return ""
			}
			return j
		})
	}
	// The same type as the subject of conditions in a definition.
	t := reflect.StructOf([]reflect.StructField{
		{Name: "R", Type: reflect.TypeOf(ents["R"]), Tag: `struct:"-"`},
		{Name: "P", Type: reflect.TypeOf(ents["Q"]), Tag: `struct:"-"`},
		fieldOf("A", tU8, "if=R.V == 7"), fieldOf("B", tU16, "if=R.Next.V == P.Back.V"), fieldOf("C", tBS, "size=P.W & 3"),
	})
	for i := 0; i < 4; i++ {
		w := uint8(r.n(200))
		ms = append(ms, func() job {
			v := reflect.New(t)
			v.Elem().Field(0).Set(reflect.ValueOf(ents["R"]))
			v.Elem().Field(1).Set(reflect.ValueOf(ents["Q"]))
			v.Elem().Field(2).SetUint(uint64(w))
			v.Elem().Field(3).SetUint(uint64(w) * 3)
			n := int(reflect.ValueOf(ents["M"]).FieldByName("W").Uint()) & 3
			v.Elem().Field(4).Set(reflect.ValueOf(bytes.Repeat([]byte{w}, n)))
			var want []byte
			if reflect.ValueOf(ents["R"]).FieldByName("V").Int() == 7 {
				want = append(want, w)
			}
			want = append(want, p16(uint16(w)*3, true)...)
			want = append(want, bytes.Repeat([]byte{w}, n)...)
			return job{"Pack with conditions on a recursive type", func() interface{} {
				var k called4
				k.b, k.err, k.pan = pack(yieldOrder{binary.LittleEndian}, v.Interface())
				return k
			}, func(res interface{}) string {
				k := res.(called4)
				if k.err != nil || k.pan != "" || !bytes.Equal(k.b, want) {
					return fmt.Sprintf("gives %s (%v %s), want %s", hx(k.b), k.err, k.pan, hx(want))
				}
				return ""
			}}
		})
	}
	return
}

// ---- layouts

func layoutJobs(c *Ctx, t reflect.Type, q *prof) (ms []maker) {
	r := c.R
	vg := newVgen(r, q)
	for i := 0; i < 4; i++ {
		v := vg.fresh(t)
		little := r.p(50)
		order := orderOf(little)
		if r.p(50) {
			order = yieldOrder{order}
		}
		e, after, err := reference(v, little, false)
		if err != nil {
			c.Count("outside_domain", 1)
			continue
		}
		ms = append(ms, func() job {
			in := deepCopy(v)
			return job{"Pack", func() interface{} {
				var k called4
				k.b, k.err, k.pan = pack(order, in.Addr().Interface())
				k.v = in
				return k
			}, func(res interface{}) string {
				k := res.(called4)
				if k.err != nil || k.pan != "" || !bytes.Equal(k.b, e.w.b) {
					return fmt.Sprintf("gives %s (%v %s), want %s", hx(k.b), k.err, k.pan, hx(e.w.b))
				}
				return diff(after, k.v, diffWire)
			}}
		}, func() job {
			in := deepCopy(v)
			return job{"SizeOf and BitSize", func() interface{} {
				var k called4
				k.n, k.err, k.pan = sizeOf(in.Addr().Interface())
				if k.err == nil && k.pan == "" && k.n == len(e.w.b) {
					k.n, k.err, k.pan = bitSize(in.Interface())
				} else {
					k.n = -k.n - 1
				}
				return k
			}, func(res interface{}) string {
				k := res.(called4)
				if k.err != nil || k.pan != "" || k.n != e.w.n {
					return fmt.Sprintf("gives %d (%v %s), want %d bits", k.n, k.err, k.pan, e.w.n)
				}
				return ""
			}}
		})
		// The input is shared: it is only read.
		for _, data := range [][]byte{e.w.b, e.w.b, perturb(r, e.w.b), e.w.b[:r.n(len(e.w.b)+1)]} {
			data := data
			dst := reflect.New(t).Elem()
			if r.p(20) {
				dst = vg.fresh(t)
			}
			d, want, err := refUnpack(data, dst, little, false)
			if noExpect(err) || err == errAmb || err == nil && d.lossy {
				continue
			}
			ms = append(ms, func() job {
				got := deepCopy(dst)
				return job{"Unpack", func() interface{} {
					var k called4
					k.err, k.pan = unpack(data, order, got.Addr().Interface())
					k.v = got
					return k
				}, func(res interface{}) string {
					k := res.(called4)
					if k.pan != "" || (err == nil) != (k.err == nil) {
						return fmt.Sprintf("of %s gives %v %s, want %v", hx(data), k.err, k.pan, err)
					}
					if err == nil {
						if s := diff(want, k.v, diffAll); s != "" {
							return fmt.Sprintf("of %s gives the wrong value: %s", hx(data), s)
						}
					}
					return ""
				}}
			})
		}
	}
	return
}

// aloneJobs makes calls whose results are compared with those of the same calls
// made alone, afterwards.
func aloneJobs(c *Ctx) (ms []maker) {
	r := c.R
	t := soupStruct(r, 1)
	fs := []reflect.StructField{{Name: "Z", Type: tU8, Tag: reflect.StructTag(`stamp:"` + stamp + `"`)}}
	for i := 0; i < t.NumField(); i++ {
		fs = append(fs, t.Field(i))
	}
	t = reflect.StructOf(fs)
	for i := 0; i < 3; i++ {
		seed := r.u64()
		data := r.bytes(r.n(30))
		o := pick(r, eachOp...)
		order := orderOf(r.p(50))
		ms = append(ms, func() job {
			run := func() interface{} {
				v := reflect.New(t)
				fillSoup(newRng(seed), v.Elem(), 6)
				out, err, pan := outcomeOf(o, order, data, v.Interface())
				if err == nil && o == opUnpack {
					out = "unpacked"
				}
				return out + pan
			}
			return job{o.String() + " of an arbitrary definition", run, func(res interface{}) string {
				if want := run(); want != res {
					return fmt.Sprintf("gives %v, alone %v\n type %s", res, want, tname(t))
				}
				return ""
			}}
		})
	}
	return
}

// ---- expressions

func exprJobs(c *Ctx) (ms []maker) {
	r := c.R
	for i := 0; i < 3; i++ {
		g := &tgen{r: r, vars: map[string]interface{}{}, slots: map[string]interface{}{}}
		n := g.typed(pick(r, kinds...), 1+r.n(4))
		src := n.e.Source(func() bool { return r.p(5) }, func() string { return pick(r, "", " ", "") })
		want, ok := wantOf(n.f)
		prog, pan := parseText(src)
		if pan != "" {
			continue
		}
		shared := resolverFor(r, g.vars)
		for _, how := range []int{0, 1, 2} {
			how := how
			ms = append(ms, func() job {
				res := shared
				if how != 0 {
					res = funcResolver(func(name string) expr.Value {
						disturb()
						if v, ok := g.vars[name]; ok {
							return expr.ValueOf(v)
						}
						return nil
					})
				}
				return job{"Eval " + src, func() interface{} {
					var k called4
					var v interface{}
					if how == 1 {
						v, k.err, k.pan = evalText(res, src)
					} else {
						v, k.err, k.pan = evalProg(res, prog)
					}
					k.v = reflect.ValueOf(&v).Elem()
					return k
				}, func(res interface{}) string {
					k := res.(called4)
					if v := k.v.Interface(); k.pan != "" || (k.err == nil) != ok || ok && !sameResult(v, want) {
						return fmt.Sprintf("gives %v (%T) (%v %s), want %v (%T) %v", v, v, k.err, k.pan, want, want, ok)
					}
					return ""
				}}
			})
		}
	}
	return
}

// modelJobs builds models of new types and resolves their fields.
func modelJobs(c *Ctx) (ms []maker) {
	r := c.R
	var fs []reflect.StructField
	for i := r.in(1, 4); i > 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("N%d", len(fs)), Type: rtype(r, 2), Tag: reflect.StructTag(`stamp:"` + stamp + `"`)})
	}
	t := reflect.StructOf(fs)
	seed := r.u64()
	make := func() reflect.Value {
		v := reflect.New(t)
		fillValue(newRng(seed), v.Elem(), 4)
		return v.Elem()
	}
	for i := 0; i < 3; i++ {
		n := fs[r.n(len(fs))].Name
		ms = append(ms, func() job {
			v := make()
			run := func() interface{} {
				var k called4
				defer guard(&k.pan)
				res := expr.NewStructResolver(v)
				a := res.Resolve(n)
				b := expr.NewTypeResolverAdapter(res).TypeResolve(n)
				d := expr.NewStructTypeResolver(v.Interface()).TypeResolve(n)
				if !expr.TypeEqual(a.Type(), b) || !expr.TypeEqual(b, d) || !expr.TypeEqual(d, expr.TypeOf(v.FieldByName(n).Interface())) {
					return "the types of a field differ"
				}
				x, err := expr.Eval(res, n)
				if err != nil {
					return "Eval: " + err.Error()
				}
				return outcome(x, nil) + b.String()
			}
			return job{"Resolve " + n, run, func(res interface{}) string {
				if s, ok := res.(string); !ok || s != run() || len(s) > 3 && s[:4] == "Eval" || s == "the types of a field differ" {
					return fmt.Sprintf("gives %v, alone %v\n type %s", res, run(), tname(t))
				}
				return ""
			}}
		})
	}
	return
}

// pngJobs use the one format there is.
func pngJobs(c *Ctx) (ms []maker) {
	r := c.R
	ks := []chunk{randChunk(r, true), randChunk(r, false), randChunk(r, false)}
	magic := []byte("\x89PNG\r\n\x1a\n")
	data := append([]byte(nil), magic...)
	for _, k := range ks {
		data = putChunk(data, k, binary.BigEndian)
	}
	return []maker{func() job {
		return job{"Unpack and Pack of a png file", func() interface{} {
			var k called4
			f := &png.File{}
			if k.err, k.pan = unpack(data, yieldOrder{binary.BigEndian}, f); k.err == nil && k.pan == "" {
				k.b, k.err, k.pan = pack(binary.BigEndian, f)
			}
			k.v = reflect.ValueOf(f)
			return k
		}, func(res interface{}) string {
			k := res.(called4)
			if k.err != nil || k.pan != "" || !bytes.Equal(k.b, data) {
				return fmt.Sprintf("gives %s (%v %s), want %s", hx(k.b), k.err, k.pan, hx(data))
			}
			return diffFile(k.v.Interface().(*png.File), magic, ks, binary.BigEndian)
		}}
	}}
}

// concCase makes the same fresh things be used by many goroutines at once.
func concCase(c *Ctx) {
	r := c.R
	resetGenerated()
	stamp = fmt.Sprint(c.N)
	defer func() { stamp = "" }()
	rude = 0
	runtime.GOMAXPROCS(pick(r, 2, 4, 4, 8, 8))
	var ms []maker
	what := ""
	kind := func(pct int, name string, f func() []maker) {
		if r.p(pct) {
			ms = append(ms, f()...)
			what += name + " "
		}
	}
	p := generalProf
	p.Cust, p.If, p.SizeE, p.Sw, p.Fields, p.Depth = 12, 12, 10, 8, 5, 3
	for i := r.in(1, 2); i > 0; i-- {
		kind(80, "layout", func() []maker {
			t, q := newStamped(c, p)
			return layoutJobs(c, t, q)
		})
	}
	kind(15, "static", func() []maker { return layoutJobs(c, pick(r, staticList...).T, &prof{}) })
	if i := c.N / concWorkers; i < len(recPool) {
		kind(100, "recursive", func() []maker { return recJobs(c, recPool[i]) })
	}
	kind(30, "arbitrary", func() []maker { return aloneJobs(c) })
	kind(40, "expressions", func() []maker { return exprJobs(c) })
	kind(40, "models", func() []maker { return modelJobs(c) })
	kind(8, "png", func() []maker { return pngJobs(c) })
	if len(ms) == 0 {
		return
	}
	g := r.in(2, 12)
	per := r.in(3, 8)
	// All goroutines start with the same call, or each with its own.
	jobs := make([][]job, g)
	same := r.perm(len(ms))
	for i := range jobs {
		for k := 0; k < per; k++ {
			m := pick(r, ms...)
			if k == 0 && r.p(70) || k < 3 && r.p(30) {
				m = ms[same[k%len(same)]]
			}
			jobs[i] = append(jobs[i], m())
		}
	}
	results := make([][]interface{}, g)
	var ready, done sync.WaitGroup
	var running, most atomic.Int32
	var gate atomic.Bool
	disturbing.Store(r.p(70))
	for i := range jobs {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			for n := 0; !gate.Load(); n++ {
				if n%256 == 255 {
					runtime.Gosched()
				}
			}
			n := running.Add(1)
			for m := most.Load(); n > m && !most.CompareAndSwap(m, n); m = most.Load() {
			}
			for _, j := range jobs[i] {
				results[i] = append(results[i], j.run())
			}
			running.Add(-1)
		}(i)
	}
	ready.Wait()
	gate.Store(true)
	done.Wait()
	disturbing.Store(false)
	c.Count("goroutines", g)
	c.Count("goroutines_running_together", int(most.Load()))
	for i := range jobs {
		for k, j := range jobs[i] {
			c.Eval(1)
			if s := j.judge(results[i][k]); s != "" {
				c.Fail("%s among %d goroutines %s", j.what, g, s)
			}
		}
	}
	c.Distinct(uint64(c.N))
	c.Sample("%d goroutines, %d calls each, at most %d together: %s", g, per, most.Load(), what)
}

func newStamped(c *Ctx, p prof) (reflect.Type, *prof) {
	p = vary(c.R, p)
	st, _ := newGen(c.R, p).strct(p.Depth, 0)
	c.feature(st, map[*St]bool{})
	c.Count("definitions", 1)
	return st.RT, &p
}

const concWorkers = 4

func init() {
	register(&Check{ID: "C12",
		Rule:  "Case = 2 to 12 goroutines released together, each making 3 to 8 calls that all concern the same few things, which the process has never used before: freshly made definitions (all features, codecs and byte orders that give way to others), arbitrary definitions, mutually recursive Go types met by expressions from different ends (240 instances per process), shared parsed programs and resolvers, models of new types, png files. The harness is built with the race detector; results are compared with the reference codec, with Go's operators, or with the same call made alone afterwards. Non-trivial: every case (its definitions are new to the process).",
		Quick: 8000, Thorough: 160000, BigMem: true, Serial: concWorkers,
		Case: concCase})
}
