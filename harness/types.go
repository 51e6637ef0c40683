package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/formats/png"
)

// ---- custom codecs

// codecCall is one observed call of a custom codec.
type codecCall struct {
	Type, Op string
	Len      int // length of the buffer it was given
	Order    binary.ByteOrder
}

type codecLog struct {
	sync.Mutex
	calls []codecCall
	fail  int // make this call return an error (1 is the first)
	n     int
	ops   string // which operations can fail
}

var (
	theLog      atomic.Pointer[codecLog]
	errInjected = errors.New("injected codec failure")
	someErrors  = []error{errInjected, io.EOF, io.ErrUnexpectedEOF, &oddError{1, "pointer"}, oddError{2, "value"}, fmt.Errorf("wrapped: %w", io.EOF), caught(func() { _ = someStrings[len(someStrings)] }), caught(func() { _ = interface{}(someStrings).(int) })}
	someStrings []string
	errSmall    = errors.New("codec: input too short")
)

func caught(fn func()) (err error) {
	defer func() { err = recover().(error) }()
	fn()
	return
}

func called(typ, op string, buf []byte, order binary.ByteOrder) error {
	disturb()
	l := theLog.Load()
	if l == nil {
		return nil
	}
	l.Lock()
	defer l.Unlock()
	l.calls = append(l.calls, codecCall{typ, op, len(buf), order})
	if l.fail > 0 && op != "size" {
		if l.n++; l.n == l.fail {
			return errInjected
		}
	}
	return nil
}

type (
	CVar   struct{ B []byte } // pointer receivers, variable length, order-dependent
	CFix   struct{ A uint32 } // value receivers
	CInt   uint16             // named integer
	CByte  uint8              // named byte, so that []CByte looks like bytes
	CBytes []byte             // named slice
	CStr   string             // named string
	CBit   struct{ V uint16 } // sized in bits
	CArr   [3]uint8           // named array
	CEmpty struct{}           // no bytes at all
	CMark  struct {           // no bytes at all, though the fields would have some
		A uint16
		B [2]uint8
	}
	CMap  map[uint8]uint8       // a kind that has no layout of its own
	CHide struct{ a, b uint16 } // only unexported fields

	// Codecs for one direction only; the other goes by the fields, and the
	// bytes are the same.
	CPk struct {
		A uint16
		B uint8
	}
	CPkB uint8
	CUnp struct {
		A uint8
		B int32
	}
	CUnB uint16

	// A codec that uses the library for its own parts.
	CNest struct {
		Tag uint8
		In  nestIn
	}
	nestIn struct {
		N uint8 `struct:"uint8:4,sizeof=D"`
		F uint8 `struct:"uint8:4"`
		D []uint16
		E int16 `struct:"little"`
	}
)

func (c CPk) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CPk", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, c.A)
	buf[2] = c.B
	return buf[3:], nil
}

func (c *CPkB) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CPkB", "pack", buf, o); err != nil {
		return nil, err
	}
	buf[0] = byte(*c)
	return buf[1:], nil
}

func (c CPk) SizeOf() int   { return 3 }
func (c *CPkB) SizeOf() int { return 1 }

func (c *CUnp) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CUnp", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 5 {
		return nil, errSmall
	}
	c.A, c.B = buf[0], int32(o.Uint32(buf[1:]))
	return buf[5:], nil
}

func (c *CUnB) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CUnB", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 2 {
		return nil, errSmall
	}
	*c = CUnB(o.Uint16(buf))
	return buf[2:], nil
}

func (c *CNest) SizeOf() int {
	called("CNest", "size", nil, nil)
	n, err := restruct.SizeOf(&c.In)
	if err != nil {
		panic(err)
	}
	return 1 + n
}
func (c *CNest) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CNest", "pack", buf, o); err != nil {
		return nil, err
	}
	buf[0] = c.Tag
	b, err := restruct.Pack(o, &c.In)
	if err != nil {
		return nil, err
	}
	copy(buf[1:], b)
	return buf[1+len(b):], nil
}
func (c *CNest) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CNest", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 1 {
		return nil, errSmall
	}
	c.Tag = buf[0]
	if err := restruct.Unpack(buf[1:], o, &c.In); err != nil {
		return nil, err
	}
	n, err := restruct.SizeOf(&c.In)
	return buf[1+n:], err
}

func (c *CVar) SizeOf() int { called("CVar", "size", nil, nil); return 2 + len(c.B) }
func (c *CVar) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CVar", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, uint16(len(c.B)))
	n := copy(buf[2:], c.B)
	return buf[2+n:], nil
}
func (c *CVar) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CVar", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 2 || len(buf)-2 < int(o.Uint16(buf)) {
		return nil, errSmall
	}
	n := 2 + int(o.Uint16(buf))
	c.B = append([]byte(nil), buf[2:n]...)
	return buf[n:], nil
}

func (c CFix) SizeOf() int { called("CFix", "size", nil, nil); return 3 }
func (c CFix) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CFix", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, uint16(c.A))
	buf[2] = byte(c.A >> 16)
	return buf[3:], nil
}
func (c *CFix) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CFix", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 3 {
		return nil, errSmall
	}
	c.A = uint32(o.Uint16(buf)) | uint32(buf[2])<<16
	return buf[3:], nil
}

func (c *CInt) SizeOf() int { called("CInt", "size", nil, nil); return 2 }
func (c *CInt) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CInt", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, uint16(*c)^0x5555)
	return buf[2:], nil
}
func (c *CInt) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CInt", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 2 {
		return nil, errSmall
	}
	*c = CInt(o.Uint16(buf) ^ 0x5555)
	return buf[2:], nil
}

const hexdigits = "0123456789abcdef"

func (c CByte) SizeOf() int { called("CByte", "size", nil, nil); return 2 }
func (c CByte) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CByte", "pack", buf, o); err != nil {
		return nil, err
	}
	buf[0], buf[1] = hexdigits[c>>4], hexdigits[c&15]
	return buf[2:], nil
}
func (c *CByte) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CByte", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 2 {
		return nil, errSmall
	}
	*c = CByte(unhex(buf[0])<<4 | unhex(buf[1]))
	return buf[2:], nil
}

func unhex(b byte) byte {
	if b >= 'a' {
		return (b - 'a' + 10) & 15
	}
	return b & 15
}

func (c *CBytes) SizeOf() int { called("CBytes", "size", nil, nil); return 1 + len(*c) }
func (c *CBytes) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CBytes", "pack", buf, o); err != nil {
		return nil, err
	}
	buf[0] = byte(len(*c))
	for i, b := range *c {
		buf[1+i] = ^b
	}
	return buf[1+len(*c):], nil
}
func (c *CBytes) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CBytes", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 1 || len(buf)-1 < int(buf[0]) {
		return nil, errSmall
	}
	n := int(buf[0])
	*c = make(CBytes, n)
	for i := range *c {
		(*c)[i] = ^buf[1+i]
	}
	return buf[1+n:], nil
}

func (c CStr) SizeOf() int { called("CStr", "size", nil, nil); return len(c) + 1 }
func (c CStr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CStr", "pack", buf, o); err != nil {
		return nil, err
	}
	n := copy(buf, c)
	buf[n] = 0
	return buf[n+1:], nil
}
func (c *CStr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CStr", "unpack", buf, o); err != nil {
		return nil, err
	}
	for i, b := range buf {
		if b == 0 {
			*c = CStr(buf[:i])
			return buf[i+1:], nil
		}
	}
	return nil, errSmall
}

func (c *CBit) BitSize() int { called("CBit", "size", nil, nil); return 16 }
func (c *CBit) SizeOf() int  { called("CBit", "size", nil, nil); return 2 }
func (c *CBit) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CBit", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, c.V+1)
	return buf[2:], nil
}
func (c *CBit) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CBit", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 2 {
		return nil, errSmall
	}
	c.V = o.Uint16(buf) - 1
	return buf[2:], nil
}

func (c *CArr) SizeOf() int { called("CArr", "size", nil, nil); return 3 }
func (c *CArr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CArr", "pack", buf, o); err != nil {
		return nil, err
	}
	buf[0], buf[1], buf[2] = c[2], c[1], c[0]
	return buf[3:], nil
}
func (c *CArr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CArr", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 3 {
		return nil, errSmall
	}
	c[2], c[1], c[0] = buf[0], buf[1], buf[2]
	return buf[3:], nil
}

func (c CEmpty) SizeOf() int { called("CEmpty", "size", nil, nil); return 0 }
func (c CEmpty) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CEmpty", "pack", buf, o); err != nil {
		return nil, err
	}
	return buf, nil
}
func (c *CEmpty) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CEmpty", "unpack", buf, o); err != nil {
		return nil, err
	}
	return buf, nil
}

func (c CMark) SizeOf() int { called("CMark", "size", nil, nil); return 0 }
func (c CMark) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return buf, called("CMark", "pack", buf, o)
}
func (c *CMark) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CMark", "unpack", buf, o); err != nil {
		return nil, err
	}
	*c = CMark{7, [2]uint8{1, 2}}
	return buf, nil
}

func (c CMap) SizeOf() int { called("CMap", "size", nil, nil); return 1 + 2*len(c) }
func (c CMap) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CMap", "pack", buf, o); err != nil {
		return nil, err
	}
	n := copy(buf, encMap(c))
	return buf[n:], nil
}
func (c *CMap) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CMap", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 1 || len(buf)-1 < 2*int(buf[0]) {
		return nil, errSmall
	}
	n := int(buf[0])
	*c = CMap{}
	for i := 0; i < n; i++ {
		(*c)[buf[1+2*i]] = buf[2+2*i]
	}
	return buf[1+2*n:], nil
}

func encMap(c CMap) []byte {
	b := []byte{byte(len(c))}
	var ks []int
	for k := range c {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		b = append(b, byte(k), c[uint8(k)])
	}
	return b
}

func (c *CHide) SizeOf() int { called("CHide", "size", nil, nil); return 4 }
func (c *CHide) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CHide", "pack", buf, o); err != nil {
		return nil, err
	}
	o.PutUint16(buf, c.b)
	o.PutUint16(buf[2:], c.a)
	return buf[4:], nil
}
func (c *CHide) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := called("CHide", "unpack", buf, o); err != nil {
		return nil, err
	}
	if len(buf) < 4 {
		return nil, errSmall
	}
	c.b, c.a = o.Uint16(buf), o.Uint16(buf[2:])
	return buf[4:], nil
}

func p16(x uint16, little bool) []byte {
	if little {
		return []byte{byte(x), byte(x >> 8)}
	}
	return []byte{byte(x >> 8), byte(x)}
}

func g16(b []byte, little bool) uint16 {
	if little {
		return uint16(b[0]) | uint16(b[1])<<8
	}
	return uint16(b[1]) | uint16(b[0])<<8
}

func addCustom(zero interface{}, c *Cust) {
	c.T = reflect.TypeOf(zero)
	c.Name = c.T.Name()
	customs[c.T] = c
	customByName[c.Name] = c
	customList = append(customList, c)
}

// The same codecs once more, for the reference. Nothing here calls the methods
// above.
func init() {
	short := func(buf []byte, n int) bool { return len(buf) < n }
	addCustom(CVar{}, &Cust{Min: 2,
		Enc: func(v reflect.Value, l bool) []byte {
			b := v.Interface().(CVar).B
			return append(p16(uint16(len(b)), l), b...)
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 2) || short(buf[2:], int(g16(buf, l))) {
				return 0, false
			}
			n := int(g16(buf, l))
			v.Set(reflect.ValueOf(CVar{append([]byte(nil), buf[2:2+n]...)}))
			return 2 + n, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CVar{r.bytes(r.n(6))})) }})
	addCustom(CFix{}, &Cust{Min: 3, Fixed: 3,
		Enc: func(v reflect.Value, l bool) []byte {
			a := v.Interface().(CFix).A
			return append(p16(uint16(a), l), byte(a>>16))
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 3) {
				return 0, false
			}
			v.Set(reflect.ValueOf(CFix{uint32(g16(buf, l)) | uint32(buf[2])<<16}))
			return 3, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CFix{uint32(r.u64()) & 0xffffff})) }})
	addCustom(CInt(0), &Cust{Min: 2, Fixed: 2,
		Enc: func(v reflect.Value, l bool) []byte { return p16(uint16(v.Uint())^0x5555, l) },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 2) {
				return 0, false
			}
			v.SetUint(uint64(g16(buf, l) ^ 0x5555))
			return 2, true
		},
		Gen: func(r *rng, v reflect.Value) { v.SetUint(r.u64() & 0xffff) }})
	addCustom(CByte(0), &Cust{Min: 2, Fixed: 2,
		Enc: func(v reflect.Value, l bool) []byte { return []byte(fmt.Sprintf("%02x", v.Uint())) },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 2) {
				return 0, false
			}
			v.SetUint(uint64(unhex(buf[0])<<4 | unhex(buf[1])))
			return 2, true
		},
		Gen: func(r *rng, v reflect.Value) { v.SetUint(r.u64() & 0xff) }})
	addCustom(CBytes(nil), &Cust{Min: 1,
		Enc: func(v reflect.Value, l bool) []byte {
			b := []byte{byte(v.Len())}
			for _, x := range v.Bytes() {
				b = append(b, x^0xff)
			}
			return b
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 1) || short(buf[1:], int(buf[0])) {
				return 0, false
			}
			b := CBytes{}
			for _, x := range buf[1 : 1+int(buf[0])] {
				b = append(b, x^0xff)
			}
			v.Set(reflect.ValueOf(b))
			return 1 + len(b), true
		},
		Gen: func(r *rng, v reflect.Value) { v.SetBytes(r.bytes(r.n(6))) }})
	addCustom(CStr(""), &Cust{Min: 1,
		Enc: func(v reflect.Value, l bool) []byte { return append([]byte(v.String()), 0) },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			for i, b := range buf {
				if b == 0 {
					v.SetString(string(buf[:i]))
					return i + 1, true
				}
			}
			return 0, false
		},
		Gen: func(r *rng, v reflect.Value) { v.SetString("abcdefgh"[:r.n(8)]) }})
	addCustom(CBit{}, &Cust{Min: 2, Fixed: 2,
		Enc: func(v reflect.Value, l bool) []byte { return p16(v.Interface().(CBit).V+1, l) },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 2) {
				return 0, false
			}
			v.Set(reflect.ValueOf(CBit{g16(buf, l) - 1}))
			return 2, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CBit{uint16(r.u64())})) }})
	addCustom(CArr{}, &Cust{Min: 3, Fixed: 3,
		Enc: func(v reflect.Value, l bool) []byte {
			a := v.Interface().(CArr)
			return []byte{a[2], a[1], a[0]}
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 3) {
				return 0, false
			}
			v.Set(reflect.ValueOf(CArr{buf[2], buf[1], buf[0]}))
			return 3, true
		},
		Gen: func(r *rng, v reflect.Value) {
			b := r.bytes(3)
			v.Set(reflect.ValueOf(CArr{b[0], b[1], b[2]}))
		}})
	addCustom(CEmpty{}, &Cust{
		Enc: func(v reflect.Value, l bool) []byte { return []byte{} },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) { return 0, true },
		Gen: func(r *rng, v reflect.Value) {}})
	addCustom(CMark{}, &Cust{
		Enc: func(v reflect.Value, l bool) []byte { return []byte{} },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			v.Set(reflect.ValueOf(CMark{7, [2]uint8{1, 2}}))
			return 0, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CMark{7, [2]uint8{1, 2}})) }})
	addCustom(CMap{}, &Cust{Min: 1,
		Enc: func(v reflect.Value, l bool) []byte { return encMap(v.Interface().(CMap)) },
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 1) || short(buf[1:], 2*int(buf[0])) {
				return 0, false
			}
			n := int(buf[0])
			m := CMap{}
			for i := 0; i < n; i++ {
				m[buf[1+2*i]] = buf[2+2*i]
			}
			v.Set(reflect.ValueOf(m))
			return 1 + 2*n, true
		},
		Gen: func(r *rng, v reflect.Value) {
			m := CMap{}
			for i := r.n(4); i > 0; i-- {
				m[uint8(r.u64())] = uint8(r.u64())
			}
			v.Set(reflect.ValueOf(m))
		}})
	addCustom(CHide{}, &Cust{Min: 4, Fixed: 4,
		Enc: func(v reflect.Value, l bool) []byte {
			return append(p16(uint16(v.Field(1).Uint()), l), p16(uint16(v.Field(0).Uint()), l)...)
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if short(buf, 4) {
				return 0, false
			}
			v.Set(reflect.ValueOf(CHide{g16(buf[2:], l), g16(buf, l)}))
			return 4, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CHide{uint16(r.u64()), uint16(r.u64())})) }})
}

func init() {
	addCustom(CPk{}, &Cust{Min: 3, Fixed: 3,
		Enc: func(v reflect.Value, l bool) []byte {
			c := v.Interface().(CPk)
			return append(p16(c.A, l), c.B)
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CPk{uint16(r.u64()), uint8(r.u64())})) }})
	addCustom(CPkB(0), &Cust{Min: 1, Fixed: 1,
		Enc: func(v reflect.Value, l bool) []byte { return []byte{byte(v.Uint())} },
		Gen: func(r *rng, v reflect.Value) { v.SetUint(r.u64() & 0xff) }})
	addCustom(CUnp{}, &Cust{Min: 5, Fixed: 5,
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if len(buf) < 5 {
				return 0, false
			}
			a, b := g16(buf[1:], l), g16(buf[3:], l)
			x := uint32(a)<<16 | uint32(b)
			if l {
				x = uint32(b)<<16 | uint32(a)
			}
			v.Set(reflect.ValueOf(CUnp{buf[0], int32(x)}))
			return 5, true
		},
		Gen: func(r *rng, v reflect.Value) { v.Set(reflect.ValueOf(CUnp{uint8(r.u64()), int32(r.u64())})) }})
	addCustom(CUnB(0), &Cust{Min: 2, Fixed: 2,
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if len(buf) < 2 {
				return 0, false
			}
			v.SetUint(uint64(g16(buf, l)))
			return 2, true
		},
		Gen: func(r *rng, v reflect.Value) { v.SetUint(r.u64() & 0xffff) }})
	addCustom(CNest{}, &Cust{Min: 4,
		Enc: func(v reflect.Value, l bool) []byte {
			c := v.Interface().(CNest)
			b := []byte{c.Tag, byte(len(c.In.D))<<4 | c.In.F}
			for _, x := range c.In.D {
				b = append(b, p16(x, l)...)
			}
			return append(b, p16(uint16(c.In.E), true)...)
		},
		Dec: func(v reflect.Value, buf []byte, l bool) (int, bool) {
			if len(buf) < 2 || len(buf) < 4+2*int(buf[1]>>4) {
				return 0, false
			}
			c := CNest{Tag: buf[0], In: nestIn{N: buf[1] >> 4, F: buf[1] & 15, D: []uint16{}}}
			n := 2
			for i := 0; i < int(c.In.N); i++ {
				c.In.D = append(c.In.D, g16(buf[n:], l))
				n += 2
			}
			c.In.E = int16(g16(buf[n:], true))
			v.Set(reflect.ValueOf(c))
			return n + 2, true
		},
		Gen: func(r *rng, v reflect.Value) {
			c := CNest{Tag: uint8(r.u64()), In: nestIn{F: uint8(r.n(16)), D: []uint16{}, E: int16(r.u64())}}
			for i := r.n(4); i > 0; i-- {
				c.In.D = append(c.In.D, uint16(r.u64()))
			}
			c.In.N = uint8(len(c.In.D))
			v.Set(reflect.ValueOf(c))
		}})
}

// ---- hand-written definitions

type SRec struct {
	N    uint8
	Kids []SRec `struct:"sizefrom=N"`
	V    uint16
}

type SPtr struct {
	More bool
	Next *SPtr `struct:"if=More"`
	X    int16 `struct:"little"`
}

type Emb struct {
	A uint8
	B uint16
}

type SEmb struct {
	Emb
	C uint32 `struct:"if=A == 1"`
	D []byte `struct:"size=A & 3"`
}

type SMut struct {
	Kind uint8   `struct:"uint8"`
	L    *SMutB  `struct:"if=Kind & 1 == 1"`
	R    []SMutB `struct:"size=Kind & 2"`
}

type SMutB struct {
	Z uint16
	U SCnt
	M *SMut `struct:"if=Z == 1"`
}

type SCnt struct {
	Hdr  uint8 `struct:"uint8:4"`
	N    uint8 `struct:"uint8:4,sizeof=D"`
	skip int
	Ign  string `struct:"-"`
	D    []uint16
}

type SNum struct {
	A NInt16  `struct:"int32,big"`
	B NUint8  `struct:"uint16"`
	C NBool   `struct:"uint16:9,variantbool"`
	D NUint32 `struct:"uint32:23"`
	E NFloat  `struct:"float32"`
	S NString `struct:"[4]byte"`
	T NBytes  `struct:"size=B & 3"`
}

// Types that share a printed name.
func sameName1() interface{} {
	type Rec struct {
		A uint8
		B uint16 `struct:"big"`
		C []byte `struct:"size=A & 7"`
	}
	return Rec{}
}

func sameName2() interface{} {
	type Rec struct {
		A uint16 `struct:"little"`
		B uint8  `struct:"skip=2"`
		C []byte `struct:"size=B & 3"`
	}
	return Rec{}
}

func sameName3() interface{} {
	type Rec struct {
		B string `struct:"[4]byte"`
		A int64  `struct:"int32"`
		C uint8  `struct:"if=A > 0"`
	}
	return Rec{}
}

// Parent and root links with types of their own.
type LOuter struct {
	N    uint8   `struct:"sizeof=Kids"`
	Top  *LOuter `struct:"root"`
	In   LInner
	Kids []LKid
	P    *LKid
	Arr  [2]LKid
	Sw   struct {
		A LInner  `struct:"case=1"`
		B *LKid   `struct:"case=2"`
		C []LKid  `struct:"case=3,size=2"`
		D [2]LKid `struct:"default"`
	} `struct:"switch=N"`
	Tail []LTail `struct:"size=N & 3"`
}

type LInner struct {
	Up *LOuter `struct:"parent"`
	D  []byte  `struct:"size=Up.N & 3"`
}

type LKid struct {
	Up  *LOuter `struct:"parent"`
	V   uint8
	Sub LSub
	Top *LOuter `struct:"root"`
}

type LSub struct {
	Kid  *LKid    `struct:"parent"`
	Out  *LOuter  `struct:"parent"`
	None *SRec    `struct:"parent"`
	X    uint8    `struct:"if=Out.N > 1"`
	Y    []uint16 `struct:"size=Kid.V & 3"`
}

type LTail struct {
	A   uint8
	Sub *LSubT
	W   [2]LSubT
}

type LSubT struct {
	Up  *LTail  `struct:"parent"`
	Out *LOuter `struct:"parent"`
	B   uint16  `struct:"if=Up.A & 1 == 1"`
}

// LNode is of the same type as what encloses it, so that which one is nearest matters.
type LNode struct {
	Up   *LNode `struct:"parent"`
	N    uint8
	D    []byte  `struct:"if=Up != nil && Up.N & 2 == 2,size=Up.N >> 5"`
	Kids []LNode `struct:"size=N & 1"`
	P    *LNode  `struct:"if=N & 12 == 12"`
	E    uint8   `struct:"if=Up != nil && Up.N > N"`
}

// Sizes of their own, but a layout by fields (the two agree).
type OSize struct {
	A uint8
	B uint16
}

func (o OSize) SizeOf() int { called("OSize", "size", nil, nil); return 3 }

type OBits struct {
	A uint8 `struct:"uint8:3"`
	B uint8 `struct:"uint8:2"`
}

func (o *OBits) BitSize() int { called("OBits", "size", nil, nil); return 5 }

// OBoth has both; its size in bits is what counts, being exact.
type OBoth struct {
	A uint8 `struct:"uint8:7"`
	B uint8 `struct:"uint8:4"`
}

func (o OBoth) BitSize() int { called("OBoth", "size", nil, nil); return 11 }
func (o OBoth) SizeOf() int  { called("OBoth", "size", nil, nil); return 2 }

func addStatic(zero interface{}, min int, aligned bool) {
	staticList = append(staticList, &Stat{T: reflect.TypeOf(zero), Min: min, Aligned: aligned})
}

func init() {
	addStatic(SRec{}, 24, false)
	addStatic(SPtr{}, 24, false)
	addStatic(SEmb{}, 24, false)
	addStatic(SMut{}, 8, false)
	addStatic(SCnt{}, 8, false)
	addStatic(SNum{}, 32+16+9+23+32+32, false)
	addStatic(sameName1(), 24, false)
	addStatic(sameName2(), 40, false)
	addStatic(sameName3(), 64, false)
	addStatic(LOuter{}, 24, false)
	addStatic(LNode{}, 8, false)
	addStatic(OSize{}, 24, false)
	addStatic(OBits{}, 5, false)
	staticList[len(staticList)-1].Mod = 5
	addStatic(OBoth{}, 11, false)
	staticList[len(staticList)-1].Mod = 3
	addStatic(png.ChunkIHDR{}, 13*8, false)
}
