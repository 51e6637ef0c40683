package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"github.com/go-restruct/restruct"
)

// Calls of the code under test. A panic that escapes is reported as pan.

func guard(pan *string) {
	if r := recover(); r != nil {
		*pan = fmt.Sprintf("panic: %v at %s", r, firstFrames(string(debug.Stack())))
	}
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "restruct") && strings.Contains(l, ".go:") && len(out) < 4 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, " < ")
}

func pack(o binary.ByteOrder, v interface{}) (b []byte, err error, pan string) {
	defer guard(&pan)
	b, err = restruct.Pack(o, v)
	return
}

func unpack(b []byte, o binary.ByteOrder, v interface{}) (err error, pan string) {
	defer guard(&pan)
	err = restruct.Unpack(b, o, v)
	return
}

func sizeOf(v interface{}) (n int, err error, pan string) {
	defer guard(&pan)
	n, err = restruct.SizeOf(v)
	return
}

func bitSize(v interface{}) (n int, err error, pan string) {
	defer guard(&pan)
	n, err = restruct.BitSize(v)
	return
}

// orderOf gives one of the byte orders of a kind: mostly the common one, now and
// then the native one or one of the caller's own.
func orderOf(little bool) binary.ByteOrder {
	n := orderUse.Add(1)
	native := binary.NativeEndian.Uint16([]byte{1, 0}) == 1
	switch {
	case n%6 == 0 && native == little:
		return binary.NativeEndian
	case n%5 == 0 && little:
		return ownOrder{binary.LittleEndian}
	case n%5 == 0:
		return &ownOrder{binary.BigEndian}
	case little:
		return binary.LittleEndian
	}
	return binary.BigEndian
}

// orderUse counts the byte orders given out in a case.
var orderUse atomic.Int64

type ownOrder struct{ binary.ByteOrder }

func lname(little bool) string {
	if little {
		return "LE"
	}
	return "BE"
}

// prep brings a value into the state that packing leaves it in: links and
// counters set.
func prep(v reflect.Value) error {
	setLinks(v)
	if err := fixCounters(v); err != nil {
		return err
	}
	return nil
}

// reference encodes a private copy of a value.
func reference(v reflect.Value, little, trace bool) (e *refEnc, after reflect.Value, err error) {
	after = deepCopy(v)
	if err := prep(after); err != nil {
		return nil, after, err
	}
	e, err = refEncode(after, little, trace)
	return e, after, err
}

// refUnpack decodes into a private copy of a destination.
func refUnpack(data []byte, dst reflect.Value, little, quirk bool) (d *refDec, after reflect.Value, err error) {
	after = deepCopy(dst)
	d, err = refDecode(data, after, little, quirk)
	return d, after, err
}

func hx(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func tname(t reflect.Type) string {
	s := t.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// firstDiff locates the first bit in which two byte strings differ.
func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d: %#02x != %#02x", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d != %d", len(a), len(b))
}

// perturb changes a few bits of b.
func perturb(r *rng, b []byte) []byte {
	c := append([]byte(nil), b...)
	for i := r.in(1, 4); i > 0 && len(c) > 0; i-- {
		switch r.n(3) {
		case 0:
			c[r.n(len(c))] ^= 1 << uint(r.n(8))
		case 1:
			c[r.n(len(c))] = byte(r.u64())
		default:
			c[r.n(len(c))] = pick(r, byte(0), 0xff, 0x80, 0x7f, 1)
		}
	}
	return c
}
