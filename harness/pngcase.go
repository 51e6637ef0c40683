package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	stdpng "image/png"
	"reflect"

	rpng "github.com/go-restruct/restruct/formats/png"
)

// chunk is a chunk as this file's own reader and writer see it.
type chunk struct {
	Len  uint32
	Type string
	Data []byte
	CRC  uint32
}

func putChunk(b []byte, k chunk, o binary.ByteOrder) []byte {
	var w [4]byte
	o.PutUint32(w[:], k.Len)
	b = append(b, w[:]...)
	b = append(b, k.Type...)
	b = append(b, k.Data...)
	o.PutUint32(w[:], k.CRC)
	return append(b, w[:]...)
}

// getChunks splits a file. ok is false if it is truncated; clear is false if
// the file is malformed in a way that no answer is specified for.
func getChunks(b []byte, o binary.ByteOrder) (ks []chunk, ends []int, ok, clear bool) {
	if len(b) < 8 {
		return nil, nil, false, true
	}
	p := 8
	for first := true; first || p < len(b); first = false {
		if len(b)-p < 8 {
			return ks, ends, false, true
		}
		k := chunk{Len: o.Uint32(b[p:]), Type: string(b[p+4 : p+8])}
		p += 8
		for i := 0; i < 4; i++ {
			if k.Type[i] == 0 {
				return ks, ends, false, false
			}
		}
		if k.Type == "IHDR" && k.Len != 13 || k.Type == "IEND" && k.Len != 0 {
			return ks, ends, false, false
		}
		if uint64(len(b)-p) < uint64(k.Len)+4 {
			return ks, ends, false, true
		}
		k.Data = b[p : p+int(k.Len)]
		p += int(k.Len)
		k.CRC = o.Uint32(b[p:])
		p += 4
		ks = append(ks, k)
		ends = append(ends, p)
	}
	return ks, ends, true, true
}

// diffChunk compares a decoded chunk with what it must hold.
func diffChunk(got *rpng.Chunk, k chunk, o binary.ByteOrder) string {
	if got.Len != k.Len || got.Type != k.Type || got.CRC != k.CRC {
		return fmt.Sprintf("head is %d %q %08x, want %d %q %08x", got.Len, got.Type, got.CRC, k.Len, k.Type, k.CRC)
	}
	d := &got.Data
	n := 0
	for _, set := range []bool{d.IHDR != nil, d.IDAT != nil, d.IEND != nil, d.Raw != nil} {
		if set {
			n++
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d bodies are set", n)
	}
	switch k.Type {
	case "IHDR":
		h := d.IHDR
		if h == nil {
			return "IHDR is not set"
		}
		b := k.Data
		want := rpng.ChunkIHDR{Width: o.Uint32(b), Height: o.Uint32(b[4:]), BitDepth: b[8], ColorType: rpng.ColorType(b[9]), CompressionMethod: b[10], FilterMethod: b[11], InterlaceMethod: b[12]}
		if *h != want {
			return fmt.Sprintf("header is %+v, want %+v", *h, want)
		}
	case "IEND":
		if d.IEND == nil {
			return "IEND is not set"
		}
	case "IDAT":
		if d.IDAT == nil {
			return "IDAT is not set"
		}
		if !bytes.Equal(d.IDAT.Data, k.Data) {
			return fmt.Sprintf("data is %s, want %s", hx(d.IDAT.Data), hx(k.Data))
		}
		if d.IDAT.Parent != got {
			return "Parent is not the chunk"
		}
	default:
		if d.Raw == nil {
			return "Raw is not set"
		}
		if !bytes.Equal(d.Raw.Data, k.Data) {
			return fmt.Sprintf("data is %s, want %s", hx(d.Raw.Data), hx(k.Data))
		}
		if d.Raw.Parent != got {
			return "Parent is not the chunk"
		}
	}
	return ""
}

func diffFile(got *rpng.File, magic []byte, ks []chunk, o binary.ByteOrder) string {
	if !bytes.Equal(got.Magic[:], magic) {
		return fmt.Sprintf("signature is %x, want %x", got.Magic, magic)
	}
	if len(got.Chunks) != len(ks)-1 {
		return fmt.Sprintf("%d chunks after the header, want %d", len(got.Chunks), len(ks)-1)
	}
	for i, k := range ks {
		p := &got.Header
		if i > 0 {
			p = &got.Chunks[i-1]
		}
		if s := diffChunk(p, k, o); s != "" {
			return fmt.Sprintf("chunk %d (%q, %d bytes): %s", i, k.Type, k.Len, s)
		}
	}
	return ""
}

// buildChunk makes the structure for a chunk by hand.
func buildChunk(r *rng, k chunk, o binary.ByteOrder) (c rpng.Chunk) {
	c.Len, c.Type, c.CRC = k.Len, k.Type, k.CRC
	data := append([]byte{}, k.Data...)
	if len(data) == 0 && r.p(50) {
		data = nil
	}
	if r.p(15) { // other bodies are of no interest
		c.Data.Raw = &rpng.ChunkRaw{Data: r.bytes(r.n(9))}
		c.Data.IDAT = &rpng.ChunkIDAT{Data: r.bytes(r.n(9))}
		c.Data.IHDR = &rpng.ChunkIHDR{Width: 3}
		c.Data.IEND = &rpng.ChunkIEND{}
	}
	junk := &rpng.Chunk{Len: uint32(r.n(20))}
	if r.p(60) {
		junk = nil
	}
	switch b := k.Data; k.Type {
	case "IHDR":
		c.Data.IHDR = &rpng.ChunkIHDR{Width: o.Uint32(b), Height: o.Uint32(b[4:]), BitDepth: b[8], ColorType: rpng.ColorType(b[9]), CompressionMethod: b[10], FilterMethod: b[11], InterlaceMethod: b[12]}
	case "IEND":
		c.Data.IEND = &rpng.ChunkIEND{}
	case "IDAT":
		c.Data.IDAT = &rpng.ChunkIDAT{Parent: junk, Data: data}
	default:
		c.Data.Raw = &rpng.ChunkRaw{Parent: junk, Data: data}
	}
	return
}

func randChunk(r *rng, header bool) (k chunk) {
	letters := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.n(52)]
		}
		return string(b)
	}
	switch r.weighted([]int{30, 15, 15, 15, 15, 10}) {
	case 0:
		k.Type = "IDAT"
	case 1:
		k.Type = "IHDR"
	case 2:
		k.Type = "IEND"
	case 3:
		k.Type = pick(r, "PLTE", "tEXt", "gAMA", "sRGB", "pHYs", "iTXt", "zTXt", "bKGD", "tIME", "tRNS")
	case 4:
		k.Type = letters(4)
		if r.p(60) { // nearly a known one
			b := []byte(pick(r, "IHDR", "IDAT", "IEND"))
			b[r.n(4)] ^= byte(pick(r, 32, 1, 2, 128))
			k.Type = string(b)
		}
	default:
		b := r.bytes(4)
		for i := range b {
			if b[i] == 0 {
				b[i] = 255
			}
		}
		k.Type = string(b)
	}
	if header && r.p(85) {
		k.Type = "IHDR"
	}
	n := pick(r, 0, 0, 1, 2, 3, 4, 5, 7, 8, 12, 13, 14, 31, 255, 256, 257)
	if r.p(5) {
		n = pick(r, 65535, 65536, 65537, r.n(20000))
	}
	if r.n(400) == 0 {
		n = pick(r, 1<<18, 1<<20-1, 1<<20+1, r.n(1<<19))
	}
	switch k.Type {
	case "IHDR":
		n = 13
	case "IEND":
		n = 0
	}
	k.Data = r.bytes(n)
	if r.p(15) {
		copy(k.Data, "IDAT\x00\x00\x00\x00IEND")
	}
	k.Len = uint32(n)
	k.CRC = crc32.ChecksumIEEE(append([]byte(k.Type), k.Data...))
	if r.p(30) {
		k.CRC = uint32(r.u64())
	}
	return
}

func pngCase(c *Ctx) {
	r := c.R
	if r.p(15) {
		pngReal(c)
		return
	}
	little := r.p(30)
	o := orderOf(little)
	magic := []byte("\x89PNG\r\n\x1a\n")
	if r.p(20) {
		magic = r.bytes(8)
	}
	ks := []chunk{randChunk(r, true)}
	n := r.n(6)
	if r.p(5) {
		n = r.n(40)
	}
	if r.n(150) == 0 {
		n = r.in(100, pick(r, 300, 1200))
	}
	for i := 0; i < n; i++ {
		k := randChunk(r, false)
		for n > 40 && k.Len > 300 {
			k = randChunk(r, false)
		}
		ks = append(ks, k)
	}
	data := append([]byte(nil), magic...)
	seen := ""
	for _, k := range ks {
		data = putChunk(data, k, o)
		seen += fmt.Sprint(k.Type, k.Len, ".")
	}
	c.Distinct(hashStr(seen))
	c.Count("chunks", len(ks))
	c.Sample("%s %x: %s", lname(little), magic, seen)
	pngBytes(c, data, magic, ks, little)

	// From a structure made by hand.
	f := rpng.File{Header: buildChunk(r, ks[0], o)}
	copy(f.Magic[:], magic)
	for _, k := range ks[1:] {
		f.Chunks = append(f.Chunks, buildChunk(r, k, o))
	}
	var arg interface{} = &f
	if r.p(30) {
		arg = f
	}
	size, err, pan := sizeOf(arg)
	c.Eval(2)
	if err != nil || pan != "" || size != len(data) {
		c.Fail("SizeOf of a file of %d bytes is %d (%v %s): %s", len(data), size, err, pan, seen)
	}
	b, err, pan := pack(o, arg)
	if err != nil || pan != "" || !bytes.Equal(b, data) {
		c.Fail("%s: Pack gives %s (%v %s), want %s: %s", lname(little), hx(b), err, pan, hx(data), seen)
	}
	// A body of another length than the chunk states is refused.
	i := r.n(len(ks))
	p := &f.Header
	if i > 0 {
		p = &f.Chunks[i-1]
	}
	var d *[]byte
	if ks[i].Type == "IDAT" {
		d = &p.Data.IDAT.Data
	} else if ks[i].Type != "IHDR" && ks[i].Type != "IEND" {
		d = &p.Data.Raw.Data
	}
	if d != nil {
		old := *d
		*d = append(append([]byte{}, old...), r.bytes(1+r.n(3))...)
		if len(old) > 0 && r.p(50) {
			*d = old[:r.n(len(old))]
		}
		b, err, pan := pack(o, arg)
		if arg != interface{}(&f) {
			b, err, pan = pack(o, &f)
		}
		c.Eval(1)
		if err == nil || pan != "" {
			c.Fail("Pack of chunk %d with Len %d and %d bytes of data gives %s (%v %s)", i, ks[i].Len, len(*d), hx(b), err, pan)
		}
		*d = old
	}

	// Other bytes.
	for j := 0; j < 4; j++ {
		bad := append([]byte(nil), data...)
		switch r.n(4) {
		case 0: // cut
			bad = bad[:r.n(len(bad))]
		case 1: // another length somewhere
			at := 8
			for i := r.n(len(ks)); i > 0; i-- {
				at += 12 + int(ks[len(ks)-1-i].Len)
			}
			if at+4 <= len(bad) {
				o.PutUint32(bad[at:], pick(r, 0, 1, 12, 14, 0xffff, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, uint32(r.n(100))))
			}
		case 2: // left over
			bad = append(bad, r.bytes(1+r.n(11))...)
		default:
			bad = perturb(r, bad)
		}
		pngAny(c, bad, little)
	}
	if len(data) < 600 && r.p(25) { // every truncation
		for n := range data {
			pngAny(c, data[:n], little)
		}
	}
}

// pngBytes checks a well-formed file.
func pngBytes(c *Ctx, data, magic []byte, ks []chunk, little bool) {
	r := c.R
	o := orderOf(little)
	f := &rpng.File{}
	if r.p(30) { // into a structure that has been used
		var o2 []byte
		k := []chunk{randChunk(r, true), randChunk(r, false), randChunk(r, false)}
		o2 = append(o2, "ABCDEFGH"...)
		for _, k := range k[:1+r.n(3)] {
			o2 = putChunk(o2, k, o)
		}
		if err, pan := unpack(o2, o, f); err != nil || pan != "" {
			c.Fail("Unpack fails: %v %s: %s", err, pan, hx(o2))
		}
	}
	in := append([]byte(nil), data...)
	err, pan := unpack(in, o, f)
	c.Eval(3)
	if err != nil || pan != "" {
		c.Fail("%s: Unpack fails: %v %s: %s", lname(little), err, pan, hx(data))
		return
	}
	if s := diffFile(f, magic, ks, o); s != "" {
		c.Fail("%s: Unpack: %s: %s", lname(little), s, hx(data))
		return
	}
	if !bytes.Equal(in, data) {
		c.Fail("Unpack changes its input: %s", hx(data))
	}
	b, err, pan := pack(o, f)
	if err != nil || pan != "" || !bytes.Equal(b, data) {
		c.Fail("%s: packing what was unpacked gives %s (%v %s), want %s", lname(little), hx(b), err, pan, hx(data))
	}
	if s := diffFile(f, magic, ks, o); s != "" {
		c.Fail("%s: after Pack: %s: %s", lname(little), s, hx(data))
	}
	n, err, pan := sizeOf(f)
	if err != nil || pan != "" || n != len(data) {
		c.Fail("SizeOf of a file of %d bytes is %d (%v %s): %s", len(data), n, err, pan, hx(data))
	}
	// A single chunk on its own.
	i := r.n(len(ks))
	var k rpng.Chunk
	one := putChunk(nil, ks[i], o)
	err, pan = unpack(one, o, &k)
	if err != nil || pan != "" {
		c.Fail("Unpack of a single chunk fails: %v %s: %s", err, pan, hx(one))
	} else if s := diffChunk(&k, ks[i], o); s != "" {
		c.Fail("Unpack of a single chunk: %s: %s", s, hx(one))
	}
	// By way of JSON, which has no parents.
	ascii := true
	for _, k := range ks {
		for i := 0; i < 4; i++ {
			ascii = ascii && k.Type[i] < 128
		}
	}
	if ascii && len(data) < 4000 && r.p(30) {
		text, err := json.Marshal(f)
		if err != nil {
			c.Fail("the decoded file has no JSON form: %v: %s", err, hx(data))
			return
		}
		var g rpng.File
		if err := json.Unmarshal(text, &g); err != nil {
			c.Fail("the JSON form of the decoded file is rejected: %v: %s", err, text)
			return
		}
		b, err, pan := pack(o, &g)
		c.Eval(1)
		c.Count("via_json", 1)
		if err != nil || pan != "" || !bytes.Equal(b, data) {
			c.Fail("%s: packing the JSON form gives %s (%v %s), want %s", lname(little), hx(b), err, pan, hx(data))
		}
	}
}

// pngAny checks what any bytes give.
func pngAny(c *Ctx, data []byte, little bool) {
	o := orderOf(little)
	ks, _, ok, clear := getChunks(data, o)
	var f rpng.File
	err, pan := unpack(data, o, &f)
	c.Eval(1)
	switch {
	case pan != "":
		c.Fail("Unpack panics: %s: %s", pan, hx(data))
	case !clear:
		c.Count("outside_domain", 1)
	case !ok && err == nil:
		c.Fail("%s: Unpack accepts a truncated file: %s", lname(little), hx(data))
	case !ok:
		c.Count("truncated", 1)
	case err != nil:
		c.Fail("%s: Unpack fails: %v: %s", lname(little), err, hx(data))
	default:
		if s := diffFile(&f, data[:8], ks, o); s != "" {
			c.Fail("%s: Unpack: %s: %s", lname(little), s, hx(data))
			return
		}
		b, err, pan := pack(o, &f)
		if err != nil || pan != "" || !bytes.Equal(b, data) {
			c.Fail("%s: packing what was unpacked gives %s (%v %s), want %s", lname(little), hx(b), err, pan, hx(data))
		}
	}
}

// pngReal uses files from an unrelated encoder.
func pngReal(c *Ctx) {
	r := c.R
	w, h := 1+r.n(40), 1+r.n(40)
	if r.p(3) {
		w, h = 300, 200
	}
	rect := image.Rect(0, 0, w, h)
	var m image.Image
	var depth byte = 8
	var ct rpng.ColorType
	fill := func(p []byte) { copy(p, r.bytes(len(p))) }
	switch r.n(6) {
	case 0:
		i := image.NewGray(rect)
		fill(i.Pix)
		m, ct = i, rpng.ColorGreyscale
	case 1:
		i := image.NewGray16(rect)
		fill(i.Pix)
		m, ct, depth = i, rpng.ColorGreyscale, 16
	case 2:
		i := image.NewNRGBA(rect)
		fill(i.Pix)
		i.Pix[3] = 7
		m, ct = i, rpng.ColorTrueColorAlpha
	case 3:
		i := image.NewRGBA(rect)
		for j := range i.Pix {
			i.Pix[j] = 255
		}
		m, ct = i, rpng.ColorTrueColor
	case 4:
		i := image.NewNRGBA64(rect)
		fill(i.Pix)
		i.Pix[6], i.Pix[7] = 7, 7
		m, ct, depth = i, rpng.ColorTrueColorAlpha, 16
	default:
		i := image.NewPaletted(rect, color.Palette{color.Black, color.White, color.NRGBA{1, 2, 3, 4}})
		for j := range i.Pix {
			i.Pix[j] = byte(r.n(3))
		}
		m, ct, depth = i, rpng.ColorIndexed, 2
	}
	var buf bytes.Buffer
	enc := stdpng.Encoder{CompressionLevel: pick(r, stdpng.DefaultCompression, stdpng.NoCompression, stdpng.BestSpeed)}
	if err := enc.Encode(&buf, m); err != nil {
		panic(err)
	}
	data := buf.Bytes()
	ks, ends, ok, _ := getChunks(data, binary.BigEndian)
	if !ok {
		panic("own reader")
	}
	c.Count("real_images", 1)
	c.Distinct(hashStr(string(data)))
	pngBytes(c, data, data[:8], ks, false)
	var f rpng.File
	if err, pan := unpack(data, binary.BigEndian, &f); err != nil || pan != "" {
		c.Fail("Unpack fails: %v %s", err, pan)
		return
	}
	if hd := f.Header.Data.IHDR; hd == nil || int(hd.Width) != w || int(hd.Height) != h || hd.BitDepth != depth || hd.ColorType != ct {
		c.Fail("the header of a %dx%d image, depth %d, color type %d, is %+v", w, h, depth, ct, hd)
	}
	// Adding a chunk and reading the picture back.
	k := chunk{Type: "teSt", Data: r.bytes(r.n(30))}
	k.Len = uint32(len(k.Data))
	k.CRC = crc32.ChecksumIEEE(append([]byte(k.Type), k.Data...))
	at := pick(r, 0, len(f.Chunks)-1) // not between IDATs
	f.Chunks = append(f.Chunks[:at:at], append([]rpng.Chunk{buildChunk(r, k, binary.BigEndian)}, f.Chunks[at:]...)...)
	b, err, pan := pack(binary.BigEndian, &f)
	want := append(append([]byte{}, data[:ends[at]]...), putChunk(nil, k, binary.BigEndian)...)
	want = append(want, data[ends[at]:]...)
	c.Eval(2)
	if err != nil || pan != "" || !bytes.Equal(b, want) {
		c.Fail("an image with a chunk added packs to %s (%v %s), want %s", hx(b), err, pan, hx(want))
		return
	}
	back, err := stdpng.Decode(bytes.NewReader(b))
	if err != nil {
		c.Fail("the repacked image does not decode: %v", err)
		return
	}
	if !reflect.DeepEqual(back.Bounds(), m.Bounds()) {
		c.Fail("the repacked image has bounds %v, want %v", back.Bounds(), m.Bounds())
	}
}

func init() {
	register(&Check{ID: "C23",
		Rule:  "Case = a random sequence of chunks (known, nearly known and arbitrary types; lengths 0 to 65537; right and wrong checksums; both byte orders), or an image made by image/png. It is unpacked into fresh and used structures, compared field by field (and by parent link) with an independent chunk reader, packed again, packed from a hand-made structure with foreign parents and bodies, by way of JSON, with bodies of a wrong length (to be refused), cut at every position, damaged, and with huge lengths. Non-trivial: distinct sequences.",
		Quick: 24000, Thorough: 500000,
		Case: pngCase})
}
