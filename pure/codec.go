package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/pure/ref"
)

var makers = map[string]func() packet.ArtNetPacket{
	"ArtPoll":        func() packet.ArtNetPacket { return packet.NewArtPollPacket() },
	"ArtPollReply":   func() packet.ArtNetPacket { return packet.NewArtPollReplyPacket() },
	"ArtDiagData":    func() packet.ArtNetPacket { return packet.NewArtDiagDataPacket() },
	"ArtCommand":     func() packet.ArtNetPacket { return packet.NewArtCommandPacket() },
	"ArtDMX":         func() packet.ArtNetPacket { return packet.NewArtDMXPacket() },
	"ArtNzs":         func() packet.ArtNetPacket { return packet.NewArtNzsPacket() },
	"ArtSync":        func() packet.ArtNetPacket { return packet.NewArtSyncPacket() },
	"ArtAddress":     func() packet.ArtNetPacket { return packet.NewArtAddressPacket() },
	"ArtTimeCode":    func() packet.ArtNetPacket { return packet.NewArtTimeCodePacket() },
	"ArtTrigger":     func() packet.ArtNetPacket { return packet.NewArtTriggerPacket() },
	"ArtIPProg":      func() packet.ArtNetPacket { return packet.NewArtIPProgPacket() },
	"ArtIPProgReply": func() packet.ArtNetPacket { return packet.NewArtIPProgReplyPacket() },
}

// verdicts of the reference
const (
	mustFail   = iota // C01 demands an error
	mustAccept        // C03 / C04 demand acceptance
	either            // the properties say nothing
)

func judge(d []byte) (int, *ref.Kind) {
	if len(d) < 12 || !bytes.Equal(d[:8], ref.ID[:]) {
		return mustFail, nil
	}
	k := ref.ByOp(uint16(d[8]) | uint16(d[9])<<8)
	if k == nil {
		return mustFail, nil
	}
	if k.Name != "ArtPollReply" && d[11] < 14 {
		return mustFail, k
	}
	if k.Name == "ArtDMX" {
		if len(d) < 18 {
			return mustFail, k
		}
		n := int(d[16])<<8 | int(d[17])
		if n < 2 || n > 512 || n%2 != 0 || len(d) < 18+n {
			return mustFail, k
		}
		return mustAccept, k
	}
	if len(d) < k.Len {
		return mustFail, k
	}
	switch k.Name {
	case "ArtCommand":
		if d[12] != 0xff || d[13] != 0xff {
			return mustFail, k
		}
	case "ArtPollReply":
		if d[200] > 6 {
			return mustFail, k
		}
		if !(d[14] == 0x36 && d[15] == 0x19) && !(d[14] == 0x19 && d[15] == 0x36) {
			return mustFail, k
		}
	}
	return mustAccept, k
}

// decode runs the library and checks that the input is left alone.
func decode(c *ctx, d []byte) (packet.ArtNetPacket, error) {
	ev(1)
	c.in = d
	// spare capacity with a marker: nothing beyond the datagram may be read into
	// the result or written
	buf := make([]byte, len(d), len(d)+16)
	copy(buf, d)
	tail := buf[len(d) : len(d)+16]
	for i := range tail {
		tail[i] = 0xa5
	}
	p, err := packet.Unmarshal(buf)
	if !bytes.Equal(buf, d) {
		c.fail("decoding modified the datagram")
	}
	for i := range tail {
		if tail[i] != 0xa5 {
			c.fail("decoding wrote behind the datagram")
		}
	}
	return p, err
}

// safe checks C01 for a datagram.
func safe(c *ctx, d []byte) {
	p, err := decode(c, d)
	v, k := judge(d)
	if err == nil {
		if v == mustFail {
			c.fail("accepted as %T (%s)", p, why(d))
		}
		if p == nil || reflect.ValueOf(p).IsNil() {
			c.fail("neither a packet nor an error")
		}
		if got := reflect.TypeOf(p).Elem().Name(); got != k.Name+"Packet" {
			c.fail("decoded as %s, the opcode names %s", got, k.Name)
		}
		if uint16(p.GetOpCode()) != k.Op {
			c.fail("opcode %#x, want %#x", uint16(p.GetOpCode()), k.Op)
		}
	}
}

func why(d []byte) string {
	if len(d) < 12 {
		return fmt.Sprintf("only %d bytes", len(d))
	}
	return fmt.Sprintf("length %d, opcode %#x, version %d", len(d), int(d[8])|int(d[9])<<8, d[11])
}

// faithful checks C03 for a well-formed datagram.
func faithful(c *ctx, d []byte) {
	v, k := judge(d)
	if v != mustAccept {
		return
	}
	p, err := decode(c, d)
	if err != nil {
		c.fail("well-formed %s rejected: %v", k.Name, err)
	}
	if m := ref.Mismatch(p, k, d); m != "" {
		c.fail("%s", m)
	}
}

func fill(k *ref.Kind, seed int) []byte {
	d := k.New()
	for i := range k.Fields {
		f := &k.Fields[i]
		v := make([]byte, f.Size)
		for j := range v {
			v[j] = byte(seed*89 + f.Off*3 + j*7 + 1)
		}
		switch k.Name + "." + f.Name {
		case "ArtPollReply.Port", "ArtCommand.ESTAmanufacturer":
			continue
		case "ArtPollReply.Style":
			v[0] = byte(seed) % 7
		case "ArtDMX.Length":
			n := 512 - (seed*58%256)*2
			v[0], v[1] = byte(n>>8), byte(n)
		}
		k.Put(d, f.Name, v...)
	}
	if k.Name == "ArtDMX" {
		n := int(d[16])<<8 | int(d[17])
		d = d[:18+n]
	}
	return d
}

// seeds 0: all zero; others: filled
func base(k *ref.Kind, seed int) []byte {
	if seed == 0 {
		return k.New()
	}
	return fill(k, seed)
}

var edge = []byte{0, 1, 2, 13, 14, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func nseeds(th bool) int {
	if th {
		return 6
	}
	return 3
}

// single enumerates all values of all bytes of all kinds, from several bases.
func single(name string, th bool, f func(c *ctx, d []byte)) space {
	type pos struct{ k, s, i int }
	var ps []pos
	for k := range ref.Kinds {
		for s := 0; s < nseeds(th); s++ {
			for i := range base(ref.Kinds[k], s) {
				ps = append(ps, pos{k, s, i})
			}
		}
	}
	return space{name, len(ps), func(c *ctx, n int) {
		p := ps[n]
		d := base(ref.Kinds[p.k], p.s)
		for v := 0; v < 256; v++ {
			d[p.i] = byte(v)
			f(c, d)
		}
	}}
}

// pairs enumerates pairs of bytes with boundary values.
func pairs(name string, th bool, limit int, f func(c *ctx, d []byte)) space {
	type pos struct{ k, s, i, j int }
	var ps []pos
	for k := range ref.Kinds {
		for s := 0; s < 2; s++ {
			n := len(base(ref.Kinds[k], s))
			if n > limit {
				n = limit
			}
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					ps = append(ps, pos{k, s, i, j})
				}
			}
		}
	}
	return space{name, len(ps), func(c *ctx, n int) {
		p := ps[n]
		d := base(ref.Kinds[p.k], p.s)
		oi, oj := d[p.i], d[p.j]
		for _, v := range edge {
			for _, w := range edge {
				d[p.i], d[p.j] = v, w
				f(c, d)
			}
		}
		d[p.i], d[p.j] = oi, oj
	}}
}

// fieldExtreme gives a field one of 6 whole values: its base value, all zero, all
// ones, a one in the last byte, a one in the first bit, ascending.
func fieldExtreme(k *ref.Kind, f *ref.Field, v int, out []byte) bool {
	if v == 0 {
		return true
	}
	for i := range out {
		switch v {
		case 1, 3, 4:
			out[i] = 0
		case 2:
			out[i] = 0xff
		case 5:
			out[i] = byte(i + 1)
		}
	}
	switch v {
	case 3:
		out[len(out)-1] = 1
	case 4:
		out[0] = 0x80
	}
	switch k.Name + "." + f.Name {
	case "ArtPollReply.Port", "ArtCommand.ESTAmanufacturer":
		return false
	case "ArtPollReply.Style":
		return out[0] <= 6
	}
	return true
}

// fieldSets enumerates whole-field extremes for all pairs and triples of fields of
// all kinds, from several bases.
func fieldSets(name string, th bool, f func(c *ctx, d []byte)) space {
	type pos struct{ k, s, a, b, t int }
	var ps []pos
	for k := range ref.Kinds {
		n := len(ref.Kinds[k].Fields)
		for s := 0; s < nseeds(th); s++ {
			for a := 0; a < n; a++ {
				for b := a; b < n; b++ {
					for t := b; t < n; t++ {
						ps = append(ps, pos{k, s, a, b, t})
					}
				}
			}
		}
	}
	return space{name, len(ps), func(c *ctx, n int) {
		p := ps[n]
		k := ref.Kinds[p.k]
		orig := base(k, p.s)
		fs := []*ref.Field{&k.Fields[p.a], &k.Fields[p.b], &k.Fields[p.t]}
		vals := []int{1, 2, 5}
		if p.b == p.t {
			vals = []int{0, 1, 2, 3, 4, 5}
		}
		for _, x := range vals {
			for _, y := range vals {
				for _, z := range vals {
					if p.b == p.t && z != y || p.a == p.b && y != x {
						continue
					}
					d := append([]byte(nil), orig...)
					ok := true
					for i, v := range []int{x, y, z} {
						if fs[i].Off+fs[i].Size > len(d) {
							if k.Name != "ArtDMX" || fs[i].Name != "Data" {
								ok = false
								break
							}
							ok = ok && fieldExtreme(k, fs[i], v, d[fs[i].Off:])
							continue
						}
						ok = ok && fieldExtreme(k, fs[i], v, d[fs[i].Off:fs[i].Off+fs[i].Size])
					}
					if ok {
						f(c, d)
					}
				}
			}
		}
	}}
}

func init() {
	// ---- C01 ----
	checks = append(checks, check{"C01", func(th bool) []space {
		lens := []int{12, 13, 14, 17, 18, 19, 20, 33, 34, 35, 106, 107, 238, 239, 240, 527, 528, 529, 530, 531, 600, 1400}
		sp := []space{
			{"all 65536 opcodes x 22 lengths x 2 contents", 65536, func(c *ctx, i int) {
				for _, l := range lens {
					for _, b := range []byte{0, 0xff} {
						d := bytes.Repeat([]byte{b}, l)
						copy(d, ref.ID[:])
						d[8], d[9] = byte(i), byte(i>>8)
						d[10], d[11] = 0, 14
						safe(c, d)
					}
				}
			}},
			{"all lengths 0..1500 of all kinds x 3 contents, cut or extended", 1501, func(c *ctx, i int) {
				for _, k := range ref.Kinds {
					for s := 0; s < nseeds(th); s++ {
						d := base(k, s)
						for len(d) < i {
							d = append(d, byte(s))
						}
						safe(c, d[:i])
					}
				}
			}},
			{"all versions x 12 kinds", 65536, func(c *ctx, i int) {
				for _, k := range ref.Kinds {
					d := k.New()
					if k.Name == "ArtPollReply" {
						continue
					}
					d[10], d[11] = byte(i>>8), byte(i)
					safe(c, d)
				}
			}},
			single("all values of every byte of every kind, from several contents", th, safe),
			fieldSets("whole-field extremes of all pairs and triples of fields", th, safe),
			pairs("pairs of header and leading bytes, 16x16 boundary values", th, 20, safe),
			{"all 65536 values of bytes 10-11, 12-13, 14-15 and 16-17 of every kind (thorough: of all adjacent bytes up to 40)", 12 * 30, func(c *ctx, n int) {
				k, i := ref.Kinds[n/30], 10+n%30
				for s := 0; s < nseeds(th); s++ {
					if !th && (s != 1 || i > 17 || i%2 == 1) {
						continue
					}
					d := base(k, s)
					if i+1 >= len(d) {
						return
					}
					for v := 0; v < 65536; v++ {
						d[i], d[i+1] = byte(v), byte(v>>8)
						safe(c, d)
					}
				}
			}},
			{"byte strings of length 0..3 completely, 4..11 uniform", 1 + 256 + 65536 + 256, func(c *ctx, i int) {
				switch {
				case i == 0:
					safe(c, nil)
					safe(c, []byte{})
				case i <= 256:
					safe(c, []byte{byte(i - 1)})
				case i <= 256+65536:
					x := i - 257
					safe(c, []byte{byte(x), byte(x >> 8)})
				default:
					x := byte(i - 257 - 65536)
					for l := 3; l < 12; l++ {
						safe(c, bytes.Repeat([]byte{x}, l))
						d := bytes.Repeat([]byte{x}, l)
						copy(d, ref.ID[:])
						safe(c, d)
					}
				}
			}},
			{"decoding into each kind: datagrams of every kind, every identifier byte value, every opcode, every length", 12 * 12, func(c *ctx, i int) {
				k, o := ref.Kinds[i/12], ref.Kinds[i%12]
				c.what = "decoding into " + k.Name
				into := func(d []byte) error {
					ev(1)
					c.in = d
					cp := append([]byte(nil), d...)
					p := makers[k.Name]()
					if len(d)%2 == 1 {
						p = reflect.New(reflect.TypeOf(p).Elem()).Interface().(packet.ArtNetPacket)
					}
					err := p.UnmarshalBinary(cp)
					if !bytes.Equal(cp, d) {
						c.fail("decoding modified the datagram")
					}
					return err
				}
				for s := 0; s < 3; s++ {
					d := base(o, s)
					for len(d) < 600 {
						d = append(d, 0xff, 0xff, 0)
					}
					if k.Name == "ArtPollReply" {
						d[14], d[15], d[200] = 0x36, 0x19, 0
					} else {
						d[10], d[11] = 0, 14
					}
					if k.Name == "ArtDMX" {
						d[16], d[17] = 2, 0
					}
					if k.Name == "ArtCommand" {
						d[12], d[13] = 0xff, 0xff
					}
					if k != o {
						if into(d) == nil {
							c.fail("accepted a datagram with the opcode of %s", o.Name)
						}
						for l := 0; l < len(d); l++ {
							if into(d[:l]) == nil {
								c.fail("accepted a datagram with the opcode of %s, length %d", o.Name, l)
							}
						}
						continue
					}
					if err := into(d); err != nil {
						c.fail("rejected a well-formed datagram: %v", err)
					}
					for b := 0; b < 8; b++ {
						for v := 0; v < 256; v++ {
							if byte(v) == ref.ID[b] {
								continue
							}
							old := d[b]
							d[b] = byte(v)
							if into(d) == nil {
								c.fail("accepted with byte %d of the identifier %#x", b, v)
							}
							d[b] = old
						}
					}
					for v := 0; v < 65536; v++ {
						if uint16(v) == k.Op {
							continue
						}
						d[8], d[9] = byte(v), byte(v>>8)
						if into(d) == nil {
							c.fail("accepted with opcode %#x", v)
						}
					}
					d[8], d[9] = byte(k.Op), byte(k.Op>>8)
					min := k.Len
					if k.Name == "ArtDMX" {
						min = 18 + 512
					}
					for l := 0; l < min; l++ {
						if into(d[:l]) == nil {
							c.fail("accepted with length %d, layout is %d", l, min)
						}
					}
				}
			}},
		}
		if th {
			sp = append(sp, pairs("pairs of bytes 0..110, 16x16 boundary values", th, 110, safe),
				space{"three header bytes: opcode bytes and version low byte, all values", 65536, func(c *ctx, i int) {
					d := bytes.Repeat([]byte{0}, 600)
					copy(d, ref.ID[:])
					d[8], d[9] = byte(i), byte(i>>8)
					for v := 0; v < 256; v++ {
						d[11] = byte(v)
						safe(c, d)
					}
				}})
		}
		return sp
	}})

	// ---- C02 ----
	checks = append(checks, check{"C02", func(th bool) []space {
		type pos struct{ k, s, f, b int }
		var ps []pos
		for k := range ref.Kinds {
			for s := 0; s < nseeds(th); s++ {
				ps = append(ps, pos{k, s, -1, 0})
				for f := range ref.Kinds[k].Fields {
					fl := &ref.Kinds[k].Fields[f]
					if fl.Wide {
						ps = append(ps, pos{k, s, f, 0})
						continue
					}
					for b := 0; b < fl.Size; b++ {
						ps = append(ps, pos{k, s, f, b})
					}
				}
			}
		}
		sp := []space{{"every value of every field byte (16-bit fields: all 65536) of every kind, from several contents", len(ps), func(c *ctx, n int) {
			p := ps[n]
			k := ref.Kinds[p.k]
			vals := fieldValues(k, p.s)
			if p.f < 0 {
				encode(c, k, vals, nil)
				return
			}
			f := &k.Fields[p.f]
			top := 256
			if f.Wide {
				top = 65536
			}
			for v := 0; v < top; v++ {
				if f.Wide {
					vals[p.f][0], vals[p.f][1] = byte(v>>8), byte(v)
				} else {
					vals[p.f][p.b] = byte(v)
				}
				encode(c, k, vals, nil)
			}
		}},
			{"packets that come from no constructor, empty and with 8 contents; constructed ones with nothing set", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for s := -1; s < 9; s++ {
					fresh := makers[k.Name]()
					plain := reflect.New(reflect.TypeOf(fresh).Elem()).Interface().(packet.ArtNetPacket)
					want := k.New()
					if s >= 0 {
						vals := fieldValues(k, s)
						want = expect(k, vals)
						for _, p := range []packet.ArtNetPacket{fresh, plain} {
							v := reflect.ValueOf(p).Elem()
							for i, f := range k.Fields {
								ref.Set(v.FieldByName(f.Name), vals[i])
							}
						}
					}
					for i, p := range []packet.ArtNetPacket{plain, fresh} {
						c.what = "encoding " + k.Name + []string{" not made by its constructor", " just constructed"}[i]
						for r := 0; r < 3; r++ {
							ev(1)
							b, err := p.MarshalBinary()
							if err != nil {
								c.fail("error: %v", err)
							}
							c.in = b
							if !bytes.Equal(b, want) {
								c.fail("encoding number %d: %s", r+1, diffAt(k, b, want))
							}
						}
					}
				}
			}},
			{"header fields preset to every pattern", 12 * 256, func(c *ctx, n int) {
				k := ref.Kinds[n/256]
				x := byte(n % 256)
				vals := fieldValues(k, 1)
				encode(c, k, vals, func(v reflect.Value) {
					for _, f := range []string{"ID", "OpCode", "Version"} {
						if fv := v.FieldByName(f); fv.IsValid() {
							ref.Set(fv, bytes.Repeat([]byte{x}, 8))
						}
					}
				})
			}},
			fieldSets("whole-field extremes of all pairs and triples of fields, encoded", th, func(c *ctx, d []byte) {
				k := ref.ByOp(uint16(d[8]) | uint16(d[9])<<8)
				for len(d) < k.Len {
					d = append(d, 0)
				}
				var vals [][]byte
				for _, f := range k.Fields {
					vals = append(vals, k.Get(d, f.Name))
				}
				encode(c, k, vals, nil)
			}),
			{"encodings stay intact: every pair of kinds and contents encoded one after the other", 144, func(c *ctx, n int) {
				a, b := ref.Kinds[n/12], ref.Kinds[n%12]
				for s := 0; s < 4; s++ {
					for t := 0; t < 4; t++ {
						va, vb := fieldValues(a, s), fieldValues(b, t)
						pa, pb := build(a, va), build(b, vb)
						ev(3)
						da, err := pa.MarshalBinary()
						if err != nil {
							c.fail("error: %v", err)
						}
						db, err := pb.MarshalBinary()
						if err != nil {
							c.fail("error: %v", err)
						}
						c.in = da
						if w := expect(a, va); !bytes.Equal(da, w) {
							c.fail("encoded %s after encoding %s: %s", a.Name, b.Name, diffAt(a, da, w))
						}
						for i := range da {
							da[i] = 0xee // the caller may do this
						}
						c.in = db
						if w := expect(b, vb); !bytes.Equal(db, w) {
							c.fail("encoded %s: %s", b.Name, diffAt(b, db, w))
						}
						da, err = pa.MarshalBinary()
						if w := expect(a, va); err != nil || !bytes.Equal(da, w) {
							c.fail("encoding %s again: %s", a.Name, diffAt(a, da, w))
						}
					}
				}
			}},
			{"decode, encode, encode again: all single byte values", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for s := 0; s < nseeds(th); s++ {
					d := base(k, s)
					for i := 10; i < len(d); i++ {
						old := d[i]
						for v := 0; v < 256; v += 5 {
							d[i] = byte(v)
							if j, _ := judge(d); j != mustAccept {
								continue
							}
							p, err := decode(c, d)
							if err != nil {
								continue // C03's business
							}
							want := canonical(k, d)
							for r := 0; r < 3; r++ {
								b, err := p.MarshalBinary()
								if err != nil {
									c.fail("encoding a decoded %s: %v", k.Name, err)
								}
								if !bytes.Equal(b, want) {
									c.fail("encoding number %d of a decoded %s: %s", r+1, k.Name, diffAt(k, b, want))
								}
							}
						}
						d[i] = old
					}
				}
			}},
		}
		return sp
	}})

	// ---- C03 ----
	checks = append(checks, check{"C03", func(th bool) []space {
		sp := []space{
			single("all values of every byte of every kind, from several contents", th, faithful),
			fieldSets("whole-field extremes of all pairs and triples of fields", th, faithful),
			pairs("pairs of leading bytes, 16x16 boundary values", th, 40, faithful),
			{"trailing bytes: lengths 1..300 and up to 1500, 3 contents", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for s := 0; s < nseeds(th); s++ {
					d := base(k, s)
					for t := 0; t < 1500; t++ {
						d = append(d, byte(t*7+s))
						if t < 300 || t%100 == 0 {
							faithful(c, d)
						}
					}
				}
			}},
			{"versions 14..255 with every high byte", 242, func(c *ctx, n int) {
				for _, k := range ref.Kinds {
					if k.Name == "ArtPollReply" {
						continue
					}
					for h := 0; h < 256; h++ {
						d := k.New()
						d[10], d[11] = byte(h), byte(14+n)
						faithful(c, d)
					}
				}
			}},
			{"spare bytes: all values of each, compared with zero", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for s := 0; s < nseeds(th); s++ {
					d := base(k, s)
					for _, i := range k.Spare() {
						if i >= len(d) {
							continue
						}
						for v := 0; v < 256; v++ {
							d[i] = byte(v)
							faithful(c, d)
						}
					}
				}
			}},
			{"16-bit fields: all values", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for _, f := range k.Fields {
					if !f.Wide {
						continue
					}
					d := fill(k, 1)
					if k.Name == "ArtDMX" {
						continue // C04
					}
					for v := 0; v < 65536; v++ {
						k.Put(d, f.Name, byte(v>>8), byte(v))
						faithful(c, d)
					}
				}
			}},
			{"poll reply port in both orders x styles", 14, func(c *ctx, n int) {
				k := ref.ByName("ArtPollReply")
				d := fill(k, 2)
				d[14], d[15] = 0x36, 0x19
				if n%2 == 1 {
					d[14], d[15] = 0x19, 0x36
				}
				d[200] = byte(n / 2)
				faithful(c, d)
			}},
			{"packets stay intact: every pair of kinds and contents decoded one after the other, buffers reused, decoding into a used packet", 12 * 12, func(c *ctx, n int) {
				a, b := ref.Kinds[n/12], ref.Kinds[n%12]
				for s := 0; s < 4; s++ {
					for t := 0; t < 4; t++ {
						da, db := base(a, s), base(b, t)
						buf := make([]byte, 2048)
						copy(buf, da)
						c.in = da
						pa, err := packet.Unmarshal(buf[:len(da)])
						if err != nil {
							c.fail("rejected: %v", err)
						}
						copy(buf, db)
						c.in = db
						pb, err := packet.Unmarshal(buf[:len(db)])
						if err != nil {
							c.fail("rejected: %v", err)
						}
						for i := range buf {
							buf[i] = 0xee
						}
						ev(2)
						if m := ref.Mismatch(pa, a, da); m != "" {
							c.fail("after the buffer was reused: %s", m)
						}
						if m := ref.Mismatch(pb, b, db); m != "" {
							c.fail("after the buffer was reused: %s", m)
						}
						if a == b {
							if err := pa.UnmarshalBinary(db); err != nil {
								c.fail("rejected when decoded into a used packet: %v", err)
							}
							if m := ref.Mismatch(pa, b, db); m != "" {
								c.fail("decoded into a used packet: %s", m)
							}
							if m := ref.Mismatch(pb, b, db); m != "" {
								c.fail("%s", m)
							}
						}
					}
				}
			}},
			{"decode(encode(p)) == p for all single field values", 12, func(c *ctx, n int) {
				k := ref.Kinds[n]
				for s := 0; s < nseeds(th); s++ {
					vals := fieldValues(k, s)
					for fi := range k.Fields {
						for b := range vals[fi] {
							old := vals[fi][b]
							for v := 0; v < 256; v += 3 {
								vals[fi][b] = byte(v)
								if k.Name == "ArtPollReply" && k.Fields[fi].Name == "Style" && v > 6 {
									continue
								}
								p := build(k, vals)
								enc, err := p.MarshalBinary()
								if err != nil {
									c.fail("encode: %v", err)
								}
								q, err := decode(c, enc)
								if err != nil {
									c.fail("decoding an encoded %s: %v", k.Name, err)
								}
								if m := ref.Mismatch(q, k, expect(k, vals)); m != "" {
									c.fail("round trip: %s", m)
								}
							}
							vals[fi][b] = old
						}
					}
				}
			}},
		}
		if th {
			sp = append(sp, pairs("pairs of bytes 12..110, 16x16 boundary values", th, 110, faithful))
		}
		return sp
	}})

	// ---- C04 ----
	kd := ref.ByName("ArtDMX")
	dmx := func(l, n int, seed byte) []byte {
		d := make([]byte, 18+n)
		copy(d, kd.New())
		d[12], d[13], d[14], d[15] = seed+1, seed+2, seed+3, seed+4
		d[16], d[17] = byte(l>>8), byte(l)
		for i := 0; i < n; i++ {
			d[18+i] = byte(i*7) + seed + 1
			if d[18+i] == 0 {
				d[18+i] = 0x5a
			}
		}
		return d
	}
	dcheck := func(c *ctx, d []byte) {
		p, err := decode(c, d)
		l := int(d[16])<<8 | int(d[17])
		legal := l >= 2 && l <= 512 && l%2 == 0 && len(d) >= 18+l
		if legal != (err == nil) {
			c.fail("stated length %d with %d data bytes: accepted=%v (%v)", l, len(d)-18, err == nil, err)
		}
		if err != nil {
			return
		}
		if m := ref.Mismatch(p, kd, d); m != "" {
			c.fail("stated length %d: %s", l, m)
		}
		re, err := p.MarshalBinary()
		if err != nil {
			c.fail("re-encoding: %v", err)
		}
		want := make([]byte, 530)
		copy(want, d[:18+l])
		want[10], want[11] = 0, 14
		want[16], want[17] = 2, 0
		if !bytes.Equal(re, want) {
			c.fail("re-encoding a frame of length %d: %s", l, diffAt(kd, re, want))
		}
		q, err := decode(c, re)
		if err != nil {
			c.fail("decoding the re-encoded frame: %v", err)
		}
		if m := ref.Mismatch(q, kd, want); m != "" {
			c.fail("after re-encoding: %s", m)
		}
	}
	checks = append(checks, check{"C04", func(th bool) []space {
		sp := []space{
			{"all 65536 stated lengths x 15 amounts of data", 65536, func(c *ctx, l int) {
				for _, n := range []int{0, 1, 2, 3, 4, 100, 255, 256, 257, 510, 511, 512, 513, 514, 1400} {
					dcheck(c, dmx(l, n, byte(l)))
				}
			}},
			{"stated lengths 0..600 x amounts 0..600", 601 * 601, func(c *ctx, i int) {
				dcheck(c, dmx(i/601, i%601, byte(i)))
			}},
			{"each channel alone set, for every legal length", 256 * 512, func(c *ctx, i int) {
				l, ch := 2+2*(i/512), i%512
				if ch >= l {
					return
				}
				d := dmx(l, l, 0)
				for j := 18; j < len(d); j++ {
					d[j] = 0
				}
				d[18+ch] = byte(ch + 1)
				if d[18+ch] == 0 {
					d[18+ch] = 9
				}
				dcheck(c, d)
			}},
			{"every value of every channel, 4 lengths", 512 * 4, func(c *ctx, i int) {
				l, ch := []int{2, 256, 510, 512}[i/512], i%512
				if ch >= l {
					return
				}
				d := dmx(l, l, byte(l/2))
				for v := 0; v < 256; v++ {
					d[18+ch] = byte(v)
					dcheck(c, d)
				}
			}},
			{"uniform frames: every value x every legal length", 256 * 256, func(c *ctx, i int) {
				l := 2 + 2*(i/256)
				d := dmx(l, l, 1)
				for j := 18; j < len(d); j++ {
					d[j] = byte(i)
				}
				dcheck(c, d)
			}},
			{"sequence, physical, sub-net/universe and net: all values, two at a time", 65536, func(c *ctx, i int) {
				d := dmx(4, 4, 1)
				d[12], d[13] = byte(i), byte(i>>8)
				dcheck(c, d)
				d[14], d[15] = byte(i), byte(i>>8)
				dcheck(c, d)
			}},
			{"a used packet: frame of one length decoded over another", 256 * 16, func(c *ctx, i int) {
				l := 2 + 2*(i/16)
				m := 2 + (i%16)*34
				p := packet.NewArtDMXPacket()
				d1, d2 := dmx(m, m, 40), dmx(l, l, 90)
				c.in = d2
				ev(2)
				if err := p.UnmarshalBinary(d1); err != nil {
					c.fail("rejected: %v", err)
				}
				if err := p.UnmarshalBinary(d2); err != nil {
					c.fail("rejected: %v", err)
				}
				if x := ref.Mismatch(p, kd, d2); x != "" {
					c.fail("length %d decoded over length %d: %s", l, m, x)
				}
			}},
			{"encoding sends 512 channels whatever Length says", 65536, func(c *ctx, i int) {
				p := packet.NewArtDMXPacket()
				p.Length = uint16(i)
				for j := range p.Data {
					p.Data[j] = byte(j*3 + i)
				}
				ev(1)
				b, err := p.MarshalBinary()
				if err != nil {
					c.fail("%v", err)
				}
				c.in = b
				if len(b) != 530 || b[16] != 2 || b[17] != 0 || !bytes.Equal(b[18:], p.Data[:]) {
					c.fail("Length %d: encoded with length field %d, %d bytes", i, int(b[16])<<8|int(b[17]), len(b))
				}
			}},
		}
		return sp
	}})
	_ = code.OpDMX
}

// ---- building packets from field values ----

// fieldValues gives a value to each field of the kind.
func fieldValues(k *ref.Kind, seed int) [][]byte {
	d := k.New()
	if seed > 0 {
		d = fill(k, seed)
		for len(d) < k.Len {
			d = append(d, byte(len(d)))
		}
	}
	var r [][]byte
	for _, f := range k.Fields {
		r = append(r, k.Get(d, f.Name))
	}
	return r
}

func build(k *ref.Kind, vals [][]byte) packet.ArtNetPacket {
	p := makers[k.Name]()
	v := reflect.ValueOf(p).Elem()
	for i, f := range k.Fields {
		ref.Set(v.FieldByName(f.Name), vals[i])
	}
	return p
}

// expect is the datagram for field values.
func expect(k *ref.Kind, vals [][]byte) []byte {
	d := k.New()
	for i, f := range k.Fields {
		switch k.Name + "." + f.Name {
		case "ArtPollReply.Port", "ArtCommand.ESTAmanufacturer", "ArtDMX.Length":
			continue // fixed
		}
		k.Put(d, f.Name, vals[i]...)
	}
	return d
}

// canonical is what a decoded datagram re-encodes to.
func canonical(k *ref.Kind, d []byte) []byte {
	w := k.New()
	for _, f := range k.Fields {
		switch k.Name + "." + f.Name {
		case "ArtPollReply.Port", "ArtCommand.ESTAmanufacturer", "ArtDMX.Length":
			continue
		case "ArtDMX.Data":
			n := int(d[16])<<8 | int(d[17])
			copy(w[18:], d[18:18+n])
			continue
		}
		k.Put(w, f.Name, k.Get(d, f.Name)...)
	}
	return w
}

func encode(c *ctx, k *ref.Kind, vals [][]byte, pre func(reflect.Value)) {
	ev(2)
	c.what = "encoding " + k.Name
	p := build(k, vals)
	if pre != nil {
		pre(reflect.ValueOf(p).Elem())
	}
	want := expect(k, vals)
	for r := 0; r < 2; r++ {
		b, err := p.MarshalBinary()
		if err != nil {
			c.fail("error: %v", err)
		}
		c.in = b
		if !bytes.Equal(b, want) {
			c.fail("encoding number %d: %s", r+1, diffAt(k, b, want))
		}
	}
}

func diffAt(k *ref.Kind, got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			name := "header or spare"
			for _, f := range k.Fields {
				if i >= f.Off && i < f.Off+f.Size {
					name = f.Name
				}
			}
			return fmt.Sprintf("byte %d (%s) is %#x, want %#x", i, name, got[i], want[i])
		}
	}
	return "equal"
}
