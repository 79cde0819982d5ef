package ref

import (
	"bytes"
	"fmt"
	"reflect"
)

// Bytes reads a struct field as bytes (16-bit numbers high byte first).
func Bytes(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Uint8:
		return []byte{byte(v.Uint())}
	case reflect.Uint16:
		return []byte{byte(v.Uint() >> 8), byte(v.Uint())}
	case reflect.Array, reflect.Slice:
		var r []byte
		for i := 0; i < v.Len(); i++ {
			r = append(r, Bytes(v.Index(i))...)
		}
		return r
	}
	panic("ref: field of kind " + v.Kind().String())
}

// Set stores bytes into a struct field.
func Set(v reflect.Value, b []byte) {
	switch v.Kind() {
	case reflect.Uint8:
		v.SetUint(uint64(b[0]))
	case reflect.Uint16:
		v.SetUint(uint64(b[0])<<8 | uint64(b[1]))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(b[i]))
		}
	default:
		panic("ref: field of kind " + v.Kind().String())
	}
}

// Mismatch compares a decoded packet (pointer to the library's struct) with the
// datagram it came from and describes the first difference.
func Mismatch(pkt any, k *Kind, d []byte) string {
	v := reflect.ValueOf(pkt)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return fmt.Sprintf("got %T, want a packet", pkt)
	}
	v = v.Elem()
	if want := k.Name + "Packet"; v.Type().Name() != want {
		return fmt.Sprintf("got %s, want %s", v.Type().Name(), want)
	}
	op := v.FieldByName("OpCode")
	if got := uint16(op.Uint()); got != k.Op {
		return fmt.Sprintf("opcode %#x, want %#x", got, k.Op)
	}
	if id := Bytes(v.FieldByName("ID")); !bytes.Equal(id, ID[:]) {
		return fmt.Sprintf("identifier %q", id)
	}
	if k.Name != "ArtPollReply" {
		if ver := Bytes(v.FieldByName("Version")); !bytes.Equal(ver, d[10:12]) {
			return fmt.Sprintf("version % x, want % x", ver, d[10:12])
		}
	}
	for i := range k.Fields {
		f := &k.Fields[i]
		got := Bytes(v.FieldByName(f.Name))
		var want []byte
		switch {
		case k.Name == "ArtDMX" && f.Name == "Data":
			n := int(d[16])<<8 | int(d[17])
			want = make([]byte, 512)
			copy(want, d[18:18+n])
		case k.Name == "ArtPollReply" && f.Name == "Port":
			want = []byte{0x19, 0x36}
		default:
			want = k.Get(d, f.Name)
		}
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("%s.%s = % x, want % x", k.Name, f.Name, clip(got), clip(want))
		}
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}
