package main

import (
	"fmt"
	"reflect"
	"strings"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/pure/ref"
)

// flag is a one-bit flag of a status byte.
type flag1 struct {
	name  string // method name; With+name sets it
	bit   uint
	label string // in the string form
}

type field struct {
	name   string
	shift  uint
	mask   byte // after shifting
	values map[byte]string
	label  string
	skip   byte // bits whose ownership the library leaves open: must be zero
}

type flagType struct {
	name    string
	zero    any
	flags   []flag1
	fields  []field
	on, off string
}

func macro(n string) (r []flag1) {
	for i := 1; i <= 8; i++ {
		r = append(r, flag1{fmt.Sprintf("%s%d", n, i), uint(i - 1), fmt.Sprintf("%s%d", n, i)})
	}
	return
}

var flagTypes = []flagType{
	{"PortType", code.PortType(0), []flag1{{"Input", 6, "Input"}, {"Output", 7, "Output"}},
		[]field{{"Type", 0, 0x1f, map[byte]string{0: "DMX512", 1: "MIDI", 2: "Avab", 3: "Colortran CMX", 4: "ADB 62.5", 5: "Art-Net"}, "Type", 0x20}}, "yes", "no"},
	{"Status1", code.Status1(0), []flag1{{"UBEA", 0, "UBEA"}, {"RDM", 1, "RDM"}, {"BootROM", 2, "BootRom"}},
		[]field{{"PortAddr", 4, 3, map[byte]string{0: "unknown", 1: "front", 2: "net", 3: "unused"}, "PortAddr", 0},
			{"Indicator", 6, 3, map[byte]string{0: "unknown", 1: "locate", 2: "mute", 3: "normal"}, "Indicator", 0}}, "yes", "no"},
	{"Status2", code.Status2(0), []flag1{{"Browser", 0, "Browser"}, {"DHCP", 1, "DHCP"}, {"DHCPCapable", 2, "DHCPCapable"}, {"Port15", 3, "Port 15bit"}, {"Switch", 4, "CanSwitch"}, {"Squawk", 5, "Squawking"}}, nil, "yes", "no"},
	{"GoodInput", code.GoodInput(0), []flag1{{"Receive", 2, "ReceiveErrors"}, {"Disabled", 3, "Disabled"}, {"Text", 4, "DMX512Text"}, {"SIP", 5, "DMX512SIP"}, {"Test", 6, "DMX512Test"}, {"Data", 7, "DataReceived"}}, nil, "yes", "no"},
	{"GoodOutput", code.GoodOutput(0), []flag1{{"ACN", 0, "OutputACN"}, {"LTP", 1, "LTPMergeMode"}, {"Output", 2, "OutputShort"}, {"Merging", 3, "Merging"}, {"Text", 4, "DMX512Text"}, {"SIP", 5, "DMX512SIP"}, {"Test", 6, "DMX512Test"}, {"Data", 7, "DataSending"}}, nil, "yes", "no"},
	{"SwMacro", code.SwMacro(0), macro("Macro"), nil, "on", "off"},
	{"SwRemote", code.SwRemote(0), macro("Remote"), nil, "on", "off"},
	{"TalkToMe", code.TalkToMe(0), []flag1{{"ReplyOnChange", 1, "ReplyOnChange"}, {"Diagnostics", 2, "Diagnostics"}, {"DiagUnicast", 3, "as unicast"}, {"VLC", 4, "VLC"}}, nil, "yes", "no"},
}

func call(v reflect.Value, m string, a ...any) reflect.Value {
	f := v.MethodByName(m)
	if !f.IsValid() {
		panic(failure{fmt.Sprintf("%s has no method %s", v.Type(), m)})
	}
	var in []reflect.Value
	for _, x := range a {
		in = append(in, reflect.ValueOf(x))
	}
	ev(1)
	return f.Call(in)[0]
}

func mk(t flagType, b byte) reflect.Value {
	v := reflect.New(reflect.TypeOf(t.zero)).Elem()
	v.SetUint(uint64(b))
	return v
}

// labels parses "Name: A: yes, B: no (as unicast: no), ..." into label -> value.
func labels(s string) map[string]string {
	m := map[string]string{}
	if i := strings.Index(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	s = strings.NewReplacer(" (", ", ", ")", "").Replace(s)
	for _, p := range strings.Split(s, ", ") {
		kv := strings.SplitN(p, ": ", 2)
		if len(kv) == 2 {
			m[kv[0]] = kv[1]
		}
	}
	return m
}

// reading checks all getters and the string form of a byte.
func reading(c *ctx, t flagType, b byte, why string) {
	v := mk(t, b)
	str := labels(call(v, "String").String())
	for _, f := range t.flags {
		want := b>>f.bit&1 == 1
		if got := call(v, f.name).Bool(); got != want {
			c.fail("%s%s(%#02x).%s() = %v, want %v", why, t.name, b, f.name, got, want)
		}
		w := t.off
		if want {
			w = t.on
		}
		if str[f.label] != w {
			c.fail("%s%s(%#02x) prints %q for %s, the flag reads %v", why, t.name, b, str[f.label], f.label, want)
		}
	}
	for _, f := range t.fields {
		if b&f.skip != 0 {
			continue
		}
		got := call(v, f.name).String()
		x := b >> f.shift & f.mask
		if want, ok := f.values[x]; ok {
			if got != want {
				c.fail("%s%s(%#02x).%s() = %q, want %q", why, t.name, b, f.name, got, want)
			}
		} else {
			for _, n := range f.values {
				if got == n {
					c.fail("%s%s(%#02x).%s() = %q, the value of another code", why, t.name, b, f.name, got)
				}
			}
		}
		if str[f.label] != got {
			c.fail("%s%s(%#02x) prints %q for %s, it reads %q", why, t.name, b, str[f.label], f.label, got)
		}
	}
}

func init() {
	checks = append(checks, check{"C05", func(th bool) []space {
		return []space{
			{"8 types x 256 values: getters and string form", len(flagTypes) * 256, func(c *ctx, i int) {
				t := flagTypes[i/256]
				c.in = []byte{byte(i)}
				reading(c, t, byte(i), "")
			}},
			{"8 types x 256 values x every setter x every value: exactly the bits set", len(flagTypes) * 256, func(c *ctx, i int) {
				t, b := flagTypes[i/256], byte(i)
				c.in = []byte{b}
				for _, f := range t.flags {
					for _, on := range []bool{true, false} {
						want := b &^ (1 << f.bit)
						if on {
							want |= 1 << f.bit
						}
						got := byte(call(mk(t, b), "With"+f.name, on).Uint())
						if got != want {
							c.fail("%s(%#02x).With%s(%v) = %#02x, want %#02x", t.name, b, f.name, on, got, want)
						}
					}
				}
				for _, f := range t.fields {
					if b&f.skip != 0 {
						continue
					}
					for x, n := range f.values {
						want := b&^(f.mask<<f.shift) | x<<f.shift
						got := byte(call(mk(t, b), "With"+f.name, n).Uint())
						if got != want {
							c.fail("%s(%#02x).With%s(%q) = %#02x, want %#02x", t.name, b, f.name, n, got, want)
						}
					}
					for _, n := range []string{"", "no such value", "mutenet", "error", "dmx512", "DALI", " "} {
						if got := byte(call(mk(t, b), "With"+f.name, n).Uint()); got != b {
							c.fail("%s(%#02x).With%s(%q) = %#02x, want no change", t.name, b, f.name, n, got)
						}
					}
				}
			}},
			{"8 types x 256 values x every pair of setters", len(flagTypes) * 256, func(c *ctx, i int) {
				t, b := flagTypes[i/256], byte(i)
				c.in = []byte{b}
				type op struct {
					name string
					arg  any
					mask byte
					val  byte
				}
				var ops []op
				for _, f := range t.flags {
					ops = append(ops, op{f.name, true, 1 << f.bit, 1 << f.bit}, op{f.name, false, 1 << f.bit, 0})
				}
				for _, f := range t.fields {
					if b&f.skip != 0 {
						return
					}
					for x, n := range f.values {
						ops = append(ops, op{f.name, n, f.mask << f.shift, x << f.shift})
					}
				}
				for _, p := range ops {
					for _, q := range ops {
						v := call(call(mk(t, b), "With"+p.name, p.arg), "With"+q.name, q.arg)
						want := (b&^p.mask|p.val)&^q.mask | q.val
						if byte(v.Uint()) != want {
							c.fail("%s(%#02x).With%s(%v).With%s(%v) = %#02x, want %#02x", t.name, b, p.name, p.arg, q.name, q.arg, v.Uint(), want)
						}
					}
				}
			}},
		}
	}})

	checks = append(checks, check{"C06", func(th bool) []space {
		styles := []string{"Node", "Controller", "Media", "Route", "Backup", "Config", "Visual"}
		prios := map[int]string{0: "DpAll", 0x10: "DpLow", 0x40: "DpMed", 0x80: "DpHigh", 0xe0: "DpCritical", 0xf0: "DpVolatile"}
		reports := []string{"RcDebug", "RcPowerOk", "RcPowerFail", "RcSocketWr1", "RcParseFail", "RcUDPFail", "RcShNameOk", "RcLoNameOk", "RcDmxError", "RcDmxUDPFull", "RcDmxRxFull", "RcSwitchErr", "RcConfigErr", "RcDmxShort", "RcFirmwareFail", "RcUserFail", "RcFactoryRes"}
		consts := map[string]uint16{
			"OpPoll": uint16(code.OpPoll), "OpPollReply": uint16(code.OpPollReply), "OpDiagData": uint16(code.OpDiagData), "OpCommand": uint16(code.OpCommand),
			"OpOutput": uint16(code.OpOutput), "OpNzs": uint16(code.OpNzs), "OpSync": uint16(code.OpSync), "OpAddress": uint16(code.OpAddress), "OpInput": uint16(code.OpInput),
			"OpTodRequest": uint16(code.OpTodRequest), "OpTodData": uint16(code.OpTodData), "OpTodControl": uint16(code.OpTodControl), "OpRdm": uint16(code.OpRdm),
			"OpRdmSub": uint16(code.OpRdmSub), "OpMedia": uint16(code.OpMedia), "OpMediaPatch": uint16(code.OpMediaPatch), "OpMediaControl": uint16(code.OpMediaControl),
			"OpMediaContrlReply": uint16(code.OpMediaContrlReply), "OpTimeCode": uint16(code.OpTimeCode), "OpTimeSync": uint16(code.OpTimeSync), "OpTrigger": uint16(code.OpTrigger),
			"OpDirectory": uint16(code.OpDirectory), "OpDirectoryReply": uint16(code.OpDirectoryReply), "OpVideoSetup": uint16(code.OpVideoSetup),
			"OpVideoPalette": uint16(code.OpVideoPalette), "OpVideoData": uint16(code.OpVideoData), "OpMacMaster": uint16(code.OpMacMaster), "OpMacSlave": uint16(code.OpMacSlave),
			"OpFirmwareMaster": uint16(code.OpFirmwareMaster), "OpFirmwareReply": uint16(code.OpFirmwareReply), "OpFileTnMaster": uint16(code.OpFileTnMaster),
			"OpFileFnMaster": uint16(code.OpFileFnMaster), "OpFileFnReply": uint16(code.OpFileFnReply), "OpIPProg": uint16(code.OpIPProg), "OpIPProgReply": uint16(code.OpIPProgReply),
		}
		number := func(c *ctx, s string, v int, names ...string) {
			if !strings.Contains(s, fmt.Sprint(v)) {
				c.fail("undefined value %d prints as %q, not as its number", v, s)
			}
		}
		return []space{
			{"all 65536 opcodes", 65536, func(c *ctx, i int) {
				ev(2)
				o := code.OpCode(i)
				name, def := ref.Opcodes[uint16(i)]
				if code.ValidOp(o) != def {
					c.fail("ValidOp(%#04x) = %v", i, !def)
				}
				s := o.String()
				if def {
					if s != name {
						c.fail("opcode %#04x prints as %q, want %q", i, s, name)
					}
					if consts[name] != uint16(i) {
						c.fail("constant %s is %#04x, want %#04x", name, consts[name], i)
					}
				} else {
					number(c, s, i)
				}
				_ = fmt.Sprintf("%v %#v", o, o)
			}},
			{"all styles, priorities and report codes", 256, func(c *ctx, i int) {
				ev(4)
				if code.ValidStyle(code.StyleCode(i)) != (i < 7) {
					c.fail("ValidStyle(%d) = %v", i, i >= 7)
				}
				s := code.StyleCode(i).String()
				if i < len(styles) {
					if s != styles[i] {
						c.fail("style %d prints as %q, want %q", i, s, styles[i])
					}
				} else {
					number(c, s, i)
				}
				s = code.PriorityCode(i).String()
				if n, ok := prios[i]; ok {
					if s != n {
						c.fail("priority %#x prints as %q, want %q", i, s, n)
					}
				} else {
					number(c, s, i)
				}
				s = code.NodeReportCode(i).String()
				if i < len(reports) {
					if s != reports[i] {
						c.fail("report code %d prints as %q, want %q", i, s, reports[i])
					}
				} else {
					number(c, s, i)
				}
			}},
			{"constants", 1, func(c *ctx, i int) {
				for n, v := range map[string][2]int{
					"StNode": {int(code.StNode), 0}, "StController": {int(code.StController), 1}, "StMedia": {int(code.StMedia), 2}, "StRoute": {int(code.StRoute), 3},
					"StBackup": {int(code.StBackup), 4}, "StConfig": {int(code.StConfig), 5}, "StVisual": {int(code.StVisual), 6},
					"DpAll": {int(code.DpAll), 0}, "DpLow": {int(code.DpLow), 0x10}, "DpMed": {int(code.DpMed), 0x40}, "DpHigh": {int(code.DpHigh), 0x80},
					"DpCritical": {int(code.DpCritical), 0xe0}, "DpVolatile": {int(code.DpVolatile), 0xf0}, "OpDMX": {int(code.OpDMX), 0x5000},
					"RcDebug": {int(code.RcDebug), 0}, "RcPowerOk": {int(code.RcPowerOk), 1}, "RcUserFail": {int(code.RcUserFail), 15}, "RcFactoryRes": {int(code.RcFactoryRes), 16},
				} {
					ev(1)
					if v[0] != v[1] {
						c.fail("%s is %#x, want %#x", n, v[0], v[1])
					}
				}
				if len(ref.Opcodes) != 35 {
					c.fail("reference has %d opcodes", len(ref.Opcodes))
				}
			}},
		}
	}})

	checks = append(checks, check{"C23", func(th bool) []space {
		addr := func(i int) artnet.Address { return artnet.Address{Net: uint8(i >> 8), SubUni: uint8(i)} }
		return []space{
			{"all 65536 addresses: integer and string", 65536, func(c *ctx, i int) {
				ev(2)
				a := addr(i)
				if a.Integer() != i {
					c.fail("Address{%d,%d}.Integer() = %d, want %d", a.Net, a.SubUni, a.Integer(), i)
				}
				if w := fmt.Sprintf("%d:%d.%d", i>>8, i>>4&15, i&15); a.String() != w {
					c.fail("Address{%d,%d}.String() = %q, want %q", a.Net, a.SubUni, a.String(), w)
				}
				if fmt.Sprint(a) != a.String() {
					c.fail("Address prints as %q, String() is %q", fmt.Sprint(a), a.String())
				}
			}},
			{"uniqueness and order over all addresses", 1, func(c *ctx, _ int) {
				seen := map[string]int{}
				last := -1
				for i := 0; i < 65536; i++ {
					ev(2)
					a := addr(i)
					if n := a.Integer(); n <= last {
						c.fail("%v has integer %d, its predecessor %d", a, n, last)
					} else {
						last = n
					}
					if j, dup := seen[a.String()]; dup {
						c.fail("%v and %v print alike: %q", addr(j), a, a.String())
					}
					seen[a.String()] = i
				}
			}},
		}
	}})
}
