// Package ref is an independent statement of the Art-Net 4 wire format for the
// packet kinds the library implements: a table of fields and offsets taken from
// the specification, and nothing of the library's own code.
package ref

// Field is a field of a packet.
type Field struct {
	Name string
	Off  int
	Size int  // bytes
	Wide bool // one 16-bit number (high byte first unless LE)
	LE   bool
}

// Kind is a packet kind.
type Kind struct {
	Name   string
	Op     uint16
	Len    int // length of the fixed layout
	Fields []Field
}

func b(name string, off int) Field       { return Field{Name: name, Off: off, Size: 1} }
func a(name string, off, size int) Field { return Field{Name: name, Off: off, Size: size} }
func w(name string, off int) Field       { return Field{Name: name, Off: off, Size: 2, Wide: true} }

// Kinds lists the implemented packet kinds.
var Kinds = []*Kind{
	{"ArtPoll", 0x2000, 14, []Field{b("TalkToMe", 12), b("Priority", 13)}},
	{"ArtPollReply", 0x2100, 239, []Field{
		a("IPAddress", 10, 4), {"Port", 14, 2, true, true}, w("VersionInfo", 16), b("NetSwitch", 18), b("SubSwitch", 19),
		w("Oem", 20), b("UBEAVersion", 22), b("Status1", 23), a("ESTAmanufacturer", 24, 2), a("ShortName", 26, 18),
		a("LongName", 44, 64), a("NodeReport", 108, 64), w("NumPorts", 172), a("PortTypes", 174, 4), a("GoodInput", 178, 4),
		a("GoodOutput", 182, 4), a("SwIn", 186, 4), a("SwOut", 190, 4), b("SwVideo", 194), b("SwMacro", 195), b("SwRemote", 196),
		b("Style", 200), a("Macaddress", 201, 6), a("BindIP", 207, 4), b("BindIndex", 211), b("Status2", 212)}},
	{"ArtDiagData", 0x2300, 530, []Field{b("Priority", 13), w("Length", 16), a("Data", 18, 512)}},
	{"ArtCommand", 0x2400, 528, []Field{a("ESTAmanufacturer", 12, 2), w("Length", 14), a("Data", 16, 512)}},
	{"ArtDMX", 0x5000, 530, []Field{b("Sequence", 12), b("Physical", 13), b("SubUni", 14), b("Net", 15), w("Length", 16), a("Data", 18, 512)}},
	{"ArtNzs", 0x5100, 530, []Field{b("Sequence", 12), b("StartCode", 13), b("SubUni", 14), b("Net", 15), w("Length", 16), a("Data", 18, 512)}},
	{"ArtSync", 0x5200, 14, nil},
	{"ArtAddress", 0x6000, 107, []Field{b("NetSwitch", 12), b("BindIndex", 13), a("ShortName", 14, 18), a("LongName", 32, 64),
		a("SwIn", 96, 4), a("SwOut", 100, 4), b("SubSwitch", 104), b("SwVideo", 105), b("Command", 106)}},
	{"ArtTimeCode", 0x9700, 19, []Field{b("Frames", 14), b("Seconds", 15), b("Minutes", 16), b("Hours", 17), b("Type", 18)}},
	{"ArtTrigger", 0x9900, 530, []Field{w("Oem", 14), b("Key", 16), b("SubKey", 17), a("Data", 18, 512)}},
	{"ArtIPProg", 0xf800, 34, []Field{b("Command", 14), a("ProgIP", 16, 4), a("ProgSubNet", 20, 4), a("ProgPort", 24, 2)}},
	{"ArtIPProgReply", 0xf900, 34, []Field{a("ProgIP", 16, 4), a("ProgSubNet", 20, 4), a("ProgPort", 24, 2), b("Status", 26)}},
}

// Opcodes are all opcodes the library defines, with their names.
var Opcodes = map[uint16]string{
	0x2000: "OpPoll", 0x2100: "OpPollReply", 0x2300: "OpDiagData", 0x2400: "OpCommand", 0x5000: "OpOutput", 0x5100: "OpNzs",
	0x5200: "OpSync", 0x6000: "OpAddress", 0x7000: "OpInput", 0x8000: "OpTodRequest", 0x8100: "OpTodData", 0x8200: "OpTodControl",
	0x8300: "OpRdm", 0x8400: "OpRdmSub", 0x9000: "OpMedia", 0x9100: "OpMediaPatch", 0x9200: "OpMediaControl",
	0x9300: "OpMediaContrlReply", 0x9700: "OpTimeCode", 0x9800: "OpTimeSync", 0x9900: "OpTrigger", 0x9a00: "OpDirectory",
	0x9b00: "OpDirectoryReply", 0xa010: "OpVideoSetup", 0xa020: "OpVideoPalette", 0xa040: "OpVideoData", 0xf000: "OpMacMaster",
	0xf100: "OpMacSlave", 0xf200: "OpFirmwareMaster", 0xf300: "OpFirmwareReply", 0xf400: "OpFileTnMaster",
	0xf500: "OpFileFnMaster", 0xf600: "OpFileFnReply", 0xf800: "OpIPProg", 0xf900: "OpIPProgReply",
}

// ByOp finds a kind.
func ByOp(op uint16) *Kind {
	for _, k := range Kinds {
		if k.Op == op {
			return k
		}
	}
	return nil
}

// ByName finds a kind.
func ByName(n string) *Kind {
	for _, k := range Kinds {
		if k.Name == n {
			return k
		}
	}
	panic("no kind " + n)
}

// Field finds a field.
func (k *Kind) Field(n string) *Field {
	for i := range k.Fields {
		if k.Fields[i].Name == n {
			return &k.Fields[i]
		}
	}
	panic("no field " + n)
}

// ID is the Art-Net identifier.
var ID = [8]byte{'A', 'r', 't', '-', 'N', 'e', 't', 0}

// New returns a well-formed datagram of the kind with all fields zero (or the
// only accepted value).
func (k *Kind) New() []byte {
	p := make([]byte, k.Len)
	copy(p, ID[:])
	p[8], p[9] = byte(k.Op), byte(k.Op>>8)
	switch k.Name {
	case "ArtPollReply":
		p[14], p[15] = 0x36, 0x19
	default:
		p[10], p[11] = 0, 14
	}
	switch k.Name {
	case "ArtCommand":
		p[12], p[13] = 0xff, 0xff
	case "ArtDMX":
		p[16], p[17] = 2, 0
	}
	return p
}

// Put sets a field of a datagram (bytes in the order of the struct; a 16-bit
// number high byte first).
func (k *Kind) Put(p []byte, field string, v ...byte) []byte {
	f := k.Field(field)
	if len(v) > f.Size {
		panic("too long for " + field)
	}
	if f.LE {
		p[f.Off], p[f.Off+1] = v[1], v[0]
		return p
	}
	copy(p[f.Off:f.Off+f.Size], v)
	return p
}

// Get reads a field (a 16-bit number high byte first).
func (k *Kind) Get(p []byte, field string) []byte {
	f := k.Field(field)
	v := append([]byte(nil), p[f.Off:f.Off+f.Size]...)
	if f.LE {
		v[0], v[1] = v[1], v[0]
	}
	return v
}

// Spare lists the offsets that belong to no field and not to the header.
func (k *Kind) Spare() (r []int) {
	used := make([]bool, k.Len)
	for i := 0; i < 12; i++ {
		used[i] = true
	}
	if k.Name == "ArtPollReply" {
		used[10], used[11] = false, false
	}
	for _, f := range k.Fields {
		for i := f.Off; i < f.Off+f.Size; i++ {
			used[i] = true
		}
	}
	for i := range used {
		if !used[i] {
			r = append(r, i)
		}
	}
	return
}
