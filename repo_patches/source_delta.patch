From 361b48ffa95b84d8593e2b100744882f05295abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 01/16] fix: set the opcode of every packet kind when it is
 encoded

ArtAddress, ArtCommand, ArtDiagData, ArtIpProg, ArtIpProgReply, ArtNzs,
ArtSync, ArtTimeCode and ArtTrigger went out with opcode 0 unless the caller
had set it, and with a byte-swapped one when encoded twice.
---
 packet/artaddress.go     | 1 +
 packet/artcommand.go     | 1 +
 packet/artdiagdata.go    | 1 +
 packet/artipprog.go      | 1 +
 packet/artipprogreply.go | 1 +
 packet/artnzs.go         | 1 +
 packet/artsync.go        | 1 +
 packet/arttimecode.go    | 1 +
 packet/arttrigger.go     | 1 +
 9 files changed, 9 insertions(+)

diff --git a/packet/artaddress.go b/packet/artaddress.go
index 7b831f9..056d3bc 100644
--- a/packet/artaddress.go
+++ b/packet/artaddress.go
@@ -99,5 +99,6 @@ func (p *ArtAddressPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtAddressPacket) finish() {
+	p.OpCode = code.OpAddress
 	p.Header.finish()
 }
diff --git a/packet/artcommand.go b/packet/artcommand.go
index 49b5816..4a69ecb 100644
--- a/packet/artcommand.go
+++ b/packet/artcommand.go
@@ -83,6 +83,7 @@ func (p *ArtCommandPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtCommandPacket) finish() {
+	p.OpCode = code.OpCommand
 	p.Header.finish()
 	p.ESTAmanufacturer = [2]byte{0xff, 0xff}
 }
diff --git a/packet/artdiagdata.go b/packet/artdiagdata.go
index 5997e43..1150bbe 100644
--- a/packet/artdiagdata.go
+++ b/packet/artdiagdata.go
@@ -70,5 +70,6 @@ func (p *ArtDiagDataPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtDiagDataPacket) finish() {
+	p.OpCode = code.OpDiagData
 	p.Header.finish()
 }
diff --git a/packet/artipprog.go b/packet/artipprog.go
index 17916e9..5701d08 100644
--- a/packet/artipprog.go
+++ b/packet/artipprog.go
@@ -78,5 +78,6 @@ func (p *ArtIPProgPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgPacket) finish() {
+	p.OpCode = code.OpIPProg
 	p.Header.finish()
 }
diff --git a/packet/artipprogreply.go b/packet/artipprogreply.go
index 7b08b8c..6fdb3c6 100644
--- a/packet/artipprogreply.go
+++ b/packet/artipprogreply.go
@@ -74,5 +74,6 @@ func (p *ArtIPProgReplyPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtIPProgReplyPacket) finish() {
+	p.OpCode = code.OpIPProgReply
 	p.Header.finish()
 }
diff --git a/packet/artnzs.go b/packet/artnzs.go
index 8a568b4..fbae5c6 100644
--- a/packet/artnzs.go
+++ b/packet/artnzs.go
@@ -78,5 +78,6 @@ func (p *ArtNzsPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtNzsPacket) finish() {
+	p.OpCode = code.OpNzs
 	p.Header.finish()
 }
diff --git a/packet/artsync.go b/packet/artsync.go
index 88ee754..ab6e4cd 100644
--- a/packet/artsync.go
+++ b/packet/artsync.go
@@ -61,5 +61,6 @@ func (p *ArtSyncPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtSyncPacket) finish() {
+	p.OpCode = code.OpSync
 	p.Header.finish()
 }
diff --git a/packet/arttimecode.go b/packet/arttimecode.go
index 57dd624..054e6a7 100644
--- a/packet/arttimecode.go
+++ b/packet/arttimecode.go
@@ -75,5 +75,6 @@ func (p *ArtTimeCodePacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTimeCodePacket) finish() {
+	p.OpCode = code.OpTimeCode
 	p.Header.finish()
 }
diff --git a/packet/arttrigger.go b/packet/arttrigger.go
index 7c5c045..a966212 100644
--- a/packet/arttrigger.go
+++ b/packet/arttrigger.go
@@ -96,5 +96,6 @@ func (p *ArtTriggerPacket) validate() error {
 
 // finish is used to finish the Packet for sending.
 func (p *ArtTriggerPacket) finish() {
+	p.OpCode = code.OpTrigger
 	p.Header.finish()
 }
-- 
2.43.0


From f3d196b776d8d90fb31e0eff238d035059d84dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 02/16] fix: encode the port of an ArtPollReply the same way
 every time

finish swapped the bytes of the port in place, so encoding a reply a second
time sent it high byte first.
---
 packet/artpollreply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index 220c25e..e01ce78 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -187,5 +187,5 @@ func (p *ArtPollReplyPacket) finish() {
 	// working packet we do it here "manually"
 	p.ID = ArtNet
 	p.OpCode = code.OpCode(swapUint16(uint16(code.OpPollReply)))
-	p.Port = swapUint16(p.Port)
+	p.Port = swapUint16(ArtNetPort)
 }
-- 
2.43.0


From f902a306be1beedb5c35f3781e5248dc90a79a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 03/16] fix: check the opcode of ArtDmx and the identifier of
 ArtPollReply when decoding

---
 packet/artdmx.go       | 3 +++
 packet/artpollreply.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 7714760..3cc40bc 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -84,6 +84,9 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if err := p.Header.unmarshal(b[:12]); err != nil {
 		return err
 	}
+	if p.OpCode != code.OpDMX {
+		return errInvalidOpCode
+	}
 
 	p.Sequence = b[12]
 	p.Physical = b[13]
diff --git a/packet/artpollreply.go b/packet/artpollreply.go
index e01ce78..943f00a 100644
--- a/packet/artpollreply.go
+++ b/packet/artpollreply.go
@@ -159,6 +159,10 @@ func (p *ArtPollReplyPacket) validate() error {
 	// ArtPollReply is a packer not using the standard header, so we need to do
 	// some extra things here that are normally done in the header validate
 
+	if p.ID != ArtNet {
+		return errInvalidPacket
+	}
+
 	// swap endianness
 	p.OpCode = code.OpCode(swapUint16(uint16(p.OpCode)))
 	if p.OpCode != code.OpPollReply {
-- 
2.43.0


From 3101200b2ed3a4142d76c95a67c8f08f11830bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 04/16] fix: clear old channel data when decoding a short
 ArtDmx frame

---
 packet/artdmx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packet/artdmx.go b/packet/artdmx.go
index 3cc40bc..f2ea35a 100644
--- a/packet/artdmx.go
+++ b/packet/artdmx.go
@@ -101,6 +101,7 @@ func (p *ArtDMXPacket) UnmarshalBinary(b []byte) error {
 	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {
 		return errInvalidPacket
 	}
+	p.Data = [512]byte{}
 	copy(p.Data[0:l], b[18:18+l])
 
 	return nil
-- 
2.43.0


From 721e38c7a217bdc0cbe73a1199af5bfe6f3eb7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:14 +0000
Subject: [PATCH 05/16] fix: let status and flag setters clear bits and replace
 values

Every With...(false) left the bit as it was, the multi-valued setters ORed the
new value onto the old one, and Status1 read the port address authority and
indicator state from the wrong bits.
---
 packet/code/goodinput.go  | 12 ++++++------
 packet/code/goodoutput.go | 16 ++++++++--------
 packet/code/porttype.go   | 16 ++++++++--------
 packet/code/status1.go    | 28 ++++++++++++++--------------
 packet/code/status2.go    | 12 ++++++------
 packet/code/swmacro.go    | 16 ++++++++--------
 packet/code/swremote.go   | 16 ++++++++--------
 packet/code/talktome.go   |  8 ++++----
 8 files changed, 62 insertions(+), 62 deletions(-)

diff --git a/packet/code/goodinput.go b/packet/code/goodinput.go
index 85af466..499cb5d 100644
--- a/packet/code/goodinput.go
+++ b/packet/code/goodinput.go
@@ -8,7 +8,7 @@ func (s GoodInput) WithReceive(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Receive indicates if Receive errors detected
@@ -21,7 +21,7 @@ func (s GoodInput) WithDisabled(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Disabled indicates Input is disabled
@@ -34,7 +34,7 @@ func (s GoodInput) WithText(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -47,7 +47,7 @@ func (s GoodInput) WithSIP(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -60,7 +60,7 @@ func (s GoodInput) WithTest(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -73,7 +73,7 @@ func (s GoodInput) WithData(enable bool) GoodInput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data received
diff --git a/packet/code/goodoutput.go b/packet/code/goodoutput.go
index 0b7841e..da15831 100644
--- a/packet/code/goodoutput.go
+++ b/packet/code/goodoutput.go
@@ -8,7 +8,7 @@ func (s GoodOutput) WithACN(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // ACN indicates Output is selected to transmit sACN
@@ -21,7 +21,7 @@ func (s GoodOutput) WithLTP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // LTP indicates Merge Mode is LTP
@@ -34,7 +34,7 @@ func (s GoodOutput) WithOutput(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Output indicates DMX output short detected on power up
@@ -47,7 +47,7 @@ func (s GoodOutput) WithMerging(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Merging indicates Output is merging ArtNet data
@@ -60,7 +60,7 @@ func (s GoodOutput) WithText(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Text indicates Channel includes DMX512 text packets
@@ -73,7 +73,7 @@ func (s GoodOutput) WithSIP(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // SIP indicates Channel includes DMX512 SIP’s
@@ -86,7 +86,7 @@ func (s GoodOutput) WithTest(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Test indicates Channel includes DMX512 test packets
@@ -99,7 +99,7 @@ func (s GoodOutput) WithData(enable bool) GoodOutput {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Data indicates Data transmitted
diff --git a/packet/code/porttype.go b/packet/code/porttype.go
index 6b42aff..3a8993b 100644
--- a/packet/code/porttype.go
+++ b/packet/code/porttype.go
@@ -10,7 +10,7 @@ func (s PortType) WithInput(enable bool) PortType {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Input indicates channel can input from the Art-Net Network
@@ -23,7 +23,7 @@ func (s PortType) WithOutput(enable bool) PortType {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Output indicates channel can output onto the Art-Net Network
@@ -36,17 +36,17 @@ func (s PortType) Output() bool {
 func (s PortType) WithType(v string) PortType {
 	switch v {
 	case "DMX512":
-		return s | 0x00
+		return s&^0x1f | 0x00
 	case "MIDI":
-		return s | 0x01
+		return s&^0x1f | 0x01
 	case "Avab":
-		return s | 0x02
+		return s&^0x1f | 0x02
 	case "Colortran CMX":
-		return s | 0x03
+		return s&^0x1f | 0x03
 	case "ADB 62.5":
-		return s | 0x04
+		return s&^0x1f | 0x04
 	case "Art-Net":
-		return s | 0x05
+		return s&^0x1f | 0x05
 	}
 	return s
 }
diff --git a/packet/code/status1.go b/packet/code/status1.go
index 32c08ca..258f2e5 100644
--- a/packet/code/status1.go
+++ b/packet/code/status1.go
@@ -10,7 +10,7 @@ func (s Status1) WithUBEA(enable bool) Status1 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // UBEA returns the status of the bit 0
@@ -25,7 +25,7 @@ func (s Status1) WithRDM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // RDM returns the status of the bit 1
@@ -41,7 +41,7 @@ func (s Status1) WithBootROM(enable bool) Status1 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // BootROM returns the status of the bit 2
@@ -57,13 +57,13 @@ func (s Status1) BootROM() bool {
 func (s Status1) WithPortAddr(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 4)
+		return s &^ (3 << 4)
 	case "front":
-		return s | (1 << 4)
+		return s&^(3<<4) | (1 << 4)
 	case "net":
-		return s | (2 << 4)
+		return s&^(3<<4) | (2 << 4)
 	case "unused":
-		return s | (3 << 4)
+		return s&^(3<<4) | (3 << 4)
 	}
 	return s
 }
@@ -74,7 +74,7 @@ func (s Status1) WithPortAddr(v string) Status1 {
 // "net":     All or part of Port-Address programmed by networkor Web browser.
 // "unused":  Not used.
 func (s Status1) PortAddr() string {
-	switch (s & (8 + 16)) >> 4 {
+	switch (s & (16 + 32)) >> 4 {
 	case 0:
 		return "unknown"
 	case 1:
@@ -95,13 +95,13 @@ func (s Status1) PortAddr() string {
 func (s Status1) WithIndicator(v string) Status1 {
 	switch v {
 	case "unknown":
-		return s | (0 << 6)
+		return s &^ (3 << 6)
 	case "locate":
-		return s | (1 << 6)
+		return s&^(3<<6) | (1 << 6)
 	case "mute":
-		return s | (2 << 6)
+		return s&^(3<<6) | (2 << 6)
 	case "normal":
-		return s | (3 << 6)
+		return s&^(3<<6) | (3 << 6)
 	}
 	return s
 }
@@ -112,13 +112,13 @@ func (s Status1) WithIndicator(v string) Status1 {
 // "mute":    Indicators in Mute Mode.
 // "normal":  Indicators in Normal Mode.
 func (s Status1) Indicator() string {
-	switch (s & (32 + 64)) >> 6 {
+	switch (s & (64 + 128)) >> 6 {
 	case 0:
 		return "unknown"
 	case 1:
 		return "locate"
 	case 2:
-		return "mutenet"
+		return "mute"
 	case 3:
 		return "normal"
 	}
diff --git a/packet/code/status2.go b/packet/code/status2.go
index 35220c5..d33a8b4 100644
--- a/packet/code/status2.go
+++ b/packet/code/status2.go
@@ -8,7 +8,7 @@ func (s Status2) WithBrowser(enable bool) Status2 {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Browser indicates if product supports web browser configuration
@@ -21,7 +21,7 @@ func (s Status2) WithDHCP(enable bool) Status2 {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // DHCP indicates if product IP is DHCP configured
@@ -34,7 +34,7 @@ func (s Status2) WithDHCPCapable(enable bool) Status2 {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // DHCPCapable indicates if product is capable of DHCP
@@ -47,7 +47,7 @@ func (s Status2) WithPort15(enable bool) Status2 {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Port15 indicates if product supports 15 bit Port-Address (Art-Net 3 or 4)
@@ -60,7 +60,7 @@ func (s Status2) WithSwitch(enable bool) Status2 {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Switch indicates if product is able to switch between Art-Net and sACN
@@ -73,7 +73,7 @@ func (s Status2) WithSquawk(enable bool) Status2 {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Squawk indicates if product is squawking
diff --git a/packet/code/swmacro.go b/packet/code/swmacro.go
index 4e47a95..93c3027 100644
--- a/packet/code/swmacro.go
+++ b/packet/code/swmacro.go
@@ -12,7 +12,7 @@ func (s SwMacro) WithMacro1(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Macro1 indicates Macro 1 active
@@ -25,7 +25,7 @@ func (s SwMacro) WithMacro2(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Macro2 indicates Macro 2 active
@@ -38,7 +38,7 @@ func (s SwMacro) WithMacro3(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Macro3 indicates Macro 3 active
@@ -51,7 +51,7 @@ func (s SwMacro) WithMacro4(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Macro4 indicates Macro 4 active
@@ -64,7 +64,7 @@ func (s SwMacro) WithMacro5(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Macro5 indicates Macro 5 active
@@ -77,7 +77,7 @@ func (s SwMacro) WithMacro6(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Macro6 indicates Macro 6 active
@@ -90,7 +90,7 @@ func (s SwMacro) WithMacro7(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Macro7 indicates Macro 7 active
@@ -103,7 +103,7 @@ func (s SwMacro) WithMacro8(enable bool) SwMacro {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Macro8 indicates Macro 8 active
diff --git a/packet/code/swremote.go b/packet/code/swremote.go
index 801ad95..d504604 100644
--- a/packet/code/swremote.go
+++ b/packet/code/swremote.go
@@ -12,7 +12,7 @@ func (s SwRemote) WithRemote1(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 0)
 	}
-	return s | (0 << 0)
+	return s &^ (1 << 0)
 }
 
 // Remote1 indicates Remote 1 active
@@ -25,7 +25,7 @@ func (s SwRemote) WithRemote2(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 1)
 	}
-	return s | (0 << 1)
+	return s &^ (1 << 1)
 }
 
 // Remote2 indicates Remote 2 active
@@ -38,7 +38,7 @@ func (s SwRemote) WithRemote3(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 2)
 	}
-	return s | (0 << 2)
+	return s &^ (1 << 2)
 }
 
 // Remote3 indicates Remote 3 active
@@ -51,7 +51,7 @@ func (s SwRemote) WithRemote4(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 3)
 	}
-	return s | (0 << 3)
+	return s &^ (1 << 3)
 }
 
 // Remote4 indicates Remote 4 active
@@ -64,7 +64,7 @@ func (s SwRemote) WithRemote5(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 4)
 	}
-	return s | (0 << 4)
+	return s &^ (1 << 4)
 }
 
 // Remote5 indicates Remote 5 active
@@ -77,7 +77,7 @@ func (s SwRemote) WithRemote6(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 5)
 	}
-	return s | (0 << 5)
+	return s &^ (1 << 5)
 }
 
 // Remote6 indicates Remote 6 active
@@ -90,7 +90,7 @@ func (s SwRemote) WithRemote7(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 6)
 	}
-	return s | (0 << 6)
+	return s &^ (1 << 6)
 }
 
 // Remote7 indicates Remote 7 active
@@ -103,7 +103,7 @@ func (s SwRemote) WithRemote8(enable bool) SwRemote {
 	if enable {
 		return s | (1 << 7)
 	}
-	return s | (0 << 7)
+	return s &^ (1 << 7)
 }
 
 // Remote8 indicates Remote 8 active
diff --git a/packet/code/talktome.go b/packet/code/talktome.go
index fa95164..27ecc34 100644
--- a/packet/code/talktome.go
+++ b/packet/code/talktome.go
@@ -10,7 +10,7 @@ func (t TalkToMe) WithReplyOnChange(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 1)
 	}
-	return t | (0 << 1)
+	return t &^ (1 << 1)
 }
 
 // ReplyOnChange returns the status of the bit 1
@@ -23,7 +23,7 @@ func (t TalkToMe) WithDiagnostics(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 2)
 	}
-	return t | (0 << 2)
+	return t &^ (1 << 2)
 }
 
 // Diagnostics returns the stats of the bit 2
@@ -36,7 +36,7 @@ func (t TalkToMe) WithDiagUnicast(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 3)
 	}
-	return t | (0 << 3)
+	return t &^ (1 << 3)
 }
 
 // DiagUnicast returns the stats of the bit 3
@@ -49,7 +49,7 @@ func (t TalkToMe) WithVLC(enable bool) TalkToMe {
 	if enable {
 		return t | (1 << 4)
 	}
-	return t | (0 << 4)
+	return t &^ (1 << 4)
 }
 
 // VLC returns the stats of the bit 4
-- 
2.43.0


From c603a5531284aa284573718f3215222c93fa92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:18 +0000
Subject: [PATCH 06/16] fix: put net, sub-net and universe together as the
 ArtPollReply encodes them

SubSwitch carries bits 7-4 of the port address in its low nibble and SwIn and
SwOut carry bits 3-0; they were ORed together without shifting, so all
universes of sub-net 1 and above were learned (and announced) wrongly.
---
 config.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/config.go b/config.go
index c9bcb3e..b1049f9 100644
--- a/config.go
+++ b/config.go
@@ -77,7 +77,7 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 		Status1:     c.Status1,
 		Status2:     c.Status2,
 		NetSwitch:   c.BaseAddress.Net,
-		SubSwitch:   c.BaseAddress.SubUni,
+		SubSwitch:   c.BaseAddress.SubUni >> 4,
 		NumPorts:    c.NumberOfPorts(),
 		PortTypes:   c.PortTypes(),
 	}
@@ -170,8 +170,8 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 		Status1:      p.Status1,
 		Status2:      p.Status2,
 		BaseAddress: Address{
-			Net:    p.NetSwitch,
-			SubUni: p.SubSwitch,
+			Net:    p.NetSwitch & 0x7f,
+			SubUni: p.SubSwitch << 4,
 		},
 	}
 
@@ -180,7 +180,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.OutputPorts = append(nodeConfig.OutputPorts, OutputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodOutput[i],
@@ -190,7 +190,7 @@ func ConfigFromArtPollReply(p packet.ArtPollReplyPacket) NodeConfig {
 			nodeConfig.InputPorts = append(nodeConfig.InputPorts, InputPort{
 				Address: Address{
 					Net:    nodeConfig.BaseAddress.Net,
-					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i],
+					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,
 				},
 				Type:   p.PortTypes[i],
 				Status: p.GoodInput[i],
-- 
2.43.0


From a9240046516a26ae72d4e6a4ba3cae23c01859a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:18 +0000
Subject: [PATCH 07/16] fix: announce the universe and status of each port

ArtPollReplyFromConfig left SwIn, SwOut, GoodInput and GoodOutput zero, so
controllers saw every port of a node on universe 0.
---
 config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/config.go b/config.go
index b1049f9..1273819 100644
--- a/config.go
+++ b/config.go
@@ -90,6 +90,17 @@ func ArtPollReplyFromConfig(c NodeConfig) *packet.ArtPollReplyPacket {
 	copy(p.BindIP[0:4], c.BindIP.To4())
 	copy(p.Macaddress[0:6], c.Ethernet)
 
+	for i := 0; i < 4; i++ {
+		if len(c.InputPorts) > i {
+			p.GoodInput[i] = c.InputPorts[i].Status
+			p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f
+		}
+		if len(c.OutputPorts) > i {
+			p.GoodOutput[i] = c.OutputPorts[i].Status
+			p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f
+		}
+	}
+
 	return p
 }
 
-- 
2.43.0


From fb213ee261251bb7d39e3ef9cbee0de02861dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 08/16] fix: survive a failed read from the socket

The sender address is not set when a read fails.
---
 node.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index 6766063..05c00da 100644
--- a/node.go
+++ b/node.go
@@ -218,12 +218,6 @@ func (n *Node) recvLoop() {
 				return
 			}
 
-			if n.localAddr.IP.Equal(from.IP) {
-				// this was sent by me, so we ignore it
-				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
-				continue
-			}
-
 			if err != nil {
 				if err == io.EOF {
 					return
@@ -233,6 +227,12 @@ func (n *Node) recvLoop() {
 				continue
 			}
 
+			if n.localAddr.IP.Equal(from.IP) {
+				// this was sent by me, so we ignore it
+				//n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("ignoring received packet from self")
+				continue
+			}
+
 			n.log.With(Fields{"src": from.String(), "bytes": num}).Debugf("received packet")
 			payload := netPayload{
 				address: *from,
-- 
2.43.0


From 7801fd2f3f213fd5fd627fa0a51517f5d16d3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:29 +0000
Subject: [PATCH 09/16] fix: do not block on a full queue after shutdown

The goroutines that read the queues end on shutdown, so that a goroutine
adding to a full one was never woken up again; one of them holds the
lock that SendDMXToAddress needs.
---
 controller.go | 16 ++++++++--------
 node.go       | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index b51f94c..0fea0fc 100644
--- a/controller.go
+++ b/controller.go
@@ -163,22 +163,22 @@ func (c *Controller) pollLoop() {
 	}
 
 	// send ArtPollPacket
-	c.cNode.sendCh <- netPayload{
+	c.cNode.send(netPayload{
 		address: c.broadcastAddr,
 		data:    b,
-	}
-	c.cNode.pollCh <- packet.ArtPollPacket{}
+	})
+	c.cNode.poll(packet.ArtPollPacket{})
 
 	// loop until shutdown
 	for {
 		select {
 		case <-c.pollTicker.C:
 			// send ArtPollPacket
-			c.cNode.sendCh <- netPayload{
+			c.cNode.send(netPayload{
 				address: c.broadcastAddr,
 				data:    b,
-			}
-			c.cNode.pollCh <- packet.ArtPollPacket{}
+			})
+			c.cNode.poll(packet.ArtPollPacket{})
 
 		case <-c.gcTicker.C:
 			// clean up old nodes
@@ -247,10 +247,10 @@ func (c *Controller) dmxUpdateLoop() {
 		node.DMXBuffer[address].LastUpdate = now
 		node.DMXBuffer[address].Stale = false
 
-		c.cNode.sendCh <- netPayload{
+		c.cNode.send(netPayload{
 			address: node.UDPAddress,
 			data:    b,
-		}
+		})
 		return nil
 	}
 
diff --git a/node.go b/node.go
index 05c00da..a8931a0 100644
--- a/node.go
+++ b/node.go
@@ -165,10 +165,10 @@ func (n *Node) pollReplyLoop() {
 			// reply with pollReply
 			n.log.With(nil).Debug("sending ArtPollReply")
 
-			n.sendCh <- netPayload{
+			n.send(netPayload{
 				address: n.broadcastAddr,
 				data:    me,
-			}
+			})
 
 			// TODO: if we are asked to send changes regularly, set the Ticker here
 
@@ -178,6 +178,22 @@ func (n *Node) pollReplyLoop() {
 	}
 }
 
+// send queues a packet for the sendLoop, unless the node is shut down
+func (n *Node) send(payload netPayload) {
+	select {
+	case n.sendCh <- payload:
+	case <-n.shutdownCh:
+	}
+}
+
+// poll asks the pollReplyLoop for a reply, unless the node is shut down
+func (n *Node) poll(p packet.ArtPollPacket) {
+	select {
+	case n.pollCh <- p:
+	case <-n.shutdownCh:
+	}
+}
+
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
 	// loop until shutdown
@@ -240,7 +256,11 @@ func (n *Node) recvLoop() {
 				data:    make([]byte, num),
 			}
 			copy(payload.data, b)
-			n.recvCh <- payload
+			select {
+			case n.recvCh <- payload:
+			case <-n.shutdownCh:
+				return
+			}
 		}
 	}()
 
@@ -288,7 +308,7 @@ func (n *Node) handlePacketPoll(p packet.ArtNetPacket) {
 		return
 	}
 
-	n.pollCh <- *poll
+	n.poll(*poll)
 }
 
 func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
@@ -300,7 +320,10 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
-		n.pollReplyCh <- *pollReply
+		select {
+		case n.pollReplyCh <- *pollReply:
+		case <-n.shutdownCh:
+		}
 	}
 }
 
-- 
2.43.0


From d6cc932645a42f0abbf8c123753d868a49fc5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:14 +0000
Subject: [PATCH 10/16] fix: make Start and Stop of a node safe in any order

Stop panicked when called twice or before Start, a failed Start left the
node marked as running, and Stop returned while the goroutines were still
running and used what the next Start replaces.
---
 node.go | 70 +++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/node.go b/node.go
index a8931a0..eb2e8eb 100644
--- a/node.go
+++ b/node.go
@@ -34,6 +34,10 @@ type Node struct {
 	shutdownErr  error
 	shutdownLock sync.Mutex
 
+	// runLock serializes Start and Stop, loops counts the running routines
+	runLock sync.Mutex
+	loops   sync.WaitGroup
+
 	// pollCh will receive ArtPoll packets
 	pollCh chan packet.ArtPollPacket
 	// pollCh will send ArtPollReply packets
@@ -95,15 +99,23 @@ func (n *Node) Connection() *net.UDPConn {
 
 // Stop will stop all running routines and close the network connection
 func (n *Node) Stop() {
+	n.runLock.Lock()
+	defer n.runLock.Unlock()
+
+	if n.isShutdown() {
+		return
+	}
+
 	n.shutdownLock.Lock()
 	n.shutdown = true
 	n.shutdownLock.Unlock()
 	close(n.shutdownCh)
 	if n.conn != nil {
 		if err := n.conn.Close(); err != nil {
-			n.log.Printf("failed to close read socket: %v")
+			n.log.Printf("failed to close read socket: %v", err)
 		}
 	}
+	n.loops.Wait()
 }
 
 func (n *Node) isShutdown() bool {
@@ -114,26 +126,37 @@ func (n *Node) isShutdown() bool {
 
 // Start will start the controller
 func (n *Node) Start() error {
+	n.runLock.Lock()
+	defer n.runLock.Unlock()
+
+	if !n.isShutdown() {
+		return fmt.Errorf("node has already been started")
+	}
+
 	if err := n.Config.validate(); err != nil {
 		return err
 	}
 	n.log.With(Fields{"ip": n.Config.IP.String(), "type": n.Config.Type.String()}).Debug("node started")
 
-	n.sendCh = make(chan netPayload, 10)
-	n.recvCh = make(chan netPayload, 10)
-	n.pollCh = make(chan packet.ArtPollPacket, 10)
-	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
-	n.shutdownCh = make(chan struct{})
-	n.shutdown = false
-
 	c, err := net.ListenPacket("udp4", n.listenAddr.String())
 	if err != nil {
 		n.shutdownErr = fmt.Errorf("error net.ListenPacket: %s", err)
 		n.log.With(Fields{"error": err}).Error("error net.ListenPacket")
 		return err
 	}
+
+	n.shutdownLock.Lock()
 	n.conn = c.(*net.UDPConn)
+	n.sendCh = make(chan netPayload, 10)
+	n.recvCh = make(chan netPayload, 10)
+	n.pollCh = make(chan packet.ArtPollPacket, 10)
+	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 10)
+	n.shutdownCh = make(chan struct{})
+	n.shutdown = false
+	n.shutdownErr = nil
+	n.shutdownLock.Unlock()
 
+	n.loops.Add(3)
 	go n.pollReplyLoop()
 	go n.recvLoop()
 	go n.sendLoop()
@@ -144,6 +167,8 @@ func (n *Node) Start() error {
 // pollReplyLoop loops to reply to ArtPoll packets
 // when a controller asks for continuous updates, we do that using a ticker
 func (n *Node) pollReplyLoop() {
+	defer n.loops.Done()
+
 	var timer time.Ticker
 
 	// create an ArtPollReply packet to send out in response to an ArtPoll packet
@@ -188,14 +213,20 @@ func (n *Node) send(payload netPayload) {
 
 // poll asks the pollReplyLoop for a reply, unless the node is shut down
 func (n *Node) poll(p packet.ArtPollPacket) {
+	n.shutdownLock.Lock()
+	pollCh, shutdownCh := n.pollCh, n.shutdownCh
+	n.shutdownLock.Unlock()
+
 	select {
-	case n.pollCh <- p:
-	case <-n.shutdownCh:
+	case pollCh <- p:
+	case <-shutdownCh:
 	}
 }
 
 // sendLoop is used to send packets to the network
 func (n *Node) sendLoop() {
+	defer n.loops.Done()
+
 	// loop until shutdown
 	for {
 		select {
@@ -224,9 +255,14 @@ func (n *Node) sendLoop() {
 // due to the nature of broadcasting, we see our own sent
 // packets to, but we ignore them
 func (n *Node) recvLoop() {
+	defer n.loops.Done()
+
 	// start a routine that will read data from n.conn
 	// and (if not shutdown), send to the recvCh
+	n.loops.Add(1)
 	go func() {
+		defer n.loops.Done()
+
 		b := make([]byte, 4096)
 		for {
 			num, from, err := n.conn.ReadFromUDP(b)
@@ -292,7 +328,9 @@ func (n *Node) recvLoop() {
 
 // handlePacket contains the logic for dealing with incoming packets
 func (n *Node) handlePacket(p packet.ArtNetPacket) {
+	n.shutdownLock.Lock()
 	callback, ok := n.callbacks[p.GetOpCode()]
+	n.shutdownLock.Unlock()
 	if !ok {
 		n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")
 		return
@@ -320,9 +358,13 @@ func (n *Node) handlePacketPollReply(p packet.ArtNetPacket) {
 			return
 		}
 
+		n.shutdownLock.Lock()
+		pollReplyCh, shutdownCh := n.pollReplyCh, n.shutdownCh
+		n.shutdownLock.Unlock()
+
 		select {
-		case n.pollReplyCh <- *pollReply:
-		case <-n.shutdownCh:
+		case pollReplyCh <- *pollReply:
+		case <-shutdownCh:
 		}
 	}
 }
@@ -337,6 +379,8 @@ func (n *Node) RegisterCallback(opcode code.OpCode, callback NodeCallbackFn) {
 		return
 	}
 
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
 	n.callbacks[opcode] = callback
 }
 
@@ -349,5 +393,7 @@ func (n *Node) DeregisterCallback(opcode code.OpCode) {
 		return
 	}
 
+	n.shutdownLock.Lock()
+	defer n.shutdownLock.Unlock()
 	delete(n.callbacks, opcode)
 }
-- 
2.43.0


From b2e204eb65e6b64a23fe92b9f5c26bea67fecf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:15 +0000
Subject: [PATCH 11/16] fix: make Start and Stop of a controller safe in any
 order

Stop panicked when called twice or before Start and did not wait for the
goroutines, and a restarted controller kept the nodes of the previous run
without their addresses and reported the error of an earlier start.
---
 controller.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 0fea0fc..c0f3ec2 100644
--- a/controller.go
+++ b/controller.go
@@ -93,6 +93,11 @@ type Controller struct {
 
 	shutdownCh chan struct{}
 
+	// runLock serializes Start and Stop, loops counts the running routines
+	runLock sync.Mutex
+	running bool
+	loops   sync.WaitGroup
+
 	maxFPS int
 	log    Logger
 
@@ -118,8 +123,18 @@ func NewController(name string, ip net.IP, log Logger, opts ...Option) *Controll
 
 // Start will start this controller
 func (c *Controller) Start() error {
+	c.runLock.Lock()
+	defer c.runLock.Unlock()
+
+	if c.running {
+		return fmt.Errorf("controller has already been started")
+	}
+
+	c.nodeLock.Lock()
+	c.Nodes = nil
 	c.OutputAddress = make(map[Address]*ControlledNode)
 	c.InputAddress = make(map[Address]*ControlledNode)
+	c.nodeLock.Unlock()
 	c.shutdownCh = make(chan struct{})
 	c.cNode.log = c.log.With(Fields{"type": "Node"})
 	c.log = c.log.With(Fields{"type": "Controller"})
@@ -130,13 +145,23 @@ func (c *Controller) Start() error {
 	c.pollTicker = time.NewTicker(pollInterval)
 	c.gcTicker = time.NewTicker(pollInterval)
 
+	c.running = true
+	c.loops.Add(2)
 	go c.pollLoop()
 	go c.dmxUpdateLoop()
-	return c.cNode.shutdownErr
+	return nil
 }
 
 // Stop will stop this controller
 func (c *Controller) Stop() {
+	c.runLock.Lock()
+	defer c.runLock.Unlock()
+
+	if !c.running {
+		return
+	}
+	c.running = false
+
 	c.pollTicker.Stop()
 	c.gcTicker.Stop()
 	c.cNode.Stop()
@@ -146,10 +171,13 @@ func (c *Controller) Stop() {
 	}
 
 	close(c.shutdownCh)
+	c.loops.Wait()
 }
 
 // pollLoop will routinely poll for new nodes
 func (c *Controller) pollLoop() {
+	defer c.loops.Done()
+
 	artPoll := &packet.ArtPollPacket{
 		TalkToMe: new(code.TalkToMe).WithReplyOnChange(true),
 		Priority: code.DpAll,
@@ -233,8 +261,11 @@ func (c *Controller) SendDMXToAddress(dmx [512]byte, address Address) {
 
 // dmxUpdateLoop will periodically update nodes until shutdown
 func (c *Controller) dmxUpdateLoop() {
+	defer c.loops.Done()
+
 	fpsInterval := time.Duration(c.maxFPS)
 	ticker := time.NewTicker(time.Second / fpsInterval)
+	defer ticker.Stop()
 
 	forceUpdate := 250 * time.Millisecond
 
-- 
2.43.0


From 28f30f4b12e007a38d37a117877de17dee8caf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:16 +0000
Subject: [PATCH 12/16] fix: send the poll replies of a controller to its
 broadcast address

---
 options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options.go b/options.go
index decc5ab..3b5b8f6 100644
--- a/options.go
+++ b/options.go
@@ -26,7 +26,7 @@ func MaxFPS(fps int) Option {
 func BroadcastAddr(addr net.UDPAddr) Option {
 	return func(c *Controller) error {
 		c.broadcastAddr = addr
-		return nil
+		return NodeBroadcastAddress(addr)(c.cNode)
 	}
 }
 
-- 
2.43.0


From fc743e08d5beb7ab6d9529cb02749e925d061d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:17 +0000
Subject: [PATCH 13/16] fix: create the buffer of an output port that a known
 node adds

Data set before the next update was lost.
---
 controller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller.go b/controller.go
index c0f3ec2..e7abfcd 100644
--- a/controller.go
+++ b/controller.go
@@ -343,6 +343,9 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			// add references to this node to the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
 				c.OutputAddress[port.Address] = c.Nodes[i]
+				if c.Nodes[i].DMXBuffer[port.Address] == nil {
+					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
 				c.InputAddress[port.Address] = c.Nodes[i]
-- 
2.43.0


From b01cfbff9166374ac43279d627f298e052c5f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:18 +0000
Subject: [PATCH 14/16] fix: keep an address that another node has announced
 since

Updating or removing a node deleted its addresses from the tables even
if they belonged to another node by then.
---
 controller.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index e7abfcd..b3fde1f 100644
--- a/controller.go
+++ b/controller.go
@@ -333,10 +333,14 @@ func (c *Controller) updateNode(cfg NodeConfig) error {
 			c.log.With(Fields{"node": cfg.Name, "ip": cfg.IP.String()}).Debug("updated node")
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes[i].Node = cfg
 			c.Nodes[i].LastSeen = time.Now()
@@ -392,10 +396,14 @@ func (c *Controller) deleteNode(node NodeConfig) error {
 			// node found, remove it from the list
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
 		}
@@ -422,10 +430,14 @@ start:
 
 			// remove references to this node from the output map
 			for _, port := range c.Nodes[i].Node.OutputPorts {
-				delete(c.OutputAddress, port.Address)
+				if c.OutputAddress[port.Address] == c.Nodes[i] {
+					delete(c.OutputAddress, port.Address)
+				}
 			}
 			for _, port := range c.Nodes[i].Node.InputPorts {
-				delete(c.InputAddress, port.Address)
+				if c.InputAddress[port.Address] == c.Nodes[i] {
+					delete(c.InputAddress, port.Address)
+				}
 			}
 			// remove node
 			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
-- 
2.43.0


From a4db0ea08350d52f778852e972a07ac4e286bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:19 +0000
Subject: [PATCH 15/16] fix: skip zero as ArtDmx sequence number

Zero tells the node to ignore the order of the packets.
---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index b3fde1f..0abe1e1 100644
--- a/controller.go
+++ b/controller.go
@@ -67,6 +67,10 @@ func (cn *ControlledNode) dmxUpdate(address Address) (b []byte, err error) {
 	}
 
 	cn.Sequence++
+	if cn.Sequence == 0 {
+		// zero would disable the sequence feature
+		cn.Sequence = 1
+	}
 	p := &packet.ArtDMXPacket{
 		Sequence: cn.Sequence,
 		SubUni:   address.SubUni,
-- 
2.43.0


From f908d1263823720bcdebdae0546819f60287c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:20 +0000
Subject: [PATCH 16/16] fix: refuse frame rates that the update ticker cannot
 have

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index 3b5b8f6..349d20c 100644
--- a/options.go
+++ b/options.go
@@ -1,7 +1,9 @@
 package artnet
 
 import (
+	"fmt"
 	"net"
+	"time"
 
 	"github.com/jsimonetti/go-artnet/packet"
 )
@@ -17,6 +19,9 @@ func (c *Controller) SetOption(option Option) error {
 // MaxFPS sets the maximum amount of updates sent out per second
 func MaxFPS(fps int) Option {
 	return func(c *Controller) error {
+		if fps < 1 || fps > int(time.Second) {
+			return fmt.Errorf("invalid maximum updates per second: %d", fps)
+		}
 		c.maxFPS = fps
 		return nil
 	}
-- 
2.43.0

