From e0e4edd1d1bce671edc687c7f4b3b340d4824fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 01/63] fix: decode the whole first level of the LUN field, not
 only its low byte

---
 go.mod                 |  2 +-
 pkg/port/iscsit/cmd.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/go.mod b/go.mod
index 4031ee7..28435f4 100644
--- a/go.mod
+++ b/go.mod
@@ -7,6 +7,7 @@ require (
 	github.com/coreos/go-systemd v0.0.0-20191104093116-d3cd4ed1dbcf
 	github.com/docker/go-connections v0.4.0
 	github.com/gorilla/mux v1.8.0
+	github.com/mitchellh/go-homedir v1.1.0
 	github.com/satori/go.uuid v1.2.0
 	github.com/sirupsen/logrus v1.9.0
 	github.com/spf13/cobra v1.6.1
@@ -19,7 +20,6 @@ require (
 	github.com/hashicorp/hcl v1.0.0 // indirect
 	github.com/inconshreveable/mousetrap v1.0.1 // indirect
 	github.com/magiconair/properties v1.8.6 // indirect
-	github.com/mitchellh/go-homedir v1.1.0 // indirect
 	github.com/mitchellh/mapstructure v1.5.0 // indirect
 	github.com/pelletier/go-toml v1.9.5 // indirect
 	github.com/pelletier/go-toml/v2 v2.0.5 // indirect
diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..bac4de8 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -217,6 +217,13 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN decodes the first level of a LUN field in peripheral device or
+// flat space addressing format (SAM-5 4.7) to the little-endian number which
+// is used to look up the logical unit.
+func parseLUN(data []byte) [8]uint8 {
+	return [8]uint8{data[1], data[0] & 0x3f}
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -232,7 +239,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -253,7 +260,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
-- 
2.43.0


From 4984ca7750f08880aa547779f35f5f0770bbe7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 02/63] fix: decode LUN, CmdSN and ExpStatSN of task management
 requests

---
 pkg/port/iscsit/cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index bac4de8..8cfdac6 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -256,6 +256,9 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		}
 		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = parseLUN(data[8:16])
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
-- 
2.43.0


From 651e1dce657dbcad9ca863075f383c7074cd59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 03/63] fix: keep the status byte of a Data-In PDU without
 status zero

---
 pkg/port/iscsit/cmd.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index 8cfdac6..bdccd2e 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -368,10 +368,8 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	buf[1] = flag
 	//buf.WriteByte(0x00)
 	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
+		buf[3] = byte(m.Status)
 	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
-- 
2.43.0


From d211930276487f84e505609d9f4867c7200e0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 04/63] fix: give the session handle back when a session is
 unbound

---
 pkg/port/iscsit/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..ffd58f6 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -334,6 +334,7 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	defer target.SessionsRWMutex.Unlock()
 	delete(target.Sessions, sess.TSIH)
 	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	s.ReleaseTSIH(sess.TSIH)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
-- 
2.43.0


From 91052794ae7032a5f4e7e152c087061134748beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 05/63] fix: report failed store operations instead of ending
 in GOOD

An error of the backing store in READ, PRE-FETCH, ORWRITE and SYNCHRONIZE
CACHE left the switch with break and was replaced by nil.
---
 pkg/scsi/backingstore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..882c57f 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -73,7 +73,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		if cmd.OutSDBBuffer != nil {
@@ -92,7 +92,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
@@ -114,7 +114,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
 		for i := 0; i < int(tl)-length; i++ {
@@ -136,6 +136,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		// For stupid client which does not set WRITE flag
-- 
2.43.0


From b42815ef996dc173e959b155e8b36864c6fad357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 06/63] fix: write no more than the addressed blocks

The write used the whole data-out buffer, whose size is the expected data
transfer length chosen by the initiator, and so could run past the blocks
the command addresses and past the end of the logical unit.
---
 pkg/scsi/backingstore.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 882c57f..6e7e101 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -51,6 +51,18 @@ func NewBackingStore(name string) (api.BackingStore, error) {
 	return f()
 }
 
+// outBuffer returns the data sent by the initiator, but no more of it than the command addresses
+func outBuffer(cmd *api.SCSICommand) []byte {
+	if cmd.OutSDBBuffer == nil {
+		return nil
+	}
+	buf := cmd.OutSDBBuffer.Buffer
+	if uint64(len(buf)) > uint64(cmd.TL) {
+		buf = buf[:cmd.TL]
+	}
+	return buf
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -76,9 +88,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			goto sense
 		}
 		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
+		wbuf = outBuffer(cmd)
 		doWrite = true
 		goto write
 	case api.COMPARE_AND_WRITE:
@@ -100,9 +110,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		fallthrough
 	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
 		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
-		}
+		wbuf = outBuffer(cmd)
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-- 
2.43.0


From 8d518273c9c424ea201f2a5671a5c3e831f92cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 07/63] fix: ORWRITE ors the data into the medium

It copied the medium into the data-in buffer, which an ORWRITE does not
have, and then wrote the data unchanged.
---
 pkg/scsi/backingstore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 6e7e101..4a306af 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -80,15 +80,16 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
 	case api.ORWRITE_16:
-		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
 			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
 		wbuf = outBuffer(cmd)
+		for i := 0; i < len(wbuf) && i < len(rbuf); i++ {
+			wbuf[i] |= rbuf[i]
+		}
 		doWrite = true
 		goto write
 	case api.COMPARE_AND_WRITE:
-- 
2.43.0


From 5f986814a1d03193c3da8b455c9687b66e2372e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 08/63] fix: refuse a transfer of more bytes than 32 bits can
 count

The byte count was shifted in 32 bits, so that a long READ or WRITE ended
in GOOD after a fraction of its blocks.
---
 pkg/scsi/sbc.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..ec905c4 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,6 +20,7 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -439,6 +440,11 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
+		// more bytes than one command can transfer
+		goto sense
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = tl << dev.BlockShift
 
@@ -603,6 +609,11 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
+		// more bytes than one command can transfer
+		goto sense
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = tl << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
-- 
2.43.0


From f8cfc6e3d8eda31cd9d7cb3ff0006cd71fb6fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 09/63] fix: VERIFY checks its block range also without byte
 check

---
 pkg/scsi/sbc.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec905c4..7929898 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -585,10 +585,6 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
@@ -609,6 +605,11 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
+
 	if uint64(tl)<<dev.BlockShift > math.MaxUint32 {
 		// more bytes than one command can transfer
 		goto sense
-- 
2.43.0


From a36e9221d852092efd8bd99fd75c51dddc6741b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 10/63] fix: UNMAP respects write protection and the end of the
 logical unit

---
 pkg/scsi/sbc.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 7929898..e3a511b 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -311,12 +311,26 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatCheckCondition
 	}
 
+	if cmd.Device.Attrs.Readonly || cmd.Device.Attrs.SWP {
+		BuildSenseData(cmd, DATA_PROTECT, ASC_WRITE_PROTECT)
+		return api.SAMStatCheckCondition
+	}
+
 	const blockDescLen = 16
 
+	blocks := cmd.Device.Size >> cmd.Device.BlockShift
 	var blockDescs []api.UnmapBlockDescriptor
 	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
 		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+		if lba > blocks || uint64(num) > blocks-lba {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
+		if uint64(num)<<cmd.Device.BlockShift > math.MaxUint32 {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_PARMS)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     num << cmd.Device.BlockShift,
-- 
2.43.0


From a58c3dc9920e7d483565e6e2cd497c721027c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 11/63] fix: a failed store operation ends in CHECK CONDITION,
 not in BUSY

The sense data built for it only counts with CHECK CONDITION, and an
initiator retries a command that ends in BUSY, for ever if it miscompares.
---
 pkg/scsi/sbc.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index e3a511b..eb5128a 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -488,11 +488,9 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
-		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
-	} else {
-		return api.SAMStatGood
+		goto sense
 	}
+	return api.SAMStatGood
 
 sense:
 	BuildSenseData(cmd, key, asc)
-- 
2.43.0


From b7486ec643fe14617697a07b67f31c3462e3654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 12/63] fix: no crash on a command without the data buffer its
 operation uses

---
 pkg/scsi/scsi.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..f415e0a 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -90,6 +90,14 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	// An operation finds both data buffers, an empty one for a direction in
+	// which the initiator transfers nothing.
+	if scmd.InSDBBuffer == nil {
+		scmd.InSDBBuffer = &api.SCSIDataBuffer{}
+	}
+	if scmd.OutSDBBuffer == nil {
+		scmd.OutSDBBuffer = &api.SCSIDataBuffer{}
+	}
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
-- 
2.43.0


From 12cdd1bb69d50b999509801edd2b1552194c6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 13/63] fix: sense data is complete and comes with CHECK
 CONDITION

It was cut to the allocation length of the command, which does not apply to
it, descriptor format lacked half of the header its length announces, and
the sense key was stored as the status, which a bidirectional command sent.
---
 pkg/scsi/scsi.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index f415e0a..3ddaab1 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -121,8 +121,8 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 	}
 
 	result := scmd.Device.PerformCommand(tid, scmd)
+	scmd.Result = result.Stat
 	if result != api.SAMStatGood {
-		scmd.Result = result.Stat
 		log.Warnf("opcode: %xh err: %v", scmd.OpCode, result.Err)
 	}
 	return nil
@@ -159,7 +159,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -178,6 +177,9 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		senseBuffer.WriteByte(key)
 		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
 		senseBuffer.WriteByte(byte(asc) & 0xff)
+		for i := 0; i < 4; i++ {
+			senseBuffer.WriteByte(0x00)
+		}
 		length = 8
 	} else {
 		// fixed format
@@ -199,15 +201,7 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
-	cmd.Result = key
+	cmd.Result = api.SAM_STAT_CHECK_CONDITION
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
 
-- 
2.43.0


From db01428bcb98a377ec5630c20da1ab9a224e2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 14/63] fix: REQUEST SENSE returns its data as data-in, up to
 its allocation length

The allocation length is one byte, and the empty sense buffer it left made
the iSCSI layer send the data as sense data of the response.
---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..b7fb43b 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1409,7 +1409,7 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		actualLength     uint32
 	)
 
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
+	allocationLength = uint32(cmd.SCB[4])
 	if allocationLength > cmd.InSDBBuffer.Length {
 		allocationLength = cmd.InSDBBuffer.Length
 	}
@@ -1423,7 +1423,7 @@ func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	cmd.InSDBBuffer.Resid = uint32(actualLength)
 
 	// reset sense buffer in cmnd
-	cmd.SenseBuffer = &api.SenseBuffer{}
+	cmd.SenseBuffer = nil
 
 	return api.SAMStatGood
 }
-- 
2.43.0


From f4945bffca5beb93854120e98425b56719e9faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 15/63] fix: MODE SENSE returns no more than its allocation
 length and never crashes

A short allocation length left out header bytes that were then set, and a
short buffer of the initiator crashed the target.
---
 pkg/scsi/sbc.go  |  8 +++++---
 pkg/scsi/scsi.go | 11 +++++++++++
 pkg/scsi/spc.go  | 14 +++-----------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index eb5128a..281bccf 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -243,10 +243,12 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	pos := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		pos = 2
+	}
+	if pos < len(cmd.InSDBBuffer.Buffer) {
+		cmd.InSDBBuffer.Buffer[pos] = deviceSpecific
 	}
 
 	return api.SAMStatGood
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 3ddaab1..8dc4a12 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -205,6 +205,17 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
 
+// setDataIn hands data to the initiator, as far as the allocation length of
+// the command and the buffer of the initiator allow.
+func setDataIn(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
+	if uint64(len(data)) > uint64(allocationLength) {
+		data = data[:allocationLength]
+	}
+	n := copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Buffer = cmd.InSDBBuffer.Buffer[:n]
+	cmd.InSDBBuffer.Resid = uint32(n)
+}
+
 func getSCSIReadWriteOffset(scb []byte) uint64 {
 	var off uint64
 	var opcode = api.SCSICommandType(scb[0])
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index b7fb43b..ac9cd84 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -565,7 +565,6 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc            = ASC_INVALID_FIELD_IN_CDB
 		data           []byte
 		allocLen       uint32
-		i              uint32
 	)
 
 	if dbd == 0 {
@@ -578,15 +577,11 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 4)
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 8)
 	}
 	if dbd == 0 {
 		data = append(data, cmd.Device.ModeBlockDescriptor...)
@@ -648,10 +643,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[6] = uint8(blkDesctionLen >> 8)
 		data[7] = uint8(blkDesctionLen)
 	}
-	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
-	}
-	copy(cmd.InSDBBuffer.Buffer, data)
+	setDataIn(cmd, data, allocLen)
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, key, asc)
-- 
2.43.0


From 2df9359d073b10077fbb32cdd3cc92c037426803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 16/63] fix: MODE SENSE returns the changeable values of a page
 in full

---
 pkg/scsi/spc.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index ac9cd84..65f2242 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -543,6 +543,17 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// modePageData returns the values of a mode page, or the mask of those that
+// can be changed, which follows the values as far as any can.
+func modePageData(pg *api.ModePage, changeable bool) []byte {
+	if !changeable {
+		return pg.Data[:pg.Size]
+	}
+	mask := make([]byte, pg.Size)
+	copy(mask, pg.Data[pg.Size:])
+	return mask
+}
+
 /*
  * SPCModeSense Implement SCSI MODE SENSE(6) and MODE SENSE(10) command
  * The MODE SENSE command requests the device server to return the specified medium,
@@ -597,11 +608,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 				data = append(data, (pg.Size>>8)&0xff)
 				data = append(data, pg.Size&0xff)
 			}
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageData(&pg, pctrl == 1)...)
 		}
 	} else {
 		var pg *api.ModePage
@@ -617,21 +624,13 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		if pg.SubPageCode == 0 {
 			data = append(data, pg.PageCode)
 			data = append(data, pg.Size)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageData(pg, pctrl == 1)...)
 		} else {
 			data = append(data, pg.PageCode|0x40)
 			data = append(data, pg.SubPageCode)
 			data = append(data, (pg.Size>>8)&0xff)
 			data = append(data, pg.Size&0xff)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
+			data = append(data, modePageData(pg, pctrl == 1)...)
 		}
 	}
 	if mode6 {
-- 
2.43.0


From 8b4c78082ca55845cdc7dc2533a4173773bfb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 17/63] fix: no crash on PREVENT ALLOW MEDIUM REMOVAL

---
 pkg/scsi/spc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 65f2242..9292a60 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -539,7 +539,9 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From 7e5c3d38b0a32c686e74ddef80273bd365f274c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 18/63] fix: INQUIRY returns its data and no more than the
 allocation length

---
 pkg/scsi/spc.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 9292a60..809b0c8 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -317,12 +317,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		setDataIn(cmd, data, uint32(allocationLength))
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -386,13 +381,7 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
+		setDataIn(cmd, data, uint32(allocationLength))
 	}
 
 	return api.SAMStatGood
-- 
2.43.0


From 6fbb285206ce3fbdca0d0f0e582ae919fb8c9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 19/63] fix: no crash on INQUIRY page 83h for a port the target
 does not have

A port name of 256 bytes also wrapped its length byte to zero.
---
 pkg/scsi/spc.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 809b0c8..c8dbc02 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -165,14 +165,16 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
-	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
-	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
-	descBuf.WriteByte(0x00)
-	//length
-	descBuf.WriteByte(byte(len(portName)))
-	//RTPGI
-	descBuf.Write(portName)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 252)
+		descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
+		descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
+		descBuf.WriteByte(0x00)
+		//length
+		descBuf.WriteByte(byte(len(portName)))
+		//RTPGI
+		descBuf.Write(portName)
+	}
 
 	data = descBuf.Bytes()
 	pageLength = uint16(len(data))
-- 
2.43.0


From 21e9a460d38e8c76eed7c55a4dc0dfe2709b7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 20/63] fix: REPORT LUNS returns only its list, cut at the
 allocation length

The header was not counted, and data of an older use of the buffer or zeros
followed the list up to the allocation length.
---
 pkg/scsi/spc.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index c8dbc02..dc3c439 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -402,7 +402,6 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
 		availLength      uint32 = 0
 		allocationLength uint32
 		buf              *bytes.Buffer = &bytes.Buffer{}
@@ -414,7 +413,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
 	} else {
@@ -423,7 +421,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
@@ -433,24 +430,20 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	//For LUN0
 	if _, ok := cmd.Target.Devices[0]; !ok {
 		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
 	}
 
 	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	setDataIn(cmd, buf.Bytes(), allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
-- 
2.43.0


From 13d4d257b081cf3424a4f37326f59c8a063e15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 21/63] fix: READ CAPACITY fills also a buffer of less than
 eight bytes

---
 pkg/scsi/sbc.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 281bccf..5430301 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -533,6 +533,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   []byte
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -546,21 +547,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		data = util.MarshalUint32(uint32(0xffffffff))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		data = util.MarshalUint32(uint32(size - 1))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
-	cmd.InSDBBuffer.Resid = 8
+	data = append(data, util.MarshalUint32(uint32(1<<bshift))...)
+	setDataIn(cmd, data, uint32(len(data)))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
-- 
2.43.0


From 14111c555d272ccdcc2784e5baaad618351966c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 22/63] fix: READ CAPACITY(16) respects its allocation length
 and a short buffer

A buffer shorter than the allocation length said crashed the target.
---
 pkg/scsi/sbc.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 5430301..693f7e2 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -650,20 +650,18 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		lbpme            int
+		data             = make([]byte, 32)
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
-	}
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
+	}
+	val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
+	copy(data[12:], util.MarshalUint32(uint32(val)))
+	setDataIn(cmd, data, allocationLength)
 	return api.SAMStatGood
 }
 
-- 
2.43.0


From 4ee92512451ecc4e44125bb4bfc3c56388bd60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 23/63] fix: REPORT SUPPORTED OPERATION CODES respects its
 allocation length and a short buffer

---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index dc3c439..65252b3 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -696,8 +696,8 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	setDataIn(cmd, data, util.GetUnalignedUint32(cmd.SCB[6:10]))
 	return nil
 }
 
-- 
2.43.0


From 20fce8650296c7c7a1c089ff8b509163d6217288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 24/63] fix: READ returns exactly the addressed blocks

A READ of no blocks returned as many zeros as the initiator expected bytes.
---
 pkg/scsi/backingstore.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 4a306af..0e56236 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -133,13 +133,12 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
+		if uint64(cmd.InSDBBuffer.Length) < uint64(len(rbuf)) {
 			key = ILLEGAL_REQUEST
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, rbuf)
+		setDataIn(cmd, rbuf, cmd.TL)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
 		if err != nil {
-- 
2.43.0


From f503f1281a62fb0758bc89c2d57e93bd56f4c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 25/63] fix: find the length field of a CDB by its group code

The group code was compared with command lengths, so that no length was ever
found and every PERSISTENT RESERVE OUT failed.
---
 pkg/scsi/cmd.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/scsi/cmd.go b/pkg/scsi/cmd.go
index 4bb80c4..2e4d7aa 100644
--- a/pkg/scsi/cmd.go
+++ b/pkg/scsi/cmd.go
@@ -51,21 +51,21 @@ const (
 
 const (
 	//  6-byte commands
-	CDB_GROUPID_0 = 6
+	CDB_GROUPID_0 = 0
 	// 10-byte commands
-	CDB_GROUPID_1 = 10
+	CDB_GROUPID_1 = 1
 	// 10-byte commands
-	CDB_GROUPID_2 = 10
+	CDB_GROUPID_2 = 2
 	// reserved
-	CDB_GROUPID_3 = 0
+	CDB_GROUPID_3 = 3
 	// 16-byte commands
-	CDB_GROUPID_4 = 16
+	CDB_GROUPID_4 = 4
 	// 12-byte commands
-	CDB_GROUPID_5 = 12
+	CDB_GROUPID_5 = 5
 	// vendor specific
-	CDB_GROUPID_6 = 0
+	CDB_GROUPID_6 = 6
 	// vendor specific
-	CDB_GROUPID_7 = 0
+	CDB_GROUPID_7 = 7
 )
 
 func SCSICDBGroupID(opcode byte) byte {
@@ -252,7 +252,7 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 	switch group {
 	case CDB_GROUPID_0:
 		length = int64(scb[4])
-	case CDB_GROUPID_2:
+	case CDB_GROUPID_1, CDB_GROUPID_2:
 		length = int64(util.GetUnalignedUint16(scb[7:9]))
 	case CDB_GROUPID_3:
 		if opcode == 0x7F {
@@ -261,9 +261,9 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 			ok = false
 		}
 	case CDB_GROUPID_4:
-		length = int64(util.GetUnalignedUint32(scb[6:10]))
-	case CDB_GROUPID_5:
 		length = int64(util.GetUnalignedUint32(scb[10:14]))
+	case CDB_GROUPID_5:
+		length = int64(util.GetUnalignedUint32(scb[6:10]))
 	default:
 		ok = false
 	}
-- 
2.43.0


From 036ad45e684c982bf8c94be440d8a076c826dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 26/63] fix: no crash on PERSISTENT RESERVE OUT with a short
 parameter list

---
 pkg/scsi/spc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 65252b3..2d7ad28 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -904,7 +904,7 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 	)
 	length, _ := SCSICDBBufXLength(cmd.SCB)
 	paramLen = uint32(length)
-	if paramLen != 24 {
+	if paramLen != 24 || len(buf) < 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -1305,7 +1305,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if paramListLen < 24 || len(buf) < 25 {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
-- 
2.43.0


From 04000aba7f3ca31a2df51e88746525a0317368b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 27/63] fix: PERSISTENT RESERVE IN returns the keys and the
 reservation

READ KEYS never looked at its allocation length and so always failed, READ
RESERVATION left out the header from its length and two bytes of its data.
---
 pkg/scsi/spc.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 2d7ad28..6ef4fbd 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -767,15 +767,18 @@ func SPCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		addBuf           []byte = []byte{}
+		data             []byte = []byte{}
 		allocationLength uint16
 		additionLength   uint32
-		l                int = 0
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+
+	length, _ := SCSICDBBufXLength(cmd.SCB)
+	allocationLength = uint16(length)
 	if allocationLength < 8 {
 		goto sense
 	}
@@ -785,11 +788,10 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 	additionLength = uint32(len(addBuf))
 
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	data = append(data, util.MarshalUint32(PRGeneration)...)
+	data = append(data, util.MarshalUint32(additionLength)...)
+	data = append(data, addBuf...)
+	setDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -833,6 +835,9 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 		//SCOPE and TYPE
 		scope_type := (curRes.Scope << 4) | curRes.Type
 		addBuf.WriteByte(scope_type)
+		//Obsolete
+		addBuf.WriteByte(0x00)
+		addBuf.WriteByte(0x00)
 		additionLength = uint32(0x10)
 	}
 
@@ -840,13 +845,7 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	buf.Write(util.MarshalUint32(additionLength))
 	buf.Write(addBuf.Bytes())
 	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
-	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	setDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 
 sense:
-- 
2.43.0


From f237fa5fd614906bd00bc66995e0a0ec0708de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 28/63] fix: removing a registration that is not there removes
 no other one

---
 pkg/scsi/scsi_pr.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..1e7d9ca 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -205,8 +205,9 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 	resArray := LURes.Reservations
 	curRes := LURes.CurrentReservation
 
-	for i, tmpRes = range resArray {
-		if tmpRes == res {
+	for j := range resArray {
+		if resArray[j] == res {
+			i = j
 			break
 		}
 	}
@@ -258,7 +259,6 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	var (
 		LURes     *SCSILUReservation
 		targetRes SCSILUReservationMap
-		tmpRes    *api.SCSIReservation
 		i         int = -1
 		ok        bool
 	)
@@ -270,8 +270,9 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	}
 	resArray := LURes.Reservations
 
-	for i, tmpRes = range resArray {
-		if tmpRes == res {
+	for j := range resArray {
+		if resArray[j] == res {
+			i = j
 			break
 		}
 	}
-- 
2.43.0


From dc2676043e3ab2bdd5933d61a3f74c7485ce1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 29/63] fix: unregistering one of several holders leaves the
 reservation where it is

---
 pkg/scsi/scsi_pr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index 1e7d9ca..b9867be 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -223,7 +223,7 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		return
 	}
 
-	if !op.IsCurrentReservation(tgtName, devUUID, res) {
+	if curRes != res {
 		return
 	}
 
-- 
2.43.0


From 8a9ea8b41e7676bf3411d57193aacd8b318e2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 30/63] fix: CLEAR removes every registration

It removed them one by one from the list it iterated over.
---
 pkg/scsi/spc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ef4fbd..1498958 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1169,8 +1169,8 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 		if tmpRes != res {
 			//TODO send sense code
 		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 	}
+	scsiResOp.RemoveAllReservation(tgtName, devUUID)
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
-- 
2.43.0


From b861a6ec0331bc8e14d213c178601c36b89baad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 31/63] fix: RESERVE requires the registered key

---
 pkg/scsi/spc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 1498958..83eee60 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -983,6 +983,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 		curRes   *api.SCSIReservation
 		res      *api.SCSIReservation
 		ok       bool = false
+		resKey   uint64
 		resScope uint8
 		resType  uint8
 	)
@@ -998,6 +999,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
+	resKey = util.GetUnalignedUint64(cmd.OutSDBBuffer.Buffer[0:8])
 
 	switch resType {
 	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
@@ -1013,7 +1015,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != resKey {
 		return api.SAMStatReservationConflict
 	}
 
-- 
2.43.0


From 441c317b28fef58e0c4dee2c093d6d29da77e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 32/63] fix: PREEMPT removes the registrations with the named
 key, not its own

It refused a key that is registered, compared the holder with the wrong key
and removed the registration of the nexus that sent it.
---
 pkg/scsi/spc.go | 73 ++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 83eee60..0f1f74d 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1193,7 +1193,7 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 		sAResKey     uint64
 		res          *api.SCSIReservation
 		curRes       *api.SCSIReservation
-		resReleased  bool
+		resPreempted bool
 		removeAllRes bool
 		resScope     uint8
 		resType      uint8
@@ -1223,56 +1223,47 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 
-	if sAResKey != 0 {
-		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
-			return api.SAMStatReservationConflict
-		}
-	}
-
 	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
 	if curRes != nil {
-		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
-			if sAResKey == 0 {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-				removeAllRes = true
-			}
-		} else {
-			if curRes.Key == resKey {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-			} else {
-				if sAResKey == 0 {
-					goto sense
-				}
-			}
+		allReg := curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
+			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
+		removeAllRes = allReg && sAResKey == 0
+		resPreempted = removeAllRes || (!allReg && curRes.Key == sAResKey)
+	}
+	if sAResKey == 0 && !resPreempted {
+		goto sense
+	}
+	if !removeAllRes && !scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey) {
+		return api.SAMStatReservationConflict
+	}
+
+	if resPreempted {
+		switch resType {
+		case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+			PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+			PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+			PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+			break
+		default:
+			goto sense
+		}
+		if resScope != PR_LU_SCOPE {
+			goto sense
 		}
+		res.Type = resType
+		res.Scope = resScope
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
 	}
 
-	for _, tmpRes := range resList {
+	// removing changes the list, so go through a copy of it
+	for _, tmpRes := range append([]*api.SCSIReservation{}, resList...) {
 		if tmpRes == res {
 			continue
 		}
 
-		if res.Key == resKey || removeAllRes {
+		if removeAllRes || tmpRes.Key == sAResKey {
 			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
-		} else {
-			if resReleased {
-				//TODO send sense code
-			}
+			scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
 		}
 	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
-- 
2.43.0


From fb90c66408a5b551320a08def33b64014de415b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 33/63] fix: only the holder can move a persistent reservation,
 which keeps its type

---
 pkg/scsi/spc.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 0f1f74d..ab5d607 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1329,8 +1329,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-		return api.SAMStatGood
+	if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
+		return api.SAMStatReservationConflict
 	}
 
 	if res.Key != resKey {
@@ -1350,8 +1350,10 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	goto sense
 found:
 	//TODO check transportid
+	dstReg.Scope = curRes.Scope
+	dstReg.Type = curRes.Type
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
-	if unreg != 0 {
+	if unreg != 0 && dstReg != res {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
 	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
-- 
2.43.0


From 5320801d6b663633c28cf50b540538c9d452c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 34/63] fix: UNMAP does not run past a parameter list of almost
 4 GiB

---
 pkg/scsi/sbc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 693f7e2..8767de7 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -322,7 +322,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	blocks := cmd.Device.Size >> cmd.Device.BlockShift
 	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
+	for off := 8; off+blockDescLen <= len(cmd.OutSDBBuffer.Buffer); off += blockDescLen {
 		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
 		if lba > blocks || uint64(num) > blocks-lba {
-- 
2.43.0


From 07294a732c47fdf27c05efda70943dba044fbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 35/63] fix: ABORT TASK SET and LOGICAL UNIT RESET do not claim
 to have done anything

---
 pkg/port/iscsit/iscsid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..42a26dc 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -956,7 +956,9 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
 		case ISCSI_TM_FUNC_ABORT_TASK_SET:
+			fallthrough
 		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_ACA:
 			fallthrough
 		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
-- 
2.43.0


From 16811712bc882dd0c174389e790b3034594fa944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 36/63] fix: an aborted task is not answered under the tag of
 the abort request

---
 pkg/port/iscsit/iscsid.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 42a26dc..01dc831 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -943,16 +943,8 @@ func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 			if stask == nil {
 				task.result = ISCSI_TMF_RSP_NO_TASK
 			} else {
-				// abort this task
+				// abort this task, there is no response for it
 				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
 				task.result = ISCSI_TMF_RSP_COMPLETE
 			}
 		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-- 
2.43.0


From 97b6fddcd1e7840046660322037d0cd8139a5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 37/63] fix: MODE SENSE reports the capacity after a resize

---
 pkg/scsi/sbc.go  | 7 ++++++-
 pkg/scsi/scsi.go | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 8767de7..606d895 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -118,12 +118,17 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	setModeBlockDescriptor(lu)
+	return nil
+}
+
+// setModeBlockDescriptor describes the capacity of lu for MODE SENSE.
+func setModeBlockDescriptor(lu *api.SCSILu) {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
 	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 8dc4a12..d1021d5 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -64,6 +64,7 @@ func (s *SCSITargetService) Resize(size uint64) error {
 		if t.Devices != nil {
 			for i := range t.Devices {
 				t.Devices[i].Size = size
+				setModeBlockDescriptor(t.Devices[i])
 			}
 		}
 	}
-- 
2.43.0


From 00f8286ed7984309f197ca41718e330f18d3ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 38/63] fix: PERSISTENT RESERVE OUT RELEASE with a wrong key is
 a reservation conflict

---
 pkg/scsi/spc.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index ab5d607..c69ff7b 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1074,6 +1074,10 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 
+	if resKey != res.Key {
+		return api.SAMStatReservationConflict
+	}
+
 	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
 	if curRes == nil {
 		return api.SAMStatGood
@@ -1083,10 +1087,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
 	if curRes.Scope != resScope || curRes.Type != resType {
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = 0
-- 
2.43.0


From 20da4c8a267f36854c4820448b2b9babf4a1016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 39/63] fix: REGISTER AND IGNORE EXISTING KEY is recognised by
 its service action alone

---
 pkg/scsi/spc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index c69ff7b..1ca854f 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -931,7 +931,7 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+	if scb[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
 		ignoreKey = true
 	}
 	ok = reservationCheck(host, cmd)
-- 
2.43.0


From 9919c2e37dd7d212035b57926ae99da6740a9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 40/63] fix: a remote LUN is mapped under the lock and with its
 reservation state

---
 pkg/scsi/scsilumap.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..6c9bf92 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -168,11 +168,9 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
 	globalSCSILUMap.mutex.Unlock()
 
-	mappingLUN(LUNMapping{
+	return AddLUNMapping(LUNMapping{
 		DeviceID:   config.DeviceID,
 		LUN:        lun,
 		TargetName: tgtName,
-	},
-	)
-	return nil
+	})
 }
-- 
2.43.0


From e893321466e0811cb482b9cb53d6fde228a65cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 41/63] fix: pending tasks are executed in CmdSN order, across
 the wrap of the number

---
 go.mod                     |  2 +-
 pkg/port/iscsit/iscsid.go  | 43 ++++++++++++++++++++------------------
 pkg/port/iscsit/session.go | 13 ++++++++++++
 3 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/go.mod b/go.mod
index 28435f4..28790ff 100644
--- a/go.mod
+++ b/go.mod
@@ -11,6 +11,7 @@ require (
 	github.com/satori/go.uuid v1.2.0
 	github.com/sirupsen/logrus v1.9.0
 	github.com/spf13/cobra v1.6.1
+	github.com/spf13/viper v1.14.0
 	golang.org/x/net v0.4.0
 )
 
@@ -27,7 +28,6 @@ require (
 	github.com/spf13/cast v1.5.0 // indirect
 	github.com/spf13/jwalterweatherman v1.1.0 // indirect
 	github.com/spf13/pflag v1.0.5 // indirect
-	github.com/spf13/viper v1.14.0 // indirect
 	github.com/subosito/gotenv v1.4.1 // indirect
 	golang.org/x/mod v0.6.0-dev.0.20220419223038-86c51ed26bb4 // indirect
 	golang.org/x/sys v0.3.0 // indirect
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 01dc831..fe79ba8 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -876,32 +876,17 @@ func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
 	cmdsn := cmd.CmdSN
 	log.Debugf("CmdSN of command is %d", cmdsn)
 	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
+		sess.ExpCmdSN = cmdsn + 1
+		log.Debugf("session's ExpCmdSN is %d", sess.ExpCmdSN)
 
 		log.Debugf("process task(%d)", task.cmd.CmdSN)
 		if err := s.iscsiExecTask(task); err != nil {
 			log.Error(err)
 		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
+		s.iscsiExecPendingTasks(sess)
+		return nil
 	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
+		if int32(cmd.CmdSN-sess.ExpCmdSN) < 0 {
 			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
 			log.Error(err)
 			return err
@@ -918,6 +903,24 @@ func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
 	return nil
 }
 
+// iscsiExecPendingTasks executes the pending tasks whose turn has come, in CmdSN order.
+func (s *ISCSITargetDriver) iscsiExecPendingTasks(sess *ISCSISession) {
+	for {
+		sess.PendingTasksMutex.Lock()
+		task := sess.PendingTasks.removeNext(sess.ExpCmdSN)
+		sess.PendingTasksMutex.Unlock()
+		if task == nil {
+			return
+		}
+		sess.ExpCmdSN += 1
+		log.Debugf("process pending task(%d)", task.cmd.CmdSN)
+		task.state = taskSCSI
+		if err := s.iscsiExecTask(task); err != nil {
+			log.Error(err)
+		}
+	}
+}
+
 func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
 	cmd := task.cmd
 	switch cmd.OpCode {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index ffd58f6..9846ff2 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -306,6 +306,19 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
+// removeNext takes the task out of the queue that waits for its turn with the given CmdSN;
+// tasks that wait for data have had their turn.
+func (tq *taskQueue) removeNext(cmdSN uint32) *iscsiTask {
+	old := *tq
+	for i, t := range old {
+		if t.cmd.CmdSN == cmdSN && t.r2tCount <= 0 {
+			*tq = append(old[:i], old[i+1:]...)
+			return t
+		}
+	}
+	return nil
+}
+
 func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
 	var (
 		tgt  *ISCSITarget
-- 
2.43.0


From 4b781f5e3a561410570461fa4efd1a2d9609a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 42/63] fix: only the expected, non-immediate command advances
 ExpCmdSN when it waits for data

---
 pkg/port/iscsit/iscsid.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index fe79ba8..deb4c6c 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -756,11 +756,20 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
+				if !req.Immediate {
+					if req.CmdSN != conn.session.ExpCmdSN {
+						log.Errorf("unexpected cmd serial number: (%d, %d)", req.CmdSN, conn.session.ExpCmdSN)
+						conn.rxIOState = IOSTATE_RX_BHS
+						s.handler(DATAIN, conn)
+						return nil
+					}
+					conn.session.ExpCmdSN += 1
+				}
 				task.state = taskPending
 				conn.session.PendingTasksMutex.Lock()
 				conn.session.PendingTasks.Push(task)
 				conn.session.PendingTasksMutex.Unlock()
+				s.iscsiExecPendingTasks(conn.session)
 				conn.rxTask = task
 				if conn.session.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value == 1 {
 					iscsiExecR2T(conn)
-- 
2.43.0


From a8ebec9a535ffe2e71dd5da5b6664babe6be5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 43/63] fix: a Data-In near 4 GiB is not cut short by the wrap
 of its offset

---
 pkg/port/iscsit/iscsid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index deb4c6c..0a7f48d 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -606,7 +606,7 @@ func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
 SendRemainingData:
 	if resp.OpCode == OpSCSIIn {
 		resp.BufferOffset = offset
-		if int(offset+segmentLen) < transferLen {
+		if int(offset)+int(segmentLen) < transferLen {
 			count += 1
 			if count < maxCount {
 				resp.FinalInSeq = false
-- 
2.43.0


From eebeb1bf1c40d53ccbed677e3e87789cd84b7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 44/63] fix: an item without a key or separator no longer
 spoils the next key of an iSCSI text

---
 pkg/util/util.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 5ef830f..2d089d1 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -43,19 +43,16 @@ func GetUnalignedUint64(u8 []uint8) uint64 {
 // ParseKVText parses iSCSI key value data.
 func ParseKVText(txt []byte) map[string]string {
 	m := make(map[string]string)
-	var kv, sep int
-	var key string
+	// kv is the start of the current item, sep the position of its first '='
+	kv, sep := 0, -1
 	for i := 0; i < len(txt); i++ {
-		if txt[i] == '=' {
-			if key == "" {
-				sep = i
-				key = string(txt[kv:sep])
-			}
-			continue
+		if txt[i] == '=' && sep < kv {
+			sep = i
 		}
-		if txt[i] == 0 && key != "" {
-			m[key] = string(txt[sep+1 : i])
-			key = ""
+		if txt[i] == 0 {
+			if sep > kv {
+				m[string(txt[kv:sep])] = string(txt[sep+1 : i])
+			}
 			kv = i + 1
 		}
 	}
-- 
2.43.0


From e9c692fe16b56364131da965414e9ee64caed567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 45/63] fix: MaxQueueCmd and MaxXmitDataSegmentLength are
 different session parameters

---
 pkg/port/iscsit/session.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 9846ff2..7af540e 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -69,11 +69,12 @@ const (
 	ISCSI_PARAM_INITIATOR_RDSL
 	ISCSI_PARAM_MAX_OUTST_PDU
 	/* "local" parmas, never sent to the initiator */
-	ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
+	ISCSI_PARAM_MAX_XMIT_DLENGTH
 	ISCSI_PARAM_MAX_QUEUE_CMD
 	/* must always be last */
 	ISCSI_PARAM_MAX
+
+	ISCSI_PARAM_FIRST_LOCAL = ISCSI_PARAM_MAX_XMIT_DLENGTH
 )
 
 type ISCSISessionParam struct {
-- 
2.43.0


From ee7aa8a372f9a6f71f0c472d5a990f1824d9a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 46/63] fix: a login with an unknown session handle is refused,
 it does not crash the target

---
 pkg/port/iscsit/session.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 7af540e..946e45d 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -395,8 +395,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		return fmt.Errorf("initiator err, invalid request")
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
+	if existSess == nil && conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
 		return fmt.Errorf("initiator err, no session")
 	}
 
-- 
2.43.0


From 5a2de566efb7a41cb2cbc75e097e85ab2589aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 47/63] fix: only the initiator of a session can join it

---
 pkg/port/iscsit/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 946e45d..11df983 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -336,7 +336,7 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 	if !ok {
 		return nil
 	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
+	if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) {
 		return sess
 	}
 	return nil
-- 
2.43.0


From ca4e907be765604329d0296bca45044fdfa39f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 48/63] fix: a connection that replaces another one takes its
 place in the session

---
 pkg/port/iscsit/conn.go    |  7 ++++++-
 pkg/port/iscsit/session.go | 10 ++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..c4feb31 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -143,9 +143,14 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
+// ReInstatement closes the connection and lets newConn take its place in the session.
 func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
+	sess := conn.session
 	conn.close()
-	conn.conn = newConn.conn
+	newConn.session = sess
+	sess.ConnectionsRWMutex.Lock()
+	sess.Connections[newConn.cid] = newConn
+	sess.ConnectionsRWMutex.Unlock()
 }
 
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 11df983..9d4e79d 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -440,11 +440,13 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			newSess.Target.Sessions[newSess.TSIH] = newSess
 			newSess.Target.SessionsRWMutex.Unlock()
 		} else {
-			if existConn != nil {
-				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
+			if existConn == nil {
+				// MaxConnections is 1
+				return fmt.Errorf("initiator err, too many connections")
 			}
+			log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+			existConn.ReInstatement(conn)
 		}
 	}
 
-- 
2.43.0


From 26ade04043a6063c760a639ab9d00df9f670089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 49/63] fix: a MaxRecvDataSegmentLength that is no permitted
 number is not used

---
 pkg/port/iscsit/login.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..79b24ce 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -120,7 +120,9 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 		if key == "MaxRecvDataSegmentLength" {
 			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
 			uintVal, ok = defSessKey.conv(val)
-			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			if ok && (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
+				conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
+			}
 			continue
 		}
 
-- 
2.43.0


From a2cb26fbefe8fd385cbb20d4137c95632a5f5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 50/63] fix: a value out of range is replaced by the default
 that is answered

---
 pkg/port/iscsit/login.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 79b24ce..8290388 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -167,6 +167,7 @@ func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
 						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
 					} else {
 						// the value out of the acceptable range, Uses target default key
+						conn.loginParam.sessionParam[defSessKey.idx].Value = defSessKey.def
 						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
 						kvChanges++
 					}
-- 
2.43.0


From 90227fe318b196403d25e334aed0f538a851b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 51/63] fix: CRC32C digests, which the target does not compute,
 are not agreed on

---
 pkg/port/iscsit/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 9d4e79d..d3e99d4 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -187,9 +187,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_RECV_DLENGTH
 	"MaxRecvDataSegmentLength": {ISCSI_PARAM_MAX_RECV_DLENGTH, true, 65536, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_HDRDGST_EN
-	"HeaderDigest": {ISCSI_PARAM_HDRDGST_EN, false, DIGEST_NONE, DIGEST_NONE, DIGEST_ALL, digestKeyConv, digestKeyInConv},
+	"HeaderDigest": {ISCSI_PARAM_HDRDGST_EN, false, DIGEST_NONE, DIGEST_NONE, DIGEST_NONE, digestKeyConv, digestKeyInConv},
 	// ISCSI_PARAM_DATADGST_EN
-	"DataDigest": {ISCSI_PARAM_DATADGST_EN, false, DIGEST_NONE, DIGEST_NONE, DIGEST_ALL, digestKeyConv, digestKeyInConv},
+	"DataDigest": {ISCSI_PARAM_DATADGST_EN, false, DIGEST_NONE, DIGEST_NONE, DIGEST_NONE, digestKeyConv, digestKeyInConv},
 	// ISCSI_PARAM_INITIAL_R2T_EN
 	"InitialR2T": {ISCSI_PARAM_INITIAL_R2T_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_MAX_R2T
-- 
2.43.0


From 4a42de5a6c15755bf99ae38cf753c7dca27611a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 52/63] fix: DataPDUInOrder and DataSequenceInOrder are
 answered, as Yes or No

---
 pkg/port/iscsit/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index d3e99d4..2bc1333 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -201,9 +201,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
-- 
2.43.0


From 495c3cdf1a70b75afc211ebc5059fdaf373f8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 53/63] fix: Data-In segments respect the
 MaxRecvDataSegmentLength of the initiator

---
 pkg/port/iscsit/iscsid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0a7f48d..f5bc882 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -467,6 +467,11 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	if _, err := conn.processLoginData(); err != nil {
 		return err
 	}
+	// no segment of a Data-In is longer than the initiator takes
+	if limit := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value; limit < uint(conn.maxRecvDataSegmentLength) {
+		conn.maxRecvDataSegmentLength = uint32(limit)
+		conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
+	}
 
 	if !conn.loginParam.paramInit {
 		if err := s.BindISCSISession(conn); err != nil {
-- 
2.43.0


From 8dd106dbeafe963463c258eb3364e159abf6390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 54/63] fix: adding a remote storage device does not deadlock
 on the LUN map

---
 pkg/scsi/scsilumap.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 6c9bf92..164d0fc 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -91,17 +91,25 @@ func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 }
 
 func AddBackendStorage(bs config.BackendStorage) error {
-	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
+	globalSCSILUMap.mutex.RLock()
 	_, ok := globalSCSILUMap.AllDevices[bs.DeviceID]
+	globalSCSILUMap.mutex.RUnlock()
 	if ok {
 		return fmt.Errorf("device %q already exists", bs.DeviceID)
 	}
 
+	// without the lock: a remote backing store is looked up under it
 	lu, err := NewSCSILu(&bs)
 	if err != nil {
 		return fmt.Errorf("Init SCSI LU map error: %v", err)
 	}
+
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
+	if _, ok = globalSCSILUMap.AllDevices[bs.DeviceID]; ok {
+		lu.Storage.Close(lu)
+		return fmt.Errorf("device %q already exists", bs.DeviceID)
+	}
 	globalSCSILUMap.AllDevices[bs.DeviceID] = lu
 	return nil
 }
-- 
2.43.0


From 0f624072e981b640b9b8719afaaf46c2b766e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 55/63] fix: a new target is added to the list under its lock

---
 pkg/scsi/target.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..0e7e53c 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -38,7 +38,9 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
+	s.mutex.Lock()
 	s.Targets = append(s.Targets, target)
+	s.mutex.Unlock()
 	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
-- 
2.43.0


From 44bacf0d224fe02223b909cd727a31ae0c104fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 56/63] fix: padding is not stored as write data

---
 pkg/port/iscsit/iscsid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index f5bc882..bf783ac 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -396,6 +396,8 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 				conn.state = CONN_STATE_CLOSE
 				return
 			}
+			// the padding is not data
+			cmd.RawData = cmd.RawData[:cmd.DataLen]
 			final = true
 		default:
 			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
-- 
2.43.0


From 43b48fe21e2d343c1226610030e866c83207b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 57/63] fix: a Data-Out no task waits for is dropped instead of
 crashing the target

---
 pkg/port/iscsit/iscsid.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index bf783ac..92950a5 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -822,10 +822,12 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.session.PendingTasksMutex.RLock()
 		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
 		conn.session.PendingTasksMutex.RUnlock()
-		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+		if task == nil || task.r2tCount <= 0 {
+			// e.g. the task was aborted: nothing waits for this data
+			log.Errorf("Cannot find iSCSI task with tag[%v] that waits for data", conn.req.TaskTag)
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+			return nil
 		}
 		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 		task.offset += conn.req.DataLen
-- 
2.43.0


From 1dd858813cb1100bc7665a02c8cae370d471b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 58/63] fix: immediate data that was not agreed on does not
 count as received

---
 pkg/port/iscsit/iscsid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 92950a5..32a17a8 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -739,7 +739,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			break
 		}
 		if req.Write {
-			task.r2tCount = int(req.ExpectedDataLen) - req.DataLen
+			task.r2tCount = int(req.ExpectedDataLen)
 			task.expectedDataLength = int64(req.ExpectedDataLen)
 			if !req.Final {
 				task.unsolCount = 1
@@ -760,6 +760,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
 				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
 				task.offset += conn.req.DataLen
+				task.r2tCount -= conn.req.DataLen
 			}
 			if task.r2tCount > 0 {
 				// prepare to receive more data
-- 
2.43.0


From cf6b55eff0038531564a1e69b7780b8d1102712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 59/63] fix: a write without unsolicited data is asked for its
 data

---
 pkg/port/iscsit/iscsid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 32a17a8..2c683e0 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -779,7 +779,9 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 				conn.session.PendingTasksMutex.Unlock()
 				s.iscsiExecPendingTasks(conn.session)
 				conn.rxTask = task
-				if conn.session.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value == 1 {
+				if req.Final || conn.session.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value == 1 {
+					// no data comes unsolicited
+					task.unsolCount = 0
 					iscsiExecR2T(conn)
 					break
 				} else {
-- 
2.43.0


From f3a94ee15f53607f82cdaf06c9cda0537f1b3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 60/63] fix: a write is executed once its last byte is there

---
 pkg/port/iscsit/iscsid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 2c683e0..14d0fef 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -837,7 +837,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		task.r2tCount = task.r2tCount - conn.req.DataLen
 		log.Debugf("Final: %v", conn.req.Final)
 		log.Debugf("r2tCount: %v", task.r2tCount)
-		if !conn.req.Final {
+		if !conn.req.Final && task.r2tCount > 0 {
 			log.Debugf("Not ready to exec the task")
 			conn.rxIOState = IOSTATE_RX_BHS
 			s.handler(DATAIN, conn)
-- 
2.43.0


From 54d3c4b2491e2ab34fee45f9e67a9151aec77f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 61/63] fix: a connection goes on after a request that gets no
 response

---
 pkg/port/iscsit/iscsid.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 14d0fef..293e9a6 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -410,7 +410,11 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	}
 
 	if conn.state == CONN_STATE_SCSI {
-		s.scsiCommandHandler(conn)
+		if err := s.scsiCommandHandler(conn); err != nil {
+			// there is no response, but the connection goes on
+			conn.rxIOState = IOSTATE_RX_BHS
+			s.handler(DATAIN, conn)
+		}
 	} else {
 		conn.txIOState = IOSTATE_TX_BHS
 		conn.resp = &ISCSICommand{}
-- 
2.43.0


From caa0b087037a4bdca8d95dab25c72976efa6cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 62/63] fix: a connection goes on after a write that is kept
 pending

---
 pkg/port/iscsit/iscsid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 293e9a6..d6d68de 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -805,6 +805,7 @@ func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error
 		conn.rxTask = task
 		if err = s.iscsiTaskQueueHandler(task); err != nil {
 			if task.state == taskPending {
+				conn.rxIOState = IOSTATE_RX_BHS
 				s.handler(DATAIN, conn)
 				err = nil
 			}
-- 
2.43.0


From c4662a8007ca6e8158bb749dacca9ae32c38e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 63/63] fix: a connection that cannot be written to is closed

---
 pkg/port/iscsit/iscsid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index d6d68de..53cdd4a 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -644,6 +644,7 @@ SendRemainingData:
 			}
 			if l, err := conn.write(resp.Bytes()); err != nil {
 				log.Errorf("failed to write data to client: %v", err)
+				conn.state = CONN_STATE_CLOSE
 				return
 			} else {
 				conn.txIOState = IOSTATE_TX_INIT_AHS
-- 
2.43.0

