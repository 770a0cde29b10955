exec(open('/verif/tools/seedgen/mk.py').read())
want=set(sys.argv[1:])
_seed=seed
def seed(id,*a):
    if not want or id in want: _seed(id,*a)
seed('C01-data-out-offset','C01',[('pkg/port/iscsit/cmd.go','m.BufferOffset = uint32(ParseUint(data[40:44]))','m.BufferOffset = uint32(ParseUint(data[41:44]))')],
 'pkg/port/iscsit','a Data-Out PDU whose buffer offset is 16 MiB or more','the buffer offset of a Data-Out loses its top byte','''
package iscsit

import "testing"

func TestZZDemo(t *testing.T) {
	h := make([]byte, 48)
	h[0], h[1] = 0x05, 0x80
	h[40], h[43] = 0x02, 0x10
	m, err := parseHeader(h)
	if err != nil || m.BufferOffset != 0x02000010 {
		t.Fatalf("%v %v", m, err)
	}
}
''')
seed('C02-sense-length','C02',[('pkg/port/iscsit/cmd.go','''	buf.WriteByte(byte(m.Status))

	buf.WriteByte(0x00)
	buf.Write(util.MarshalUint64(uint64(len(m.RawData)))[5:]) // 5-8''','''	buf.WriteByte(byte(m.Status))

	buf.WriteByte(0x00)
	buf.Write(util.MarshalUint64(uint64(len(m.RawData)+3) &^ 3)[5:]) // 5-8''')],
 'pkg/port/iscsit','a SCSI response whose sense data is not a multiple of four bytes long (descriptor format)','the data segment length of a SCSI response counts the padding','''
package iscsit

import "testing"

func TestZZDemo(t *testing.T) {
	m := &ISCSICommand{OpCode: OpSCSIResp, RawData: make([]byte, 10)}
	b := m.Bytes()
	if len(b) != 60 || b[5] != 0 || b[6] != 0 || b[7] != 10 {
		t.Fatalf("%d %v", len(b), b[:48])
	}
}
''')
seed('C03-shift-overflow','C03',[('pkg/scsi/sbc.go','''			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)''','''			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)'''),
 ('pkg/scsi/sbc.go','''		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense data(''','''		if lba+uint64(tl) < lba || (lba+uint64(tl))<<dev.BlockShift > dev.Size {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense data(''')],
 'pkg/scsi','READ(16) or WRITE(16) at a block address of 2^55 or more, so that the byte address overflows','blocks far beyond the end of the logical unit are accepted and wrap to its start',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	c := demoCmd(demoLU(st, 1<<20), 0, 512, 0x8a, 0, 0, 0x80, 0, 0, 0, 0, 0, 2, 0, 0, 0, 1)
	r := SBCReadWrite(0, c)
	if r == api.SAMStatGood || len(st.writes) != 0 {
		t.Fatalf("%v: writes at %v", r, st.writes)
	}
}
''')
seed('C04-read6-lba','C04',[('pkg/scsi/scsi.go','uint64((scb[1]&0x1f))<<16','uint64((scb[1]&0x0f))<<16')],
 'pkg/scsi','READ(6) or WRITE(6) at block 2^20 or beyond','the top bit of the 21-bit address is dropped: another block is read or written',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	c := demoCmd(demoLU(st, 1<<32), 512, 0, 0x08, 0x12, 0, 1, 1)
	r := SBCReadWrite(0, c)
	if r != api.SAMStatGood || fmt.Sprint(st.reads) != fmt.Sprintf("[%d+512]", 0x120001*512) {
		t.Fatalf("%v: reads %v", r, st.reads)
	}
}
''')
seed('C04-truncated-file','C04',[('pkg/scsi/backingstore/common.go','''	if err != nil {
		return nil, err
	}
	if length != len(tmpbuf) {
		return nil, fmt.Errorf("read is not same length of length")
	}
	return tmpbuf, nil''','''	if err != nil && err != io.EOF {
		return nil, err
	}
	if length != len(tmpbuf) && err == nil {
		return nil, fmt.Errorf("read is not same length of length")
	}
	return tmpbuf, nil''')],
 'pkg/scsi/backingstore','the backing file has become shorter than the logical unit, and a read reaches beyond its end','the read ends in GOOD with zeros the store does not hold','''
package backingstore

import (
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f, err := os.Create(t.TempDir() + "/lu")
	if err != nil {
		t.Skip(err)
	}
	defer f.Close()
	f.Write(make([]byte, 700))
	bs := &FileBackingStore{file: f}
	if b, err := bs.Read(512, 512); err == nil {
		t.Fatalf("read %d bytes beyond the end of the file", len(b))
	}
	if _, err := bs.Read(0, 512); err != nil {
		t.Fatal(err)
	}
}
''')
seed('C05-sync-cache-16','C05',[('pkg/scsi/backingstore.go','	case api.SYNCHRONIZE_CACHE, api.SYNCHRONIZE_CACHE_16:\n','	case api.SYNCHRONIZE_CACHE:\n')],
 'pkg/scsi','SYNCHRONIZE CACHE(16); the loss shows only after a power failure','it ends in GOOD without any flush',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	for _, op := range []byte{0x35, 0x91} {
		st := &demoStore{}
		r := SBCSyncCache(0, demoCmd(demoLU(st, 1<<20), 0, 0, op))
		if r == api.SAMStatGood && len(st.syncs) == 0 {
			t.Fatalf("%x: GOOD without a flush", op)
		}
	}
}
''')
seed('C05-flush-once','C05',[('pkg/scsi/backingstore/common.go','''	scsi.BaseBackingStore
	file *os.File
}''','''	scsi.BaseBackingStore
	file  *os.File
	clean bool
}'''),('pkg/scsi/backingstore/common.go','''	return util.Fdatasync(bs.file)''','''	if bs.clean {
		// nothing was written since the last flush
		return nil
	}
	bs.clean = true
	return util.Fdatasync(bs.file)'''),('pkg/scsi/backingstore/common.go','''func (bs *FileBackingStore) Write(wbuf []byte, offset int64) error {
''','''func (bs *FileBackingStore) Write(wbuf []byte, offset int64) error {
	bs.clean = false
''')],
 'pkg/scsi/backingstore','a write, a flush that fails, and a second flush','the second flush answers success although nothing reached stable storage','''
package backingstore

import (
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f, err := os.Create(t.TempDir() + "/lu")
	if err != nil {
		t.Skip(err)
	}
	bs := &FileBackingStore{file: f}
	if err := bs.Write(make([]byte, 512), 0); err != nil {
		t.Fatal(err)
	}
	f.Close() // every flush fails from here on
	for i := 0; i < 3; i++ {
		if err := bs.DataSync(0, 512); err == nil {
			t.Fatalf("flush %d of a closed file succeeded", i)
		}
	}
}
''')
seed('C06-descriptor-asc','C06',[('pkg/scsi/scsi.go','''		senseBuffer.WriteByte(0x72)
		senseBuffer.WriteByte(key)
		senseBuffer.WriteByte(byte(asc>>8) & 0xff)''','''		senseBuffer.WriteByte(0x72)
		senseBuffer.WriteByte(key)
		senseBuffer.WriteByte(byte(asc) >> 8)''')],
 'pkg/scsi','a logical unit configured for descriptor format sense data','the additional sense code is always zero',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	lu := demoLU(&demoStore{}, 1<<20)
	lu.Attrs.SenseFormat = true
	c := demoCmd(lu, 0, 0, 0)
	BuildSenseData(c, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
	if b := c.SenseBuffer.Buffer; b[0] != 0x72 || b[1] != 5 || b[2] != 0x21 || b[3] != 0 {
		t.Fatalf("% x", b)
	}
}
''')
seed('C09-orwrite','C09',[('pkg/scsi/sbc.go','''		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.ORWRITE_16,
			api.WRITE_VERIFY, api.WRITE_VERIFY_12,''','''		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16,
			api.WRITE_VERIFY, api.WRITE_VERIFY_12,''')],
 'pkg/scsi','ORWRITE(16) to a write protected logical unit','the protected medium is modified',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	lu := demoLU(st, 1<<20)
	lu.Attrs.Readonly = true
	c := demoCmd(lu, 0, 512, 0x8b, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 1)
	r := SBCReadWrite(0, c)
	if r == api.SAMStatGood || len(st.writes) != 0 {
		t.Fatalf("%v: writes at %v", r, st.writes)
	}
}
''')
seed('C13-first-free-hint','C13',[('pkg/port/iscsit/iscsid.go','	for i = uint16(0); i < ISCSI_MAX_TSIH; i++ {','	// the handles below the size of the pool are in use\n	for i = uint16(len(s.TSIHPool) - 1); i < ISCSI_MAX_TSIH; i++ {')],
 'pkg/port/iscsit','sessions on all handles above a free one','no handle is given out although one is free','''
package iscsit

import "testing"

func TestZZDemo(t *testing.T) {
	s := &ISCSITargetDriver{TSIHPool: map[uint16]bool{0: true, 65535: true}}
	for i := 0; i < 65534; i++ {
		if h := s.AllocTSIH(); h == 0 || h == 65535 {
			t.Fatalf("allocation %d gave %d", i, h)
		}
	}
	s.ReleaseTSIH(7)
	if h := s.AllocTSIH(); h != 7 {
		t.Fatalf("handle 7 is free, got %d", h)
	}
}
''')
seed('C21-swap-remove','C21',[('pkg/port/iscsit/session.go','			*tq = append(old[:i], old[i+1:]...)','			old[i] = old[len(old)-1]\n			*tq = old[:len(old)-1]')],
 'pkg/port/iscsit','a task is removed from the middle of three or more pending tasks','the other pending tasks change their order','''
package iscsit

import "testing"

func TestZZDemo(t *testing.T) {
	var q taskQueue
	for i := uint32(1); i < 6; i++ {
		q.Push(&iscsiTask{tag: i})
	}
	if x := q.RemoveByTag(2); x == nil || x.tag != 2 {
		t.Fatal(x)
	}
	for i, want := range []uint32{1, 3, 4, 5} {
		if len(q) != 4 || q[i].tag != want {
			t.Fatalf("task %d is %d of %d", i, q[i].tag, len(q))
		}
	}
}
''')
