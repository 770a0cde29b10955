package scsi

import (
	"errors"

	"github.com/gostor/gotgt/pkg/api"
)

// vStore is a backing store over a medium held in memory that records what is done to it and may fail at
// any operation. It is the assumed contract of api.BackingStore: a successful Read returns the bytes asked for,
// a successful Write changes exactly the bytes it is given, a failed one leaves what it was to write undefined.
type vStore struct {
	med     []byte // the medium
	lo, hi  int64  // the byte range the command may touch
	outside bool   // something else was touched
	astray  bool   // an access did not start at lo

	reads, writes, syncs, advises, unmaps int

	failed     bool // a read, write, flush or unmap failed
	notAdvised bool // an advise failed
	dirty      bool // data was written after the last successful flush
	synced     bool // a flush succeeded
}

func vStoreError() error { return errors.New("store operation failed") }

func (s *vStore) touch(off, n int64) {
	if off < s.lo || n < 0 || off > s.hi || n > s.hi-off {
		s.outside = true
	}
	if off != s.lo {
		s.astray = true
	}
}

func (s *vStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *vStore) Close(dev *api.SCSILu) error             { return nil }
func (s *vStore) Init(dev *api.SCSILu, Opts string) error { return nil }
func (s *vStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *vStore) Size(dev *api.SCSILu) uint64             { return uint64(len(s.med)) }

func (s *vStore) Read(off, tl int64) ([]byte, error) {
	s.reads++
	s.touch(off, tl)
	if s.outside || vAny[bool]("read fails") {
		s.failed = true
		return nil, vStoreError()
	}
	b := make([]byte, tl)
	copy(b, s.med[off:off+tl])
	return b, nil
}

func (s *vStore) Write(b []byte, off int64) error {
	s.writes++
	s.touch(off, int64(len(b)))
	if s.outside || vAny[bool]("write fails") {
		s.failed = true
		return vStoreError()
	}
	copy(s.med[off:], b)
	s.dirty = true
	return nil
}

func (s *vStore) DataSync(off, tl int64) error {
	s.syncs++
	if vAny[bool]("sync fails") {
		s.failed = true
		return vStoreError()
	}
	s.dirty = false
	s.synced = true
	return nil
}

func (s *vStore) DataAdvise(off, n int64, advise uint32) error {
	s.advises++
	s.touch(off, n)
	if vAny[bool]("advise fails") {
		s.notAdvised = true
		return vStoreError()
	}
	return nil
}

func (s *vStore) Unmap(d []api.UnmapBlockDescriptor) error {
	s.unmaps++
	if !vForall(0, len(d), func(i int) bool { return s.inside(d[i]) }) {
		s.outside = true
	}
	if vAny[bool]("unmap fails") {
		s.failed = true
		return vStoreError()
	}
	return nil
}

func (s *vStore) inside(d api.UnmapBlockDescriptor) bool {
	n := uint64(len(s.med))
	return d.Offset <= n && uint64(d.TL) <= n-d.Offset
}

func (s *vStore) untouched() bool {
	return s.reads == 0 && s.writes == 0 && s.syncs == 0 && s.advises == 0 && s.unmaps == 0
}

// vLU: a logical unit over the store st, whose size is that of the medium.
func vLU(lu *api.SCSILu, st *vStore) bool {
	if lu == nil || st == nil {
		return false
	}
	st.lo, st.hi = 0, int64(len(st.med))
	st.outside, st.astray, st.failed, st.notAdvised, st.dirty, st.synced = false, false, false, false, false, false
	st.reads, st.writes, st.syncs, st.advises, st.unmaps = 0, 0, 0, 0, 0
	lu.Storage = st
	lu.Size = uint64(len(st.med))
	return lu.BlockShift >= 9 && lu.BlockShift <= 16 && vForall(0, len(lu.ModePages), func(i int) bool {
		return len(lu.ModePages[i].Data) >= int(lu.ModePages[i].Size) && lu.ModePages[i].Size > 0
	})
}

// vCmd: a command as the iSCSI layer and AddCommandQueue hand it to the operations.
func vCmd(cmd *api.SCSICommand, lu *api.SCSILu) bool {
	if cmd == nil || cmd.InSDBBuffer == nil || cmd.OutSDBBuffer == nil || len(cmd.SCB) != 16 {
		return false
	}
	cmd.Device = lu
	return uint64(len(cmd.InSDBBuffer.Buffer)) == uint64(cmd.InSDBBuffer.Length) &&
		uint64(len(cmd.OutSDBBuffer.Buffer)) == uint64(cmd.OutSDBBuffer.Length)
}

// vApart: the buffers of a command, the medium and the mode pages do not overlap.
func vApart(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) bool {
	scb, in, out, med := cmd.SCB, cmd.InSDBBuffer.Buffer, cmd.OutSDBBuffer.Buffer, st.med
	return vSep(scb, in) && vSep(scb, out) && vSep(scb, med) && vSep(in, out) && vSep(in, med) && vSep(out, med) &&
		cmd.InSDBBuffer != cmd.OutSDBBuffer &&
		vForall(0, len(lu.ModePages), func(i int) bool {
			d := lu.ModePages[i].Data
			return vSep(d, scb) && vSep(d, in) && vSep(d, out) && vSep(d, med)
		})
}

// vRefused: an SBC read, write or verify command that is refused whatever blocks it addresses.
func vRefused(scb []byte, lu *api.SCSILu) bool {
	if lu.Attrs.Removable && !lu.Attrs.Online {
		return true
	}
	if scb[0]>>5 != 0 && !vIsPreFetch(scb[0]) && scb[1]&0xe0 != 0 {
		return true
	}
	return (lu.Attrs.Readonly || lu.Attrs.SWP) && !vIsRead(scb[0]) && !vIsVerify(scb[0])
}

// vReturned is the data that goes to the initiator (see buildRespPackage in the iSCSI layer).
func vReturned(cmd *api.SCSICommand) []byte {
	b := cmd.InSDBBuffer
	if b.Resid != 0 && b.Resid < b.Length {
		return b.Buffer[:b.Resid]
	}
	return b.Buffer
}

func vSense(cmd *api.SCSICommand, key byte, asc SCSISubError) bool {
	if cmd.SenseBuffer == nil {
		return false
	}
	s := cmd.SenseBuffer.Buffer
	if int(cmd.SenseBuffer.Length) != len(s) {
		return false
	}
	if cmd.Device != nil && cmd.Device.Attrs.SenseFormat {
		return len(s) == 8 && s[0] == 0x72 && s[1] == key && s[2] == byte(asc>>8) && s[3] == byte(asc) &&
			s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0
	}
	return len(s) == 18 && s[0] == 0x70 && s[1] == 0 && s[2] == key && s[7] == 10 && s[12] == byte(asc>>8) && s[13] == byte(asc)
}

// The fields of a read or write CDB, as SBC places them.

func vIsRead(op byte) bool {
	return op == 0x08 || op == 0x28 || op == 0xa8 || op == 0x88
}

func vIsWrite(op byte) bool {
	return op == 0x0a || op == 0x2a || op == 0xaa || op == 0x8a
}

func vIsWriteVerify(op byte) bool {
	return op == 0x2e || op == 0xae || op == 0x8e
}

func vIsVerify(op byte) bool {
	return op == 0x2f || op == 0xaf || op == 0x8f
}

func vIsPreFetch(op byte) bool { return op == 0x34 || op == 0x90 }

func vBE(b []byte, from, n int) (r uint64) {
	switch n {
	case 1:
		return uint64(b[from])
	case 2:
		return uint64(b[from])<<8 | uint64(b[from+1])
	case 4:
		return uint64(b[from])<<24 | uint64(b[from+1])<<16 | uint64(b[from+2])<<8 | uint64(b[from+3])
	}
	return uint64(b[from])<<56 | uint64(b[from+1])<<48 | uint64(b[from+2])<<40 | uint64(b[from+3])<<32 |
		uint64(b[from+4])<<24 | uint64(b[from+5])<<16 | uint64(b[from+6])<<8 | uint64(b[from+7])
}

// vLBA and vBlocks: the block range a CDB addresses, by the group of its opcode.
func vLBA(scb []byte) uint64 {
	switch scb[0] >> 5 {
	case 0:
		return uint64(scb[1]&0x1f)<<16 | uint64(scb[2])<<8 | uint64(scb[3])
	case 4:
		return vBE(scb, 2, 8)
	}
	return vBE(scb, 2, 4)
}

func vBlocks(scb []byte) uint64 {
	switch scb[0] >> 5 {
	case 0:
		if scb[4] == 0 {
			return 256
		}
		return uint64(scb[4])
	case 4:
		return vBE(scb, 10, 4)
	case 5:
		return vBE(scb, 6, 4)
	}
	return vBE(scb, 7, 2)
}

// vInside: n blocks from lba lie in a logical unit of size blocks (no block: lba must still name one of them).
func vInside(lba, n, size uint64) bool {
	if n == 0 {
		return lba < size
	}
	return lba < size && n <= size-lba
}

func vPorts(t *api.SCSITarget) bool {
	return vForall(0, len(t.TargetPortGroups), func(i int) bool {
		g := t.TargetPortGroups[i]
		return g != nil && vForall(0, len(g.TargetPortGroup), func(j int) bool { return g.TargetPortGroup[j] != nil })
	})
}
