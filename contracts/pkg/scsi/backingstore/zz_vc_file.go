package backingstore

import (
	"errors"
	"io"
	"os"

	"github.com/gostor/gotgt/pkg/util"
)

// vFile is the assumed contract of an *os.File: its content and what was done to it.
type vFile struct {
	f      *os.File
	data   []byte
	reads  int
	writes int
	wOff   int64
	wLen   int
	wErr   bool
	syncs  int
	other  bool // another file was used
}

func (m *vFile) stub() {
	vStub((*os.File).ReadAt, func(f *os.File, b []byte, off int64) (int, error) {
		m.reads++
		m.other = m.other || f != m.f
		if off < 0 || vAny[bool]("read fails") {
			return vAny[int]("bytes read before failing"), errors.New("read")
		}
		if off >= int64(len(m.data)) {
			if len(b) == 0 {
				return 0, nil
			}
			return 0, io.EOF
		}
		n := copy(b, m.data[off:])
		if n < len(b) {
			return n, io.EOF
		}
		return n, nil
	})
	vStub((*os.File).WriteAt, func(f *os.File, b []byte, off int64) (int, error) {
		m.writes++
		m.other = m.other || f != m.f
		m.wOff, m.wLen = off, len(b)
		if off < 0 || off > int64(len(m.data)) || int64(len(b)) > int64(len(m.data))-off || vAny[bool]("write fails") {
			m.wErr = true
			return vAny[int]("bytes written before failing"), errors.New("write")
		}
		return copy(m.data[off:], b), nil
	})
	vStub(util.Fdatasync, func(f *os.File) error {
		m.syncs++
		m.other = m.other || f != m.f
		if vAny[bool]("sync fails") {
			m.wErr = true
			return errors.New("sync")
		}
		return nil
	})
}

func vFileStore(bs *FileBackingStore, m *vFile) bool {
	if bs == nil || m == nil || m.f == nil {
		return false
	}
	bs.file = m.f
	m.reads, m.writes, m.syncs, m.wErr, m.other = 0, 0, 0, false, false
	return true
}

func contract_C04_FileRead(bs *FileBackingStore, m *vFile, off, tl int64) {
	vRequires(vFileStore(bs, m))
	vRequires(off >= 0 && tl >= 0 && tl <= 1<<32)
	m.stub()
	data := vSnap(m.data)
	b, err := bs.Read(off, tl)
	if err == nil {
		vEnsures("file Read.returns all the bytes asked for", int64(len(b)) == tl)
		vEnsures("file Read.which lie in the file", tl == 0 || off <= int64(len(data)) && tl <= int64(len(data))-off)
		vEnsures("file Read.returns the bytes of the file", vForall(0, len(b), func(i int) bool { return b[i] == data[int(off)+i] }))
	}
	vEnsures("file Read.changes nothing", vBytesEq(m.data, data) && m.writes == 0)
	vEnsures("file Read.uses the file of the store", !m.other)
}

func contract_C04_FileWrite(bs *FileBackingStore, m *vFile, buf []byte, off int64) {
	vRequires(vFileStore(bs, m) && vSep(buf, m.data))
	vRequires(off >= 0)
	m.stub()
	data := vSnap(m.data)
	err := bs.Write(buf, off)
	if err == nil {
		vEnsures("file Write.success means every write succeeded", !m.wErr && m.writes > 0)
		vEnsures("file Write.lies in the file", off <= int64(len(data)) && int64(len(buf)) <= int64(len(data))-off)
		lo := int(off)
		vEnsures("file Write.puts the bytes where they belong", vForall(0, len(buf), func(i int) bool { return m.data[lo+i] == buf[i] }))
		vEnsures("file Write.leaves what is before", vForall(0, lo, func(i int) bool { return m.data[i] == data[i] }))
		vEnsures("file Write.leaves what is after", vForall(lo+len(buf), len(data), func(i int) bool { return m.data[i] == data[i] }))
	}
	vEnsures("file Write.uses the file of the store", !m.other)
}

func contract_C05_FileDataSync(bs *FileBackingStore, m *vFile, off, tl int64) {
	vRequires(vFileStore(bs, m))
	m.stub()
	err := bs.DataSync(off, tl)
	vEnsures("file DataSync.success means that the file was flushed", err != nil || m.syncs > 0 && !m.wErr)
	vEnsures("file DataSync.uses the file of the store", !m.other)
}
