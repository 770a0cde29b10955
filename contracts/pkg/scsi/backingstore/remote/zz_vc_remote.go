package remote

import (
	"errors"
	"io"
)

// vRemote is the assumed contract of a remote backing store.
type vRemote struct {
	data  []byte
	wErr  bool
	calls int
	syncs int
}

func (m *vRemote) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 || vAny[bool]("read fails") {
		return vAny[int]("bytes read before failing"), errors.New("read")
	}
	n := 0
	if off < int64(len(m.data)) {
		n = copy(b, m.data[off:]) // may be short, with or without an error
	}
	if n < len(b) && vAny[bool]("a short read is the end of the file") {
		return n, io.EOF
	}
	return n, nil
}

func (m *vRemote) WriteAt(b []byte, off int64) (int, error) {
	m.calls++
	if off < 0 || off > int64(len(m.data)) || vAny[bool]("write fails") {
		m.wErr = true
		return vAny[int]("bytes written before failing"), errors.New("write")
	}
	return copy(m.data[off:], b), nil // may be short
}

func (m *vRemote) Sync() (int, error) {
	m.syncs++
	if vAny[bool]("sync fails") {
		m.wErr = true
		return vAny[int]("sync result"), errors.New("sync")
	}
	return vAny[int]("sync result"), nil
}

func (m *vRemote) Unmap(off, length int64) (int, error) { return 0, nil }

func vRemoteStore(bs *RemBackingStore, m *vRemote) bool {
	if bs == nil || m == nil {
		return false
	}
	bs.RemBs = m
	m.calls, m.syncs, m.wErr = 0, 0, false
	return true
}

func contract_C04_RemoteRead(bs *RemBackingStore, m *vRemote, off, tl int64) {
	vRequires(vRemoteStore(bs, m))
	vRequires(off >= 0 && tl >= 0 && tl <= 1<<32)
	data := vSnap(m.data)
	b, err := bs.Read(off, tl)
	if err == nil {
		vEnsures("remote Read.returns all the bytes asked for", int64(len(b)) == tl)
		vEnsures("remote Read.which lie in the store", tl == 0 || off <= int64(len(data)) && tl <= int64(len(data))-off)
		vEnsures("remote Read.returns the stored bytes", vForall(0, len(b), func(i int) bool { return b[i] == data[int(off)+i] }))
	}
	vEnsures("remote Read.changes nothing", vBytesEq(m.data, data) && m.calls == 0)
}

func contract_C04_RemoteWrite(bs *RemBackingStore, m *vRemote, buf []byte, off int64) {
	vRequires(vRemoteStore(bs, m) && vSep(buf, m.data))
	vRequires(off >= 0)
	data := vSnap(m.data)
	err := bs.Write(buf, off)
	if err == nil {
		vEnsures("remote Write.success means every write succeeded", !m.wErr && m.calls > 0)
		vEnsures("remote Write.lies in the store", off <= int64(len(data)) && int64(len(buf)) <= int64(len(data))-off)
		lo := int(off)
		vEnsures("remote Write.puts the bytes where they belong", vForall(0, len(buf), func(i int) bool { return m.data[lo+i] == buf[i] }))
		vEnsures("remote Write.leaves what is before", vForall(0, lo, func(i int) bool { return m.data[i] == data[i] }))
		vEnsures("remote Write.leaves what is after", vForall(lo+len(buf), len(data), func(i int) bool { return m.data[i] == data[i] }))
	}
}

func contract_C05_RemoteDataSync(bs *RemBackingStore, m *vRemote, off, tl int64) {
	vRequires(vRemoteStore(bs, m))
	err := bs.DataSync(off, tl)
	vEnsures("remote DataSync.success means that the store was flushed", err != nil || m.syncs > 0 && !m.wErr)
}
