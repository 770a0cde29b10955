package util

import (
	"errors"
	"os"
	"syscall"
)

func contract_C05_Fdatasync(f *os.File) {
	vRequires(f != nil)
	fd := vAny[int]("fd")
	vRequires(fd >= 0)
	done, other := false, false
	vStub((*os.File).Fd, func(g *os.File) uintptr {
		if g != f {
			other = true
			return 0
		}
		return uintptr(fd)
	})
	flush := func(n int) error {
		if n != fd || vAny[bool]("sync fails") {
			return errors.New("sync")
		}
		done = true
		return nil
	}
	vStub(syscall.Fdatasync, flush)
	vStub(syscall.Fsync, flush)
	err := Fdatasync(f)
	vEnsures("Fdatasync.success means that the file was flushed", err != nil || done && !other)
}
