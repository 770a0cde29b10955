package scsi

import "github.com/gostor/gotgt/pkg/api"

// vWriteCacheOff: no caching mode page says that the write cache is enabled.
func vWriteCacheOff(lu *api.SCSILu) bool {
	return vForall(0, len(lu.ModePages), func(i int) bool {
		p := lu.ModePages[i]
		return p.PageCode != 0x08 || p.SubPageCode != 0 || p.Data[0]&0x04 == 0
	})
}

// vForced: the CDB asks for the data to reach the medium (FUA).
func vForced(scb []byte) bool {
	return (scb[0] == 0x2a || scb[0] == 0xaa || scb[0] == 0x8a || scb[0] == 0x8b) && scb[1]&0x08 != 0
}

func contract_C05_write(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(vIsWrite(op) || vIsWriteVerify(op) || op == 0x8b)
	vSplit(op == 0x0a, vIsWrite(op), op == 0x8b)
	forced, off := vForced(vSnap(cmd.SCB)), vWriteCacheOff(lu)
	r := SBCReadWrite(0, cmd)
	if r.Stat == api.SAM_STAT_GOOD {
		vEnsures("WRITE.FUA: GOOD only after a flush that followed the data", !forced || !st.dirty && st.synced)
		vEnsures("WRITE.write cache off: GOOD only after a flush that followed the data", !off || !st.dirty && st.synced)
	}
}

func contract_C05_SBCSyncCache(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(cmd.SCB[0] == 0x35 || cmd.SCB[0] == 0x91)
	st.dirty = true
	r := SBCSyncCache(0, cmd)
	if r.Stat == api.SAM_STAT_GOOD {
		vEnsures("SYNCHRONIZE CACHE.GOOD only after a flush", !st.dirty && st.synced && st.syncs > 0)
	}
}
