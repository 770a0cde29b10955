package scsi

import "github.com/gostor/gotgt/pkg/api"

func contract_C03_SBCReadWrite(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(vIsRead(op) || vIsWrite(op) || vIsWriteVerify(op) || vIsPreFetch(op) || op == 0x8b)
	vSplit(vIsRead(op), op == 0x0a, vIsWrite(op), vIsWriteVerify(op), vIsPreFetch(op))
	c03Range("SBCReadWrite", SBCReadWrite, cmd, lu, st)
}

func contract_C03_SBCVerify(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(vIsVerify(op))
	c03Range("SBCVerify", SBCVerify, cmd, lu, st)
}

func c03Range(name string, f api.CommandFunc, cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	scb := vSnap(cmd.SCB)
	lba, n, size := vLBA(scb), vBlocks(scb), lu.Size>>lu.BlockShift
	in := vInside(lba, n, size)
	if in {
		st.lo, st.hi = int64(lba<<lu.BlockShift), int64((lba+n)<<lu.BlockShift)
	}
	r := f(0, cmd)
	if !in {
		vEnsures(name+".out of range ends in CHECK CONDITION", r.Stat == api.SAM_STAT_CHECK_CONDITION)
		vEnsures(name+".out of range: LBA OUT OF RANGE", vRefused(scb, lu) || vSense(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE))
		vEnsures(name+".out of range touches nothing", st.untouched())
	} else {
		vEnsures(name+".nothing outside the addressed blocks", !st.outside)
		vEnsures(name+".starts at the addressed block", !st.astray)
	}
}

func contract_C03_SBCUnmap(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	n := uint64(len(st.med))
	vInvariant("collected ranges lie inside the logical unit", func(d []api.UnmapBlockDescriptor) bool {
		return vForall(0, len(d), func(i int) bool { return d[i].Offset <= n && uint64(d[i].TL) <= n-d[i].Offset })
	})
	SBCUnmap(0, cmd)
	vEnsures("SBCUnmap.unmaps nothing outside the logical unit", !st.outside)
}
