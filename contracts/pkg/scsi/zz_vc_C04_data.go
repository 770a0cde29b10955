package scsi

import "github.com/gostor/gotgt/pkg/api"

func contract_C04_read(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(vIsRead(cmd.SCB[0]))
	vSplit(cmd.SCB[0] == 0x08, cmd.SCB[0] == 0x28, cmd.SCB[0] == 0xa8)
	scb, med := vSnap(cmd.SCB), vSnap(st.med)
	lba, n := vLBA(scb), vBlocks(scb)
	r := SBCReadWrite(0, cmd)
	vEnsures("READ.changes nothing in the store", vBytesEq(st.med, med))
	if r.Stat == api.SAM_STAT_GOOD {
		lo := int(lba << lu.BlockShift)
		tl := uint32(n) << lu.BlockShift
		hi := lo + int(tl)
		vEnsures("READ.GOOD only if one command can transfer that much", uint64(tl) == n<<lu.BlockShift)
		vEnsures("READ.GOOD only for blocks of the logical unit", 0 <= lo && lo <= hi && hi <= len(med))
		got := vReturned(cmd)
		vEnsures("READ.returns as many bytes as addressed", len(got) == hi-lo)
		vEnsures("READ.returns the stored bytes", vForall(0, len(got), func(i int) bool { return got[i] == med[lo+i] }))
	}
}

func contract_C04_write(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(vIsWrite(op) || vIsWriteVerify(op))
	vSplit(op == 0x0a, vIsWrite(op), op == 0x2e, op == 0x8e)
	scb, med, out := vSnap(cmd.SCB), vSnap(st.med), vSnap(cmd.OutSDBBuffer.Buffer)
	lba, n := vLBA(scb), vBlocks(scb)
	r := SBCReadWrite(0, cmd)
	vEnsures("WRITE.the medium keeps its size", len(st.med) == len(med))
	if r.Stat == api.SAM_STAT_GOOD {
		lo := int(lba << lu.BlockShift)
		tl := uint32(n) << lu.BlockShift
		hi := lo + int(tl)
		vEnsures("WRITE.GOOD only if one command can transfer that much", uint64(tl) == n<<lu.BlockShift)
		vEnsures("WRITE.GOOD only for blocks of the logical unit", 0 <= lo && lo <= hi && hi <= len(med))
		vEnsures("WRITE.the addressed bytes are the data sent", vForall(0, hi-lo, func(k int) bool { return k >= len(out) || st.med[lo+k] == out[k] }))
		vEnsures("WRITE.no byte before them has changed", vForall(0, lo, func(i int) bool { return st.med[i] == med[i] }))
		end := hi
		if len(out) < hi-lo {
			end = lo + len(out)
		}
		vEnsures("WRITE.no byte after them has changed", vForall(end, len(med), func(i int) bool { return st.med[i] == med[i] }))
		vEnsures("WRITE AND VERIFY.GOOD means all data was there", vIsWrite(op) || len(out) >= hi-lo)
	}
}

func contract_C04_orwrite(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(cmd.SCB[0] == 0x8b)
	scb, med, out := vSnap(cmd.SCB), vSnap(st.med), vSnap(cmd.OutSDBBuffer.Buffer)
	lba, n := vLBA(scb), vBlocks(scb)
	lo := int(lba << lu.BlockShift)
	tl := uint32(n) << lu.BlockShift
	hi := lo + int(tl)
	vInvariant("ored so far", func(i int, w, old []byte) bool {
		return vForall(0, len(w), func(k int) bool {
			if k < i && k < len(old) {
				return w[k] == out[k]|old[k]
			}
			return w[k] == out[k]
		})
	})
	r := SBCReadWrite(0, cmd)
	if r.Stat == api.SAM_STAT_GOOD {
		vEnsures("ORWRITE.GOOD only if one command can transfer that much", uint64(tl) == n<<lu.BlockShift)
		vEnsures("ORWRITE.GOOD only for blocks of the logical unit", 0 <= lo && lo <= hi && hi <= len(med))
		vEnsures("ORWRITE.the addressed bytes are the old ones ored with the data sent", vForall(0, hi-lo, func(k int) bool {
			return k >= len(out) || st.med[lo+k] == out[k]|med[lo+k]
		}))
		vEnsures("ORWRITE.no byte before them has changed", vForall(0, lo, func(i int) bool { return st.med[i] == med[i] }))
		end := hi
		if len(out) < hi-lo {
			end = lo + len(out)
		}
		vEnsures("ORWRITE.no byte after them has changed", vForall(end, len(med), func(i int) bool { return st.med[i] == med[i] }))
	}
}

func contract_C04_verify(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(vIsVerify(cmd.SCB[0]))
	vSplit(cmd.SCB[0] == 0x2f, cmd.SCB[0] == 0xaf)
	scb, med, out := vSnap(cmd.SCB), vSnap(st.med), vSnap(cmd.OutSDBBuffer.Buffer)
	lba, n := vLBA(scb), vBlocks(scb)
	r := SBCVerify(0, cmd)
	vEnsures("VERIFY.changes nothing in the store", vBytesEq(st.med, med))
	if r.Stat == api.SAM_STAT_GOOD && scb[1]&0x02 != 0 {
		lo := int(lba << lu.BlockShift)
		tl := uint32(n) << lu.BlockShift
		hi := lo + int(tl)
		vEnsures("VERIFY.GOOD only if one command can transfer that much", uint64(tl) == n<<lu.BlockShift)
		vEnsures("VERIFY.GOOD only for blocks of the logical unit", 0 <= lo && lo <= hi && hi <= len(med))
		vEnsures("VERIFY.GOOD only with all the data", len(out) == hi-lo)
		vEnsures("VERIFY.GOOD only if the stored bytes equal the data", vForall(0, hi-lo, func(k int) bool { return med[lo+k] == out[k] }))
	}
}
