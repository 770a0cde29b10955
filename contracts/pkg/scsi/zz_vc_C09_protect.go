package scsi

import "github.com/gostor/gotgt/pkg/api"

func c09Kept(name string, cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, ro, swp bool) {
	vEnsures(name+".writes nothing", st.writes == 0 && st.unmaps == 0)
	vEnsures(name+".stays protected", lu.Attrs.Readonly == ro && lu.Attrs.SWP == swp)
}

func contract_C09_SBCReadWrite(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	ro, swp := lu.Attrs.Readonly, lu.Attrs.SWP
	vRequires(ro || swp)
	op := cmd.SCB[0]
	scb := vSnap(cmd.SCB)
	med := vSnap(st.med)
	writes := vIsWrite(op) || vIsWriteVerify(op) || op == 0x8b || op == 0x41 || op == 0x93
	vSplit(vIsRead(op), op == 0x0a, vIsWrite(op), vIsWriteVerify(op), op == 0x41 || op == 0x93)
	r := SBCReadWrite(0, cmd)
	c09Kept("SBCReadWrite", cmd, lu, st, ro, swp)
	vEnsures("SBCReadWrite.the medium is as before", vBytesEq(st.med, med))
	if writes {
		vEnsures("SBCReadWrite.a write ends in CHECK CONDITION", r.Stat == api.SAM_STAT_CHECK_CONDITION)
		proper := !(lu.Attrs.Removable && !lu.Attrs.Online) && (op == 0x0a || scb[1]&0xe0 == 0) && (op != 0x41 && op != 0x93 || scb[1]&0x1e == 0)
		vEnsures("SBCReadWrite.a well-formed write ends in WRITE PROTECTED", !proper || vSense(cmd, DATA_PROTECT, ASC_WRITE_PROTECT))
	}
}

func contract_C09_SBCUnmap(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	ro, swp := lu.Attrs.Readonly, lu.Attrs.SWP
	vRequires(ro || swp)
	anchor := cmd.SCB[1]&0x01 != 0
	r := SBCUnmap(0, cmd)
	c09Kept("UNMAP", cmd, lu, st, ro, swp)
	vEnsures("UNMAP.ends in CHECK CONDITION", r.Stat == api.SAM_STAT_CHECK_CONDITION)
	vEnsures("UNMAP.a well-formed UNMAP ends in WRITE PROTECTED", anchor || vSense(cmd, DATA_PROTECT, ASC_WRITE_PROTECT))
}

func contract_C09_SBCFormatUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && cmd.Target != nil)
	ro, swp := lu.Attrs.Readonly, lu.Attrs.SWP
	vRequires(ro || swp)
	proper := lu.Attrs.Online && cmd.SCB[1]&0x97 == 0
	r := SBCFormatUnit(0, cmd)
	c09Kept("FORMAT UNIT", cmd, lu, st, ro, swp)
	vEnsures("FORMAT UNIT.does not end in GOOD", r.Stat != api.SAM_STAT_GOOD)
	vEnsures("FORMAT UNIT.a well-formed FORMAT UNIT ends in WRITE PROTECTED", !proper || r.Stat == api.SAM_STAT_RESERVATION_CONFLICT || r.Stat == api.SAM_STAT_CHECK_CONDITION && vSense(cmd, DATA_PROTECT, ASC_WRITE_PROTECT))
}

func contract_C09_SBCModeSelect(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	ro, swp := lu.Attrs.Readonly, lu.Attrs.SWP
	vRequires(ro || swp)
	SBCModeSelect(0, cmd)
	c09Kept("MODE SELECT", cmd, lu, st, ro, swp)
}

// Every other operation of the command table.

func c09Any(name string, op api.CommandFunc, cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vPartial() // panics are C18
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vApart(cmd, lu, st))
	cmd.Target = t
	ro, swp := lu.Attrs.Readonly, lu.Attrs.SWP
	vRequires(ro || swp)
	op(0, cmd)
	c09Kept(name, cmd, lu, st, ro, swp)
}

func contract_C09_SPCIllegalOp(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCIllegalOp", SPCIllegalOp, cmd, lu, st, t)
}

func contract_C09_SPCTestUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCTestUnit", SPCTestUnit, cmd, lu, st, t)
}

func contract_C09_SPCRequestSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCRequestSense", SPCRequestSense, cmd, lu, st, t)
}

func contract_C09_SPCInquiry(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(t != nil && vPorts(t))
	c09Any("SPCInquiry", SPCInquiry, cmd, lu, st, t)
}

func contract_C09_SBCReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCReserve", SBCReserve, cmd, lu, st, t)
}

func contract_C09_SBCRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCRelease", SBCRelease, cmd, lu, st, t)
}

func contract_C09_SBCModeSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCModeSense", SBCModeSense, cmd, lu, st, t)
}

func contract_C09_SPCStartStop(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCStartStop", SPCStartStop, cmd, lu, st, t)
}

func contract_C09_SPCSendDiagnostics(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCSendDiagnostics", SPCSendDiagnostics, cmd, lu, st, t)
}

func contract_C09_SPCPreventAllowMediaRemoval(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCPreventAllowMediaRemoval", SPCPreventAllowMediaRemoval, cmd, lu, st, t)
}

func contract_C09_SBCReadCapacity(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCReadCapacity", SBCReadCapacity, cmd, lu, st, t)
}

func contract_C09_SBCVerify(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(cmd != nil && len(cmd.SCB) == 16 && vIsVerify(cmd.SCB[0]))
	c09Any("SBCVerify", SBCVerify, cmd, lu, st, t)
}

func contract_C09_SBCSyncCache(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(cmd != nil && len(cmd.SCB) == 16 && (cmd.SCB[0] == 0x35 || cmd.SCB[0] == 0x91))
	c09Any("SBCSyncCache", SBCSyncCache, cmd, lu, st, t)
}

func contract_C09_SBCReadCapacity16(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCReadCapacity16", SBCReadCapacity16, cmd, lu, st, t)
}

func contract_C09_SBCGetLbaStatus(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SBCGetLbaStatus", SBCGetLbaStatus, cmd, lu, st, t)
}

func contract_C09_SPCReportLuns(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCReportLuns", SPCReportLuns, cmd, lu, st, t)
}

func contract_C09_SPCReportSupportedOperationCodes(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCReportSupportedOperationCodes", SPCReportSupportedOperationCodes, cmd, lu, st, t)
}

func contract_C09_SPCPRReadKeys(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRReadKeys", SPCPRReadKeys, cmd, lu, st, t)
}

func contract_C09_SPCPRReadReservation(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRReadReservation", SPCPRReadReservation, cmd, lu, st, t)
}

func contract_C09_SPCPRReportCapabilities(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c09Any("SPCPRReportCapabilities", SPCPRReportCapabilities, cmd, lu, st, t)
}

func contract_C09_SPCPRRegister(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRRegister", SPCPRRegister, cmd, lu, st, t)
}

func contract_C09_SPCPRReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRReserve", SPCPRReserve, cmd, lu, st, t)
}

func contract_C09_SPCPRRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRRelease", SPCPRRelease, cmd, lu, st, t)
}

func contract_C09_SPCPRClear(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRClear", SPCPRClear, cmd, lu, st, t)
}

func contract_C09_SPCPRPreempt(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	// C17_Delete: it removes a registration, without a panic, from the list of which Preempt holds a copy.
	vStub((*SCSISimpleReservationOperator).DeleteAndRemoveReservation, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, p *api.SCSIReservation) {
		vEnsures("SPCPRPreempt.removes a registration that is there", p != nil && tgt == t.Name && dev == lu.UUID)
	})
	c09Any("SPCPRPreempt", SPCPRPreempt, cmd, lu, st, t)
}

func contract_C09_SPCPRRegisterAndMove(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c09Any("SPCPRRegisterAndMove", SPCPRRegisterAndMove, cmd, lu, st, t)
}
