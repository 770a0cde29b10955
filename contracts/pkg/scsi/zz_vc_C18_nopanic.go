package scsi

import "github.com/gostor/gotgt/pkg/api"

// Every operation of the command table, for any CDB and buffers: the obligations are the absence of panics.

func vC18(name string, op api.CommandFunc, cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vApart(cmd, lu, st))
	cmd.Target = t
	scb, stat := cmd.SCB, api.SAMStat{}
	stat = op(0, cmd)
	vEnsures(name+".returns, with a status and the buffers in place", len(cmd.SCB) == len(scb) && cmd.InSDBBuffer != nil && cmd.OutSDBBuffer != nil &&
		(stat.Stat == api.SAM_STAT_GOOD || stat.Stat == api.SAM_STAT_CHECK_CONDITION || stat.Stat == api.SAM_STAT_BUSY || stat.Stat == api.SAM_STAT_RESERVATION_CONFLICT))
	vEnsures(name+".the response data lies in the buffer", stat.Stat != api.SAM_STAT_GOOD || len(vReturned(cmd)) <= len(cmd.InSDBBuffer.Buffer))
}

func contract_C18_SPCIllegalOp(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCIllegalOp", SPCIllegalOp, cmd, lu, st, t)
}

func contract_C18_SPCTestUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCTestUnit", SPCTestUnit, cmd, lu, st, t)
}

func contract_C18_SPCRequestSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCRequestSense", SPCRequestSense, cmd, lu, st, t)
}

func contract_C18_SBCFormatUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCFormatUnit", SBCFormatUnit, cmd, lu, st, t)
}

func contract_C18_SBCReadWrite(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(cmd != nil && len(cmd.SCB) == 16)
	op := cmd.SCB[0]
	vRequires(vIsRead(op) || vIsWrite(op) || vIsWriteVerify(op) || vIsPreFetch(op) || op == 0x8b || op == 0x41 || op == 0x93)
	vSplit(vIsRead(op), op == 0x0a, vIsWrite(op), vIsWriteVerify(op), vIsPreFetch(op), op == 0x41 || op == 0x93)
	vC18("SBCReadWrite", SBCReadWrite, cmd, lu, st, t)
}

func contract_C18_SPCInquiry(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(t != nil && vPorts(t))
	vC18("SPCInquiry", SPCInquiry, cmd, lu, st, t)
}

func contract_C18_SBCModeSelect(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCModeSelect", SBCModeSelect, cmd, lu, st, t)
}

func contract_C18_SBCReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCReserve", SBCReserve, cmd, lu, st, t)
}

func contract_C18_SBCRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCRelease", SBCRelease, cmd, lu, st, t)
}

func contract_C18_SBCModeSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCModeSense", SBCModeSense, cmd, lu, st, t)
}

func contract_C18_SPCStartStop(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCStartStop", SPCStartStop, cmd, lu, st, t)
}

func contract_C18_SPCSendDiagnostics(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCSendDiagnostics", SPCSendDiagnostics, cmd, lu, st, t)
}

func contract_C18_SPCPreventAllowMediaRemoval(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCPreventAllowMediaRemoval", SPCPreventAllowMediaRemoval, cmd, lu, st, t)
}

func contract_C18_SBCReadCapacity(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCReadCapacity", SBCReadCapacity, cmd, lu, st, t)
}

func contract_C18_SBCVerify(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(cmd != nil && len(cmd.SCB) == 16 && vIsVerify(cmd.SCB[0]))
	vC18("SBCVerify", SBCVerify, cmd, lu, st, t)
}

func contract_C18_SBCSyncCache(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(cmd != nil && len(cmd.SCB) == 16 && (cmd.SCB[0] == 0x35 || cmd.SCB[0] == 0x91))
	vC18("SBCSyncCache", SBCSyncCache, cmd, lu, st, t)
}

func contract_C18_SBCUnmap(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCUnmap", SBCUnmap, cmd, lu, st, t)
}

func contract_C18_SBCReadCapacity16(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCReadCapacity16", SBCReadCapacity16, cmd, lu, st, t)
}

func contract_C18_SBCGetLbaStatus(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SBCGetLbaStatus", SBCGetLbaStatus, cmd, lu, st, t)
}

func contract_C18_SPCReportLuns(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCReportLuns", SPCReportLuns, cmd, lu, st, t)
}

func contract_C18_SPCReportSupportedOperationCodes(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCReportSupportedOperationCodes", SPCReportSupportedOperationCodes, cmd, lu, st, t)
}

func contract_C18_SPCPRReadKeys(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRReadKeys", SPCPRReadKeys, cmd, lu, st, t)
}

func contract_C18_SPCPRReadReservation(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRReadReservation", SPCPRReadReservation, cmd, lu, st, t)
}

func contract_C18_SPCPRReportCapabilities(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vC18("SPCPRReportCapabilities", SPCPRReportCapabilities, cmd, lu, st, t)
}

func contract_C18_SPCPRRegister(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRRegister", SPCPRRegister, cmd, lu, st, t)
}

func contract_C18_SPCPRReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRReserve", SPCPRReserve, cmd, lu, st, t)
}

func contract_C18_SPCPRRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRRelease", SPCPRRelease, cmd, lu, st, t)
}

func contract_C18_SPCPRClear(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRClear", SPCPRClear, cmd, lu, st, t)
}

func contract_C18_SPCPRPreempt(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	// C17_Delete: it removes a registration, without a panic, from the list of which Preempt holds a copy.
	vStub((*SCSISimpleReservationOperator).DeleteAndRemoveReservation, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, p *api.SCSIReservation) {
		vEnsures("SPCPRPreempt.removes a registration that is there", p != nil && tgt == t.Name && dev == lu.UUID)
	})
	vC18("SPCPRPreempt", SPCPRPreempt, cmd, lu, st, t)
}

func contract_C18_SPCPRRegisterAndMove(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	vC18("SPCPRRegisterAndMove", SPCPRRegisterAndMove, cmd, lu, st, t)
}
