package scsi

import (
	"github.com/gostor/gotgt/pkg/api"
	uuid "github.com/satori/go.uuid"
)

// vSenseFormed: sense data in the logical unit's format with one of the sense keys of SPC.
func vSenseFormed(cmd *api.SCSICommand) bool {
	if cmd.SenseBuffer == nil {
		return false
	}
	s := cmd.SenseBuffer.Buffer
	if int(cmd.SenseBuffer.Length) != len(s) {
		return false
	}
	if cmd.Device != nil && cmd.Device.Attrs.SenseFormat {
		return len(s) == 8 && s[0] == 0x72 && s[1] != 0 && s[1] <= 0x0f && int(s[7]) == len(s)-8
	}
	return len(s) == 18 && s[0] == 0x70 && s[2] != 0 && s[2] <= 0x0f && int(s[7]) == len(s)-8
}

func contract_C06_BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
	vRequires(cmd != nil)
	BuildSenseData(cmd, key, asc)
	vEnsures("BuildSenseData.key and code are where SPC puts them", vSense(cmd, key, asc))
}

func c06Outcome(name string, cmd *api.SCSICommand, st *vStore, r api.SAMStat) {
	vEnsures(name+".a failed store operation is not reported as GOOD", !st.failed || r.Stat != api.SAM_STAT_GOOD)
	vEnsures(name+".CHECK CONDITION carries sense data", r.Stat != api.SAM_STAT_CHECK_CONDITION || vSenseFormed(cmd))
	vEnsures(name+".GOOD and CHECK CONDITION are not mixed up", (r.Stat == api.SAM_STAT_GOOD) == (r.Err == nil))
}

func contract_C06_SBCReadWrite(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(vIsRead(op) || vIsWrite(op) || vIsWriteVerify(op) || vIsPreFetch(op) || op == 0x8b || op == 0x41 || op == 0x93)
	vSplit(vIsRead(op), op == 0x0a, vIsWrite(op), vIsWriteVerify(op), vIsPreFetch(op))
	r := SBCReadWrite(0, cmd)
	c06Outcome("SBCReadWrite", cmd, st, r)
	if vIsPreFetch(op) {
		vEnsures("PRE-FETCH.a failed advise is not reported as GOOD", !st.notAdvised || r.Stat != api.SAM_STAT_GOOD)
	}
}

func contract_C06_SBCVerify(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(vIsVerify(cmd.SCB[0]))
	r := SBCVerify(0, cmd)
	c06Outcome("SBCVerify", cmd, st, r)
}

func contract_C06_SBCSyncCache(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(cmd.SCB[0] == 0x35 || cmd.SCB[0] == 0x91)
	r := SBCSyncCache(0, cmd)
	c06Outcome("SBCSyncCache", cmd, st, r)
}

func contract_C06_SBCUnmap(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	r := SBCUnmap(0, cmd)
	c06Outcome("SBCUnmap", cmd, st, r)
}

func contract_C06_SBCFormatUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && cmd.Target != nil)
	r := SBCFormatUnit(0, cmd)
	c06Outcome("SBCFormatUnit", cmd, st, r)
}

// Every other operation of the command table.

func c06Any(name string, op api.CommandFunc, cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vPartial() // panics are C18
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vApart(cmd, lu, st))
	cmd.Target = t
	vRequires(cmd.SenseBuffer == nil)
	r := op(0, cmd)
	vEnsures(name+".a failed store operation is not reported as GOOD", !st.failed || r.Stat != api.SAM_STAT_GOOD)
	vEnsures(name+".CHECK CONDITION carries sense data", r.Stat != api.SAM_STAT_CHECK_CONDITION || vSenseFormed(cmd))
}

func contract_C06_SPCIllegalOp(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCIllegalOp", SPCIllegalOp, cmd, lu, st, t)
}

func contract_C06_SPCTestUnit(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCTestUnit", SPCTestUnit, cmd, lu, st, t)
}

func contract_C06_SPCRequestSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCRequestSense", SPCRequestSense, cmd, lu, st, t)
}

func contract_C06_SPCInquiry(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(t != nil && vPorts(t))
	c06Any("SPCInquiry", SPCInquiry, cmd, lu, st, t)
}

func contract_C06_SBCModeSelect(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCModeSelect", SBCModeSelect, cmd, lu, st, t)
}

func contract_C06_SBCReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCReserve", SBCReserve, cmd, lu, st, t)
}

func contract_C06_SBCRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCRelease", SBCRelease, cmd, lu, st, t)
}

func contract_C06_SBCModeSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCModeSense", SBCModeSense, cmd, lu, st, t)
}

func contract_C06_SPCStartStop(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCStartStop", SPCStartStop, cmd, lu, st, t)
}

func contract_C06_SPCSendDiagnostics(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCSendDiagnostics", SPCSendDiagnostics, cmd, lu, st, t)
}

func contract_C06_SPCPreventAllowMediaRemoval(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCPreventAllowMediaRemoval", SPCPreventAllowMediaRemoval, cmd, lu, st, t)
}

func contract_C06_SBCReadCapacity(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCReadCapacity", SBCReadCapacity, cmd, lu, st, t)
}

func contract_C06_SBCReadCapacity16(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCReadCapacity16", SBCReadCapacity16, cmd, lu, st, t)
}

func contract_C06_SBCGetLbaStatus(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SBCGetLbaStatus", SBCGetLbaStatus, cmd, lu, st, t)
}

func contract_C06_SPCReportLuns(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCReportLuns", SPCReportLuns, cmd, lu, st, t)
}

func contract_C06_SPCReportSupportedOperationCodes(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCReportSupportedOperationCodes", SPCReportSupportedOperationCodes, cmd, lu, st, t)
}

func contract_C06_SPCPRReadKeys(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRReadKeys", SPCPRReadKeys, cmd, lu, st, t)
}

func contract_C06_SPCPRReadReservation(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRReadReservation", SPCPRReadReservation, cmd, lu, st, t)
}

func contract_C06_SPCPRReportCapabilities(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	c06Any("SPCPRReportCapabilities", SPCPRReportCapabilities, cmd, lu, st, t)
}

func contract_C06_SPCPRRegister(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRRegister", SPCPRRegister, cmd, lu, st, t)
}

func contract_C06_SPCPRReserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRReserve", SPCPRReserve, cmd, lu, st, t)
}

func contract_C06_SPCPRRelease(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRRelease", SPCPRRelease, cmd, lu, st, t)
}

func contract_C06_SPCPRClear(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRClear", SPCPRClear, cmd, lu, st, t)
}

func contract_C06_SPCPRPreempt(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	// C17_Delete: it removes a registration, without a panic, from the list of which Preempt holds a copy.
	vStub((*SCSISimpleReservationOperator).DeleteAndRemoveReservation, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, p *api.SCSIReservation) {
		vEnsures("SPCPRPreempt.removes a registration that is there", p != nil && tgt == t.Name && dev == lu.UUID)
	})
	c06Any("SPCPRPreempt", SPCPRPreempt, cmd, lu, st, t)
}

func contract_C06_SPCPRRegisterAndMove(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator) {
	vRequires(lu != nil && vPR(op, t, lu))
	c06Any("SPCPRRegisterAndMove", SPCPRRegisterAndMove, cmd, lu, st, t)
}

// The refusal of a LUN that nothing is mapped to, and that of a command of both directions in the iSCSI layer, which
// has no device yet.
func contract_C06_NoSuchLUN(s *SCSITargetService, cmd *api.SCSICommand, t *api.SCSITarget) {
	vRequires(s != nil && cmd != nil && len(cmd.SCB) == 16 && t != nil && t.LUN0 != nil)
	vRequires(len(s.Targets) == 1 && s.Targets[0] == t)
	vRequires(vAll(func(id uuid.UUID) bool { it, ok := t.ITNexus[id]; return !ok || it != nil }))
	vRequires(t.Devices == nil && cmd.SenseBuffer == nil)
	perform := func(id int, c *api.SCSICommand) api.SAMStat { return api.SAMStatGood }
	vRequires(vSameFunc(t.LUN0.PerformCommand, perform))
	s.AddCommandQueue(t.TID, cmd)
	vEnsures("no such LUN.CHECK CONDITION carries sense data", cmd.Result != api.SAM_STAT_CHECK_CONDITION || vSenseFormed(cmd))
}
