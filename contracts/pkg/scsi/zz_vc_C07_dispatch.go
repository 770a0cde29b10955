package scsi

import (
	"github.com/gostor/gotgt/pkg/api"
	uuid "github.com/satori/go.uuid"
)

// The operations of SPC and SBC.
const (
	vOpNone = iota
	vOpTestUnitReady
	vOpRequestSense
	vOpFormatUnit
	vOpReadWrite
	vOpInquiry
	vOpModeSelect
	vOpReserve
	vOpRelease
	vOpModeSense
	vOpStartStop
	vOpSendDiagnostic
	vOpMediumRemoval
	vOpReadCapacity
	vOpVerify
	vOpSyncCache
	vOpUnmap
	vOpReportLuns
	vOpReadCapacity16
	vOpLbaStatus
	vOpReadKeys
	vOpReadReservation
	vOpReportCapabilities
	vOpPRRegister
	vOpPRReserve
	vOpPRRelease
	vOpPRClear
	vOpPRPreempt
	vOpPRRegisterAndMove
	vOpReportOpcodes
)

// vOperation is the operation of an opcode and, where it has any, of its service action.
func vOperation(op, action int) int {
	switch op {
	case 0x00:
		return vOpTestUnitReady
	case 0x03:
		return vOpRequestSense
	case 0x04:
		return vOpFormatUnit
	case 0x08, 0x28, 0xa8, 0x88, 0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e, 0x34, 0x90, 0x41, 0x93, 0x8b:
		// READ, WRITE, WRITE AND VERIFY, PRE-FETCH, WRITE SAME, ORWRITE
		return vOpReadWrite
	case 0x2f, 0xaf, 0x8f:
		return vOpVerify
	case 0x12:
		return vOpInquiry
	case 0x15, 0x55:
		return vOpModeSelect
	case 0x16:
		return vOpReserve
	case 0x17:
		return vOpRelease
	case 0x1a, 0x5a:
		return vOpModeSense
	case 0x1b:
		return vOpStartStop
	case 0x1d:
		return vOpSendDiagnostic
	case 0x1e:
		return vOpMediumRemoval
	case 0x25:
		return vOpReadCapacity
	case 0x35, 0x91:
		return vOpSyncCache
	case 0x42:
		return vOpUnmap
	case 0xa0:
		return vOpReportLuns
	case 0x9e:
		switch action {
		case 0x10:
			return vOpReadCapacity16
		case 0x12:
			return vOpLbaStatus
		}
	case 0x5e:
		switch action {
		case 0:
			return vOpReadKeys
		case 1:
			return vOpReadReservation
		case 2:
			return vOpReportCapabilities
		}
	case 0x5f:
		switch action {
		case 0, 6:
			return vOpPRRegister
		case 1:
			return vOpPRReserve
		case 2:
			return vOpPRRelease
		case 3:
			return vOpPRClear
		case 4:
			return vOpPRPreempt
		case 7:
			return vOpPRRegisterAndMove
		}
	case 0xa3:
		if action == 0x0c {
			return vOpReportOpcodes
		}
	}
	return vOpNone
}

func vHasActions(op int) bool {
	return op == 0x9e || op == 0x5e || op == 0x5f || op == 0xa3
}

// Every opcode is executed by its operation, on the command it came with.
func contract_C07_Opcodes(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, tid int) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	EnableORWrite16, EnablePersistentReservation = true, true
	lu.DeviceProtocol = NewSBCDevice(api.TYPE_DISK)
	lu.PerformCommand = luPerformCommand
	ran, times := 0, 0
	stat := api.SAMStat{Stat: vAny[byte]("status")}
	is := func(op int) func(int, *api.SCSICommand) api.SAMStat {
		return func(host int, c *api.SCSICommand) api.SAMStat {
			ran, times = op, times+1
			if c != cmd {
				ran = -1
			}
			return stat
		}
	}
	vStub(SPCTestUnit, is(vOpTestUnitReady))
	vStub(SPCRequestSense, is(vOpRequestSense))
	vStub(SBCFormatUnit, is(vOpFormatUnit))
	vStub(SBCReadWrite, is(vOpReadWrite))
	vStub(SPCInquiry, is(vOpInquiry))
	vStub(SBCModeSelect, is(vOpModeSelect))
	vStub(SBCReserve, is(vOpReserve))
	vStub(SBCRelease, is(vOpRelease))
	vStub(SBCModeSense, is(vOpModeSense))
	vStub(SPCStartStop, is(vOpStartStop))
	vStub(SPCSendDiagnostics, is(vOpSendDiagnostic))
	vStub(SPCPreventAllowMediaRemoval, is(vOpMediumRemoval))
	vStub(SBCReadCapacity, is(vOpReadCapacity))
	vStub(SBCVerify, is(vOpVerify))
	vStub(SBCSyncCache, is(vOpSyncCache))
	vStub(SBCUnmap, is(vOpUnmap))
	vStub(SPCReportLuns, is(vOpReportLuns))
	vStub(SBCReadCapacity16, is(vOpReadCapacity16))
	vStub(SBCGetLbaStatus, is(vOpLbaStatus))
	vStub(SPCPRReadKeys, is(vOpReadKeys))
	vStub(SPCPRReadReservation, is(vOpReadReservation))
	vStub(SPCPRReportCapabilities, is(vOpReportCapabilities))
	vStub(SPCPRRegister, is(vOpPRRegister))
	vStub(SPCPRReserve, is(vOpPRReserve))
	vStub(SPCPRRelease, is(vOpPRRelease))
	vStub(SPCPRClear, is(vOpPRClear))
	vStub(SPCPRPreempt, is(vOpPRPreempt))
	vStub(SPCPRRegisterAndMove, is(vOpPRRegisterAndMove))
	vStub(SPCReportSupportedOperationCodes, is(vOpReportOpcodes))
	scb1 := cmd.SCB[1] & 0xe0
	for op := 0; op < 256; op++ {
		actions := 1
		if vHasActions(op) {
			actions = 32
		}
		for a := 0; a < actions; a++ {
			cmd.SCB[0], cmd.SCB[1] = byte(op), scb1|byte(a)
			ran, times = vOpNone, 0
			cmd.SenseBuffer = nil
			r := lu.PerformCommand(tid, cmd)
			want := vOperation(op, a)
			if want != vOpNone {
				vEnsures("opcode.is executed by its operation, once", ran == want && times == 1 && r.Stat == stat.Stat)
			} else {
				vEnsures("opcode.without an operation executes none", times == 0)
				if !vHasActions(op) {
					vEnsures("opcode.without an operation is refused", r.Stat == api.SAM_STAT_CHECK_CONDITION && vSense(cmd, ILLEGAL_REQUEST, ASC_INVALID_OP_CODE))
				}
			}
		}
	}
	vEnsures("opcode.dispatching does not touch the medium", st.untouched())
}

// A command goes to the device mapped to its LUN of the target it is addressed to.
func contract_C07_Route(s *SCSITargetService, cmd *api.SCSICommand, tid int) {
	vRequires(s != nil && cmd != nil && len(cmd.SCB) == 16)
	vRequires(vForall(0, len(s.Targets), func(i int) bool { return s.Targets[i] != nil && s.Targets[i].LUN0 != nil }))
	vInvariant("no such target so far", func(i int) bool {
		return vForall(0, i, func(k int) bool { return s.Targets[k].TID != tid })
	})
	var on *api.SCSILu
	times := 0
	stat := api.SAMStat{Stat: vAny[byte]("status")}
	perform := func(id int, c *api.SCSICommand) api.SAMStat {
		times++
		if c == cmd && id == tid {
			on = c.Device
		}
		return stat
	}
	lun := uint64(0)
	for i := 0; i < 8; i++ {
		lun |= uint64(cmd.Lun[i]) << (8 * uint(i))
	}
	// every device executes commands with the recorder
	vRequires(vForall(0, len(s.Targets), func(i int) bool { return vSameFunc(s.Targets[i].LUN0.PerformCommand, perform) }))
	vRequires(vForall(0, len(s.Targets), func(i int) bool {
		d := s.Targets[i].Devices[lun]
		return d == nil || vSameFunc(d.PerformCommand, perform)
	}))
	vRequires(vForall(0, len(s.Targets), func(i int) bool {
		return vAll(func(id uuid.UUID) bool { it, ok := s.Targets[i].ITNexus[id]; return !ok || it != nil })
	}))
	w := vAny[int]("the first target with this ID")
	known := vExists(0, len(s.Targets), func(i int) bool { return s.Targets[i].TID == tid })
	var t *api.SCSITarget
	var dev *api.SCSILu
	if known {
		vAssume(w >= 0 && w < len(s.Targets) && s.Targets[w].TID == tid && vForall(0, w, func(k int) bool { return s.Targets[k].TID != tid }))
		t = s.Targets[w]
		dev = t.Devices[lun]
	}
	err := s.AddCommandQueue(tid, cmd)
	if !known {
		vEnsures("routing.to an unknown target is an error and executes nothing", err != nil && times == 0)
		return
	}
	vEnsures("routing.finds the target", err == nil && cmd.Target == t)
	switch {
	case dev != nil:
		vEnsures("routing.executes on the device mapped to the LUN, once", times == 1 && on == dev && cmd.Result == stat.Stat)
	case lun == 0:
		vEnsures("routing.LUN 0 falls back to the placeholder", times == 1 && on == t.LUN0 && cmd.Result == stat.Stat)
	default:
		vEnsures("routing.to an unmapped LUN executes nothing", times == 0)
		vEnsures("routing.to an unmapped LUN is refused", cmd.Result == api.SAM_STAT_CHECK_CONDITION && cmd.SenseBuffer != nil && len(cmd.SenseBuffer.Buffer) > 2)
		sb := cmd.SenseBuffer.Buffer
		vEnsures("routing.to an unmapped LUN is an ILLEGAL REQUEST", sb[0] == 0x70 && sb[2] == ILLEGAL_REQUEST || sb[0] == 0x72 && sb[1] == ILLEGAL_REQUEST)
	}
	vEnsures("routing.both data buffers are there", cmd.InSDBBuffer != nil && cmd.OutSDBBuffer != nil)
}
