package iscsit

// c02U32 reads a big-endian 32-bit field.
func c02U32(b []byte, off int) uint32 {
	return uint32(b[off])<<24 | uint32(b[off+1])<<16 | uint32(b[off+2])<<8 | uint32(b[off+3])
}

func c02Zero(b []byte, lo, hi int) bool {
	return vForall(lo, hi, func(i int) bool { return b[i] == 0 })
}

// c02Frame: 48-byte header, then data verbatim, zero padded to a multiple of four; length field without padding.
func c02Frame(b, data []byte) bool {
	n := len(data)
	pad := (n + 3) / 4 * 4
	return len(b) == 48+pad && b[4] == 0 && uint32(b[5])<<16|uint32(b[6])<<8|uint32(b[7]) == uint32(n)
}

func c02Data(b, data []byte) bool {
	n := len(data)
	return vForall(0, n, func(i int) bool { return b[48+i] == data[i] }) &&
		vForall(n, len(b)-48, func(i int) bool { return b[48+i] == 0 })
}

func c02Numbers(b []byte, m *ISCSICommand) bool {
	return c02U32(b, 24) == m.StatSN && c02U32(b, 28) == m.ExpCmdSN && c02U32(b, 32) == m.MaxCmdSN
}

func c02Residual(m *ISCSICommand) byte {
	switch {
	case m.Resid > m.ExpectedDataLen:
		return 4
	case m.Resid == 0:
		return 0
	}
	return 2
}

func c02flag(c bool, v byte) byte {
	if c {
		return v
	}
	return 0
}

func contract_C02_LoginResp(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpLoginResp)
	vRequires(len(m.RawData) < 1<<24)
	vRequires(m.CSG >= 0 && m.CSG <= 3 && m.NSG >= 0 && m.NSG <= 3 && m.ISID < 1<<48)
	data := vSnap(m.RawData)
	b := m.Bytes()
	vEnsures("LoginResp.frame", c02Frame(b, data))
	vEnsures("LoginResp.data", c02Data(b, data))
	vEnsures("LoginResp.opcode and flags", b[0] == 0x23 && b[1] == c02flag(m.Transit, 0x80)|c02flag(m.Cont, 0x40)|byte(m.CSG)<<2|byte(m.NSG))
	vEnsures("LoginResp.version", b[2] == 0 && b[3] == 0)
	vEnsures("LoginResp.ISID and TSIH", vForall(0, 6, func(i int) bool { return b[8+i] == byte(m.ISID>>uint(40-8*i)) }) && b[14] == byte(m.TSIH>>8) && b[15] == byte(m.TSIH))
	vEnsures("LoginResp.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("LoginResp.sequence numbers", c02Numbers(b, m))
	vEnsures("LoginResp.status", b[36] == m.StatusClass && b[37] == m.StatusDetail)
	vEnsures("LoginResp.reserved", c02Zero(b, 20, 24) && c02Zero(b, 38, 48))
}

func contract_C02_LogoutResp(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpLogoutResp)
	b := m.Bytes()
	vEnsures("LogoutResp.length", len(b) == 48)
	vEnsures("LogoutResp.opcode and flags", b[0] == 0x26 && b[1] == 0x80)
	vEnsures("LogoutResp.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("LogoutResp.sequence numbers", c02Numbers(b, m))
	vEnsures("LogoutResp.reserved", c02Zero(b, 2, 16) && c02Zero(b, 20, 24) && c02Zero(b, 36, 48))
}

func contract_C02_SCSIResp(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpSCSIResp)
	vRequires(len(m.RawData) < 1<<24)
	data := vSnap(m.RawData)
	b := m.Bytes()
	vEnsures("SCSIResp.frame", c02Frame(b, data))
	vEnsures("SCSIResp.data", c02Data(b, data))
	vEnsures("SCSIResp.opcode and flags", b[0] == 0x21 && b[1] == 0x80|c02Residual(m))
	vEnsures("SCSIResp.response and status", b[2] == m.SCSIResponse && b[3] == m.Status)
	vEnsures("SCSIResp.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("SCSIResp.sequence numbers", c02Numbers(b, m))
	vEnsures("SCSIResp.residual", c02U32(b, 44) == m.Resid)
	vEnsures("SCSIResp.reserved", c02Zero(b, 8, 16) && c02Zero(b, 20, 24) && c02Zero(b, 36, 44))
}

func contract_C02_DataIn(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpSCSIIn)
	vRequires(m.DataLen >= 0 && m.DataLen < 1<<24 && m.ExpectedDataLen != 0)
	off := int(m.BufferOffset)
	vRequires(off+m.DataLen <= len(m.RawData) && off+m.DataLen < 1<<32)
	piece := vSnap(m.RawData[off : off+m.DataLen])
	b := m.Bytes()
	vEnsures("DataIn.frame", c02Frame(b, piece))
	vEnsures("DataIn.data", c02Data(b, piece))
	resid := c02Residual(m)
	if m.Resid == m.ExpectedDataLen {
		resid = 0
	}
	vEnsures("DataIn.opcode and flags", b[0] == 0x25 && b[1] == c02flag(m.Final || m.FinalInSeq, 0x80)|c02flag(m.Final && m.HasStatus, 1)|resid)
	if m.Final && m.HasStatus {
		vEnsures("DataIn.status", b[3] == m.Status)
	} else {
		vEnsures("DataIn.no status", b[3] == 0)
	}
	vEnsures("DataIn.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("DataIn.sequence numbers", c02Numbers(b, m))
	vEnsures("DataIn.DataSN and offset", c02U32(b, 36) == m.DataSN && c02U32(b, 40) == m.BufferOffset)
	vEnsures("DataIn.residual", c02U32(b, 44) == m.Resid)
	vEnsures("DataIn.reserved", b[2] == 0 && c02Zero(b, 8, 16) && c02Zero(b, 20, 24))
}

func contract_C02_TextResp(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpTextResp)
	vRequires(len(m.RawData) < 1<<24)
	data := vSnap(m.RawData)
	b := m.Bytes()
	vEnsures("TextResp.frame", c02Frame(b, data))
	vEnsures("TextResp.data", c02Data(b, data))
	vEnsures("TextResp.opcode and flags", b[0] == 0x24 && b[1] == c02flag(m.Final, 0x80)|c02flag(m.Cont, 0x40))
	vEnsures("TextResp.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("TextResp.transfer tag", c02U32(b, 20) == 0xffffffff)
	vEnsures("TextResp.sequence numbers", c02Numbers(b, m))
	vEnsures("TextResp.reserved", b[2] == 0 && b[3] == 0 && c02Zero(b, 8, 16) && c02Zero(b, 36, 48))
}

func contract_C02_NopIn(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpNoopIn)
	vRequires(len(m.RawData) < 1<<24)
	data := vSnap(m.RawData)
	b := m.Bytes()
	vEnsures("NopIn.frame", c02Frame(b, data))
	vEnsures("NopIn.data", c02Data(b, data))
	vEnsures("NopIn.opcode and flags", b[0] == 0x20 && b[1] == 0x80)
	vEnsures("NopIn.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("NopIn.transfer tag", c02U32(b, 20) == 0xffffffff)
	vEnsures("NopIn.sequence numbers", c02Numbers(b, m))
	vEnsures("NopIn.reserved", b[2] == 0 && b[3] == 0 && c02Zero(b, 8, 16) && c02Zero(b, 36, 48))
}

func contract_C02_TaskMgmtResp(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpSCSITaskResp)
	b := m.Bytes()
	vEnsures("TaskMgmtResp.length", len(b) == 48)
	vEnsures("TaskMgmtResp.opcode, flags, response", b[0] == 0x22 && b[1] == 0x80 && b[2] == m.Result)
	vEnsures("TaskMgmtResp.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("TaskMgmtResp.sequence numbers", c02Numbers(b, m))
	vEnsures("TaskMgmtResp.reserved", c02Zero(b, 3, 16) && c02Zero(b, 20, 24) && c02Zero(b, 36, 48))
}

func contract_C02_R2T(m *ISCSICommand) {
	vRequires(m != nil && m.OpCode == OpReady)
	b := m.Bytes()
	vEnsures("R2T.length", len(b) == 48)
	vEnsures("R2T.opcode and flags", b[0] == 0x31 && b[1] == c02flag(m.Final, 0x80))
	vEnsures("R2T.task tag", c02U32(b, 16) == m.TaskTag)
	vEnsures("R2T.sequence numbers", c02Numbers(b, m))
	vEnsures("R2T.R2TSN, offset, length", c02U32(b, 36) == m.R2TSN && c02U32(b, 40) == m.BufferOffset && c02U32(b, 44) == m.DesiredLength)
	vEnsures("R2T.reserved", c02Zero(b, 2, 16) && c02Zero(b, 20, 24))
}
