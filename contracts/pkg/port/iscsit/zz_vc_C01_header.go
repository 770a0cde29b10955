package iscsit

// be is the big-endian value of n bytes of d starting at off (RFC 7143 byte order).
func c01be(d []byte, off, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(d[off+i])
	}
	return v
}

func c01ReadOp(op byte) bool {
	return op == 0x08 || op == 0x28 || op == 0xa8 || op == 0x88
}

func c01WriteOp(op byte) bool {
	return op == 0x0a || op == 0x2a || op == 0xaa || op == 0x8a || op == 0x2e || op == 0xae || op == 0x8e
}

// Every received basic header segment is decoded as RFC 7143 lays it out.
func contract_C01_parseHeader(data []byte) {
	old := vSnap(data)
	m, err := parseHeader(data)
	if len(old) != 48 {
		vEnsures("parseHeader.refuses other lengths", m == nil && err != nil)
		return
	}
	op := old[0] & 0x3f
	loginLike := op == 0x03 || op == 0x04 || op == 0x00 || op == 0x06 || op == 0x23
	if loginLike && old[1]&0xc0 == 0xc0 {
		vEnsures("parseHeader.refuses transit and continue", m == nil && err != nil)
		return
	}
	vEnsures("parseHeader.accepts", m != nil && err == nil)
	vEnsures("parseHeader.header unchanged", vBytesEq(data, old))
	vEnsures("parseHeader.opcode", m.OpCode == OpCode(op))
	vEnsures("parseHeader.immediate", m.Immediate == (old[0]&0x40 != 0))
	vEnsures("parseHeader.final", m.Final == (old[1]&0x80 != 0))
	vEnsures("parseHeader.AHS length", m.AHSLen == 4*int(old[4]))
	vEnsures("parseHeader.data segment length", m.DataLen == int(c01be(old, 5, 3)))
	vEnsures("parseHeader.initiator task tag", m.TaskTag == uint32(c01be(old, 16, 4)))
	switch op {
	case 0x01, 0x02, 0x05:
		vEnsures("parseHeader.LUN", m.LUN[0] == old[9] && m.LUN[1] == old[8]&0x3f &&
			m.LUN[2] == 0 && m.LUN[3] == 0 && m.LUN[4] == 0 && m.LUN[5] == 0 && m.LUN[6] == 0 && m.LUN[7] == 0)
		vEnsures("parseHeader.ExpStatSN", m.ExpStatSN == uint32(c01be(old, 28, 4)))
	}
	switch op {
	case 0x01, 0x02, 0x00, 0x03, 0x04, 0x06:
		vEnsures("parseHeader.CmdSN", m.CmdSN == uint32(c01be(old, 24, 4)))
	}
	switch op {
	case 0x01:
		sop := old[32]
		vEnsures("parseHeader.expected data transfer length", m.ExpectedDataLen == uint32(c01be(old, 20, 4)))
		vEnsures("parseHeader.read flag", m.Read == (old[1]&0x40 != 0 || c01ReadOp(sop)))
		vEnsures("parseHeader.write flag", m.Write == (old[1]&0x20 != 0 || c01WriteOp(sop)))
		vEnsures("parseHeader.CDB", len(m.CDB) == 16 && vForall(0, 16, func(i int) bool { return m.CDB[i] == old[32+i] }))
		vEnsures("parseHeader.SCSI opcode", m.SCSIOpCode == sop)
	case 0x02:
		vEnsures("parseHeader.TM function", m.TaskFunc == uint32(old[1]&0x7f))
		vEnsures("parseHeader.referenced task tag", m.ReferencedTaskTag == uint32(c01be(old, 20, 4)))
	case 0x05:
		vEnsures("parseHeader.DataSN", m.DataSN == uint32(c01be(old, 36, 4)))
		vEnsures("parseHeader.buffer offset", m.BufferOffset == uint32(c01be(old, 40, 4)))
	case 0x03, 0x04, 0x00, 0x06:
		vEnsures("parseHeader.transit", m.Transit == (old[1]&0x80 != 0))
		vEnsures("parseHeader.continue", m.Cont == (old[1]&0x40 != 0))
		vEnsures("parseHeader.stages", int(m.CSG) == int(old[1]>>2)&3 && int(m.NSG) == int(old[1])&3)
		vEnsures("parseHeader.ISID", m.ISID == c01be(old, 8, 6))
		vEnsures("parseHeader.TSIH", m.TSIH == uint16(c01be(old, 14, 2)))
		vEnsures("parseHeader.CID", m.ConnID == uint16(c01be(old, 20, 2)))
		vEnsures("parseHeader.ExpStatSN", m.ExpStatSN == uint32(c01be(old, 28, 4)))
	}
}

// ParseUint is the big-endian value of up to eight bytes.
func contract_C01_ParseUint(data []byte, n int) {
	vRequires(n >= 0 && n <= 8 && len(data) == n)
	vUnroll(9)
	v := ParseUint(data)
	var want uint64
	for i := 0; i < n; i++ {
		want = want<<8 | uint64(data[i])
	}
	vEnsures("ParseUint.big endian", v == want)
}
