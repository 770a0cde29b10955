package iscsit

import "github.com/gostor/gotgt/pkg/scsi"

func c20Read(op byte) bool  { return op == 0x08 || op == 0x28 || op == 0xa8 || op == 0x88 }
func c20Write(op byte) bool { return op == 0x0a || op == 0x2a || op == 0xaa || op == 0x8a }

func contract_C20_UpdateStats(s *ISCSITargetDriver, conn *iscsiConnection, other int) {
	vRequires(s != nil && s.mu != nil && conn != nil && conn.resp != nil && s.TargetStats.SCSIIOCount != nil)
	op, n := conn.resp.SCSIOpCode, int64(conn.resp.ExpectedDataLen)
	was := s.TargetStats
	count, wasOther := was.SCSIIOCount[int(op)], was.SCSIIOCount[other]
	m := was.SCSIIOCount
	s.UpdateStats(conn)
	now := s.TargetStats
	rd, wr := int64(0), int64(0)
	if c20Read(op) {
		rd = 1
	}
	if c20Write(op) {
		wr = 1
	}
	vEnsures("statistics.one read operation for a READ, none otherwise", now.ReadIOPS == was.ReadIOPS+rd)
	vEnsures("statistics.the bytes of a READ", now.TotalReadBlockCount == was.TotalReadBlockCount+rd*n)
	vEnsures("statistics.one write operation for a WRITE, none otherwise", now.WriteIOPS == was.WriteIOPS+wr)
	vEnsures("statistics.the bytes of a WRITE", now.TotalWriteBlockCount == was.TotalWriteBlockCount+wr*n)
	vEnsures("statistics.read time of READs only", rd == 1 || now.TotalReadTime == was.TotalReadTime)
	vEnsures("statistics.write time of WRITEs only", wr == 1 || now.TotalWriteTime == was.TotalWriteTime)
	vEnsures("statistics.one more command of its operation code", vSameRef(now.SCSIIOCount, m) && m[int(op)] == count+1)
	vEnsures("statistics.no more command of another operation code", other == int(op) || m[other] == wasOther)
	vEnsures("statistics.whether an initiator is connected", now.IsClientConnected == s.isClientConnected)
	vEnsures("statistics.leaves the other counters", now.RevisionCounter == was.RevisionCounter && now.ReplicaCounter == was.ReplicaCounter &&
		now.UsedLogicalBlocks == was.UsedLogicalBlocks && now.UsedBlocks == was.UsedBlocks && now.SectorSize == was.SectorSize)
}

// A snapshot has the counters of the moment, and shares nothing with them that later commands change.
func contract_C20_Stats(s *ISCSITargetDriver, conn *iscsiConnection, op int) {
	vRequires(s != nil && s.mu != nil && conn != nil && conn.resp != nil)
	m := s.TargetStats.SCSIIOCount
	was := s.TargetStats
	vInvariant("copied", func(stats *scsi.Stats) bool {
		c, in := stats.SCSIIOCount[op]
		v, ok := m[op]
		return in == (ok && vVisited(m, op)) && (!in || c == v)
	})
	r := s.Stats()
	vEnsures("snapshot.has the counters", r.ReadIOPS == was.ReadIOPS && r.WriteIOPS == was.WriteIOPS && r.TotalReadBlockCount == was.TotalReadBlockCount &&
		r.TotalWriteBlockCount == was.TotalWriteBlockCount && r.TotalReadTime == was.TotalReadTime && r.TotalWriteTime == was.TotalWriteTime &&
		r.IsClientConnected == was.IsClientConnected && r.RevisionCounter == was.RevisionCounter && r.ReplicaCounter == was.ReplicaCounter &&
		r.UsedLogicalBlocks == was.UsedLogicalBlocks && r.UsedBlocks == was.UsedBlocks && r.SectorSize == was.SectorSize)
	c, in := r.SCSIIOCount[op]
	v, ok := m[op]
	vEnsures("snapshot.has the command counts", in == ok && c == v)
	vEnsures("snapshot.leaves the counters", vSameRef(s.TargetStats.SCSIIOCount, m) && s.TargetStats.ReadIOPS == was.ReadIOPS && s.TargetStats.WriteIOPS == was.WriteIOPS)
	vRequires(m != nil)
	s.UpdateStats(conn)
	c2, in2 := r.SCSIIOCount[op]
	vEnsures("snapshot.is not changed by later commands", in2 == in && c2 == c)
}

// txHandler reports each response to the statistics before it is sent: SCSI responses once, others not.
func contract_C20_txHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	vPartial()
	vRequires(s != nil && conn != nil && conn.resp != nil && conn.loginParam != nil && conn.conn != nil)
	// a SCSI command is answered in the full feature phase (C28), where no digests are used (C12)
	vRequires(conn.state == CONN_STATE_SCSI && conn.txIOState == IOSTATE_TX_BHS && conn.txTask != nil)
	p := conn.loginParam.sessionParam
	vRequires(len(p) == ISCSI_PARAM_MAX && p[ISCSI_PARAM_HDRDGST_EN].Value&DIGEST_CRC32C == 0 && p[ISCSI_PARAM_DATADGST_EN].Value&DIGEST_CRC32C == 0)
	resp := conn.resp
	vSplit(resp.OpCode == OpSCSIIn, resp.OpCode == OpSCSIResp)
	reported, pdus := 0, 0
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("response.is counted with its own operation code and length, before it is sent", d == s && c == conn && conn.resp == resp && pdus == 0)
		reported++
	})
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte {
		pdus++
		return nil
	})
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) { return len(b), vAny[error]("write") })
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	vInvariant("where the PDU is", func() bool { return conn.txIOState == IOSTATE_TX_BHS || conn.txIOState == IOSTATE_TX_INIT_AHS })
	s.txHandler(conn)
	scsiResp := resp.OpCode == OpSCSIResp || resp.OpCode == OpSCSIIn
	vEnsures("response.of a SCSI command is counted once, any other not", reported == 1 && scsiResp && s.enableStats || reported == 0 && !(scsiResp && s.enableStats))
}

// The response to a SCSI command says which command it was and how much it moved.
func contract_C20_response(conn *iscsiConnection, task *iscsiTask, oc OpCode) {
	vRequires(conn != nil && conn.req != nil && task != nil && task.scmd != nil)
	vRequires(oc == OpSCSIIn || oc == OpSCSIResp)
	vPartial()
	req := conn.req
	conn.buildRespPackage(oc, task)
	r := conn.resp
	vEnsures("response.has the operation code, length and start of its request", r != nil && r.SCSIOpCode == req.SCSIOpCode && r.ExpectedDataLen == req.ExpectedDataLen && r.StartTime == req.StartTime && r.OpCode == oc)
}
