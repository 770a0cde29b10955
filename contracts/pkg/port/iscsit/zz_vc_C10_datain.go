package iscsit

import "github.com/gostor/gotgt/pkg/util"

// The PDUs of one SCSI response, as txHandler encodes and sends them one after another. Their encoding is that of
// C02: here the fields of each are looked at when it is encoded.

type c10Sent struct {
	pdus     uint32 // encoded
	written  uint32 // handed to the connection
	next     int    // offset of the next byte to send
	inSeq    uint32 // PDUs since the last one that ended a sequence
	before   uint32 // those before the last PDU
	finished bool   // the last PDU of the transfer was encoded
	broken   bool   // the connection failed
}

func c10Setup(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.resp != nil && conn.loginParam != nil && conn.conn != nil)
	vRequires(conn.state == CONN_STATE_SCSI && conn.txIOState == IOSTATE_TX_BHS && conn.txTask != nil)
	p := conn.loginParam.sessionParam
	vRequires(len(p) == ISCSI_PARAM_MAX)
	vRequires(p[ISCSI_PARAM_HDRDGST_EN].Value&DIGEST_CRC32C == 0 && p[ISCSI_PARAM_DATADGST_EN].Value&DIGEST_CRC32C == 0)
}

func contract_C10_txHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c10Setup(s, conn)
	resp := conn.resp
	vRequires(resp.OpCode == OpSCSIIn)
	seg := int(conn.maxRecvDataSegmentLength)
	vRequires(seg > 0 && seg < 1<<24 && conn.maxSeqCount > 0)
	data := resp.RawData
	n := len(data)
	vRequires(n < 1<<32)
	g := &c10Sent{}
	reported := 0
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("statistics.of the response, before it is sent", d == s && c == conn && g.pdus == 0)
		reported++
	})
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte {
		off, l := int(m.BufferOffset), m.DataLen
		vEnsures("Data-In.is the response, with its data", m == resp && vSameBacking(m.RawData, data) && len(m.RawData) == n && m.OpCode == OpSCSIIn)
		vEnsures("Data-In.nothing follows the last PDU", !g.finished)
		vEnsures("Data-In.every PDU is sent before the next", g.written == g.pdus)
		vEnsures("Data-In.follows the piece before it", off == g.next)
		vEnsures("Data-In.lies in the data and in a segment", l >= 0 && l <= seg && off+l <= n)
		vEnsures("Data-In.carries something, unless there is nothing", l > 0 || n == 0)
		vEnsures("Data-In.DataSN counts", m.DataSN == g.pdus)
		vEnsures("Data-In.final exactly in the last PDU", m.Final == (off+l == n))
		// a burst has maxSeqCount segments (C10_login)
		vEnsures("Data-In.no sequence is longer than a burst", g.inSeq < conn.maxSeqCount)
		vEnsures("Data-In.the last PDU ends its sequence", !m.Final || m.FinalInSeq)
		g.pdus++
		g.before = g.inSeq
		g.next = off + l
		g.inSeq++
		if m.FinalInSeq {
			g.inSeq = 0
		}
		g.finished = m.Final
		return nil
	})
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) {
		vEnsures("Data-In.goes to the connection of the command", c == conn)
		g.written++
		err := vAny[error]("write")
		g.broken = g.broken || err != nil
		return len(b), err
	})
	vInvariant("ready to send", func() bool { return conn.txIOState == IOSTATE_TX_BHS })
	ready := func() bool { return conn.txIOState == IOSTATE_TX_BHS }
	vInvariant("all of it sent before", func(offset, count uint32) bool {
		return count < conn.maxSeqCount && (ready() && g.inSeq == count && g.next == int(offset) || !ready() && g.before == count)
	})
	vInvariant("where the PDU is", func() bool { return ready() || conn.txIOState == IOSTATE_TX_INIT_AHS })
	vInvariant("sent before", func() bool {
		return !ready() || resp.DataSN == g.pdus && !g.finished
	})
	vInvariant("sent now", func() bool {
		l := resp.DataLen
		return ready() || resp.DataSN+1 == g.pdus && g.finished == resp.Final && g.next == int(resp.BufferOffset)+l &&
			(resp.FinalInSeq && g.inSeq == 0 || !resp.FinalInSeq && g.inSeq == g.before+1)
	})
	vInvariant("every PDU is written", func() bool { return g.written == g.pdus })
	vInvariant("the connection works", func() bool { return !g.broken })
	vInvariant("in the data", func() bool { return g.next <= n })
	vInvariant("more to send", func() bool { return g.next < n || g.finished || n == 0 && g.pdus == 0 })
	s.txHandler(conn)
	vEnsures("Data-In.the whole data is sent", g.broken || g.finished && g.next == n && g.written == g.pdus)
	vEnsures("statistics.a SCSI response is counted once", s.enableStats == (reported == 1) && reported <= 1)
}

// Any other response is one PDU.
func contract_C10_otherResponses(s *ISCSITargetDriver, conn *iscsiConnection) {
	c10Setup(s, conn)
	resp := conn.resp
	vRequires(resp.OpCode != OpSCSIIn)
	g := &c10Sent{}
	reported := 0
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("statistics.of the response, before it is sent", d == s && c == conn && g.pdus == 0)
		reported++
	})
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte {
		vEnsures("response.is encoded once", m == resp && g.pdus == 0)
		g.pdus++
		return nil
	})
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) {
		vEnsures("response.goes to the connection of the command, once", c == conn && g.pdus == 1 && g.written == 0)
		g.written++
		err := vAny[error]("write")
		g.broken = g.broken || err != nil
		return len(b), err
	})
	vInvariant("once", func() bool {
		return conn.txIOState == IOSTATE_TX_BHS && g.pdus == 0 && g.written == 0 || conn.txIOState == IOSTATE_TX_INIT_AHS && g.pdus == 1 && g.written == 1
	})
	s.txHandler(conn)
	vEnsures("response.is sent", g.written == 1)
	vEnsures("statistics.a SCSI response is counted once, any other not", reported <= 1 && (s.enableStats && resp.OpCode == OpSCSIResp) == (reported == 1))
}

// The segments of a burst fit into the burst.
func contract_C10_login(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.loginParam != nil)
	vStub((*iscsiConnection).processSecurityData, func(c *iscsiConnection) error { return vAny[error]("security") })
	list := conn.loginParam.sessionParam
	vRequires(len(list) == ISCSI_PARAM_MAX && conn.state != CONN_STATE_LOGIN_FULL)
	vStub((*iscsiConnection).processLoginData, func(c *iscsiConnection) ([]util.KeyValue, error) {
		// what the negotiation leaves is permitted (C12)
		v := vAny[uint]("segment length of the initiator")
		vAssume(v >= 512 && v <= 16777215)
		list[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value = v
		return nil, vAny[error]("login")
	})
	vStub((*ISCSITargetDriver).BindISCSISession, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("bind") })
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, task *iscsiTask) error { return vAny[error]("response") })
	security := conn.req.CSG == SecurityNegotiation
	s.iscsiExecLogin(conn)
	seg, burst, n := uint64(conn.maxRecvDataSegmentLength), uint64(conn.maxBurstLength), uint64(conn.maxSeqCount)
	vEnsures("login.there is at least one segment in a burst", seg > 0 && seg < 1<<24 && n > 0)
	vEnsures("login.the segments of a burst fit into it", n*seg <= burst)
	full := conn.state == CONN_STATE_LOGIN_FULL && !security
	vEnsures("login.no segment is longer than the initiator takes", !full || uint(seg) <= list[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
	vEnsures("login.the burst is the default of the negotiated parameter", uint(burst) == sessionKeys["MaxBurstLength"].def)
}
