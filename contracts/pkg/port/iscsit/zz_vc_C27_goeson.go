package iscsit

import (
	"net"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
)

// What happened to a connection while a request was handled.
type c27Record struct {
	reads   int // the next request is read
	sends   int // a response is sent
	built   int // responses made
	failed  bool
	written bool
	started int
	served  int
}

func c27Conn(s *ISCSITargetDriver, conn *iscsiConnection) {
	vPartial()
	vRequires(s != nil && conn != nil && conn.loginParam != nil && conn.conn != nil)
	vRequires(len(conn.loginParam.sessionParam) == ISCSI_PARAM_MAX)
}

func c27Stubs(g *c27Record, conn *iscsiConnection) {
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("it is this connection that goes on", c == conn)
		if events&DATAIN != 0 {
			vEnsures("the next request is read from its start", conn.rxIOState == IOSTATE_RX_BHS)
			g.reads++
		}
		if events&DATAOUT != 0 {
			vEnsures("a response is sent from its start", conn.txIOState == IOSTATE_TX_BHS || conn.state == CONN_STATE_CLOSE)
			g.sends++
		}
	})
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
}

// A request is received: it is handed on, or the connection is closed.
func contract_C27_rxHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c27Conn(s, conn)
	vRequires(conn.readLock != nil && conn.rxIOState == IOSTATE_RX_BHS && conn.state != CONN_STATE_CLOSE)
	g := &c27Record{}
	c27Stubs(g, conn)
	scsiState := conn.state == CONN_STATE_SCSI
	vRequires(!scsiState || conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value&DIGEST_CRC32C == 0 && conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value&DIGEST_CRC32C == 0) // C12
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error {                                                                                    // C27_scsiCommandHandler
		vEnsures("requests of a session are handed on in its full feature phase", scsiState && c == conn)
		g.served++
		err := vAny[error]("command")
		if err == nil {
			g.reads++
		}
		return err
	})
	answer := func(c *iscsiConnection) error {
		vEnsures("requests are answered once", c == conn && g.served == 0 && !scsiState)
		g.served++
		return vAny[error]("answer")
	}
	vStub((*ISCSITargetDriver).iscsiExecLogin, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		conn.state = vAny[int]("state")
		return answer(c)
	})
	vStub((*ISCSITargetDriver).iscsiExecText, func(d *ISCSITargetDriver, c *iscsiConnection) error { return answer(c) })
	vStub((*ISCSITargetDriver).setClientStatus, func(d *ISCSITargetDriver, ok bool) {})
	vStub(iscsiExecLogout, func(c *iscsiConnection) error { return answer(c) })
	vStub(iscsiExecReject, func(c *iscsiConnection) error { return answer(c) })
	vStub(parseHeader, func(data []byte) (*ISCSICommand, error) {
		err := vAny[error]("header")
		g.failed = g.failed || err != nil
		if err != nil {
			return nil, err
		}
		return &ISCSICommand{OpCode: vAny[OpCode]("opcode"), DataLen: vAny[int]("length")}, nil
	})
	vStub((*iscsiConnection).readData, func(c *iscsiConnection, buf []byte) (int, error) {
		err := vAny[error]("read")
		g.failed = g.failed || err != nil
		if err != nil {
			return -1, err
		}
		return len(buf), nil
	})
	vInvariant("nothing is answered before it is received", func() bool { return g.reads == 0 && g.sends == 0 && g.served == 0 })
	vInvariant("no failure so far", func() bool { return !g.failed })
	vInvariant("the connection is open", func() bool { return conn.state != CONN_STATE_CLOSE && (conn.state == CONN_STATE_SCSI) == scsiState })
	vInvariant("on the way", func(cmd *ISCSICommand) bool {
		return conn.rxIOState == IOSTATE_RX_BHS || cmd != nil && (conn.rxIOState == IOSTATE_RX_INIT_AHS || conn.rxIOState == IOSTATE_RX_DATA)
	})
	s.rxHandler(conn)
	if g.failed {
		vEnsures("a connection that cannot be read is closed", conn.state == CONN_STATE_CLOSE && g.reads == 0 && g.sends == 0 && g.served == 0)
		return
	}
	vEnsures("every request is handed on once", g.served == 1)
	if scsiState {
		vEnsures("the next request is read exactly once", g.reads == 1 && g.sends == 0)
	} else {
		vEnsures("the response is sent exactly once", g.reads == 0 && g.sends == 1)
	}
}

// A request of the full feature phase: the next one is read exactly once, unless an error is reported; a response is
// sent only after one is made.
func contract_C27_scsiCommandHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c27Conn(s, conn)
	vRequires(conn.req != nil && conn.session != nil && conn.session.ITNexus != nil && len(conn.session.SessionParam) == ISCSI_PARAM_MAX)
	vRequires(conn.state == CONN_STATE_SCSI && conn.txTask == nil)
	g := &c27Record{}
	c27Stubs(g, conn)
	req := conn.req
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, t *iscsiTask) error {
		conn.txTask, conn.txIOState, conn.resp = &iscsiTask{}, IOSTATE_TX_BHS, &ISCSICommand{OpCode: oc}
		g.built++
		return vAny[error]("response")
	})
	vStub((*ISCSITargetDriver).iscsiTaskQueueHandler, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a request is executed once", g.started == 0)
		g.started++
		err := vAny[error]("queue")
		if vAny[bool]("pending") && err != nil {
			t.state = taskPending
		}
		if err == nil && req.OpCode == OpSCSITaskReq {
			return t.conn.buildRespPackage(OpSCSITaskResp, t) // C21
		}
		return err
	})
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, x *ISCSISession) {})
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a request is executed once", g.started == 0)
		g.started++
		return vAny[error]("task")
	})
	vStub((*ISCSITargetDriver).setClientStatus, func(d *ISCSITargetDriver, ok bool) {})
	vStub(iscsiExecLogout, func(c *iscsiConnection) error {
		conn.resp = &ISCSICommand{OpCode: OpLogoutResp}
		g.built++
		return nil
	})
	vStub(scsi.BuildSenseData, func(cmd *api.SCSICommand, key byte, asc scsi.SCSISubError) {})
	err := s.scsiCommandHandler(conn)
	if err != nil {
		vEnsures("after an error nothing is sent or read", g.reads == 0 && g.sends == 0)
		return
	}
	vEnsures("the next request is read exactly once", g.reads == 1)
	vEnsures("no more than one response is sent", g.sends <= 1)
	vEnsures("what is sent is a response made for this request", g.sends == 0 || g.built == 1 && conn.resp != nil && conn.txTask != nil)
	switch req.OpCode {
	case OpNoopOut:
		vEnsures("a ping is answered", g.sends == 1 && conn.resp.OpCode == OpNoopIn)
	case OpLogoutReq:
		vEnsures("a logout is answered", g.sends == 1 && conn.resp.OpCode == OpLogoutResp)
	case OpSCSITaskReq:
		vEnsures("a task management request is answered", g.sends == 1 && conn.resp.OpCode == OpSCSITaskResp)
	case OpSCSICmd:
		vEnsures("a command that is executed is answered", g.sends == 1 || g.built == 0)
	}
}

// A response is sent: before the full feature phase the next request is then read.
func contract_C27_txHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c27Conn(s, conn)
	vRequires(conn.resp != nil && conn.txIOState == IOSTATE_TX_BHS && conn.maxRecvDataSegmentLength > 0)
	scsiState := conn.state == CONN_STATE_SCSI
	vRequires(!scsiState || conn.txTask != nil)
	vRequires(conn.state != CONN_STATE_SECURITY_LOGIN) // no code puts a connection into this state
	vRequires(conn.state != CONN_STATE_CLOSE)
	vRequires(conn.session != nil || conn.state != CONN_STATE_SECURITY_FULL && conn.state != CONN_STATE_LOGIN_FULL)                                                                          // C28
	vRequires(!scsiState || conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value&DIGEST_CRC32C == 0 && conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value&DIGEST_CRC32C == 0) // C12
	g := &c27Record{}
	state := conn.state
	c27Stubs(g, conn)
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) {})
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte { return nil })
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) {
		err := vAny[error]("write")
		g.failed = g.failed || err != nil
		g.written = true
		return 0, err
	})
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		vEnsures("a request is handled before its response is sent", false)
		return nil
	})
	vInvariant("nothing is read while sending", func() bool { return g.reads == 0 && g.sends == 0 })
	vInvariant("no failure so far", func() bool { return !g.failed })
	vInvariant("the state stays while sending", func() bool { return conn.state == state })
	vInvariant("on the way", func() bool {
		return conn.txIOState == IOSTATE_TX_BHS || conn.txIOState == IOSTATE_TX_INIT_AHS && g.written
	})
	s.txHandler(conn)
	if g.failed {
		vEnsures("a connection that cannot be written to is closed", conn.state == CONN_STATE_CLOSE && g.reads == 0)
		return
	}
	vEnsures("the response is written", g.written)
	switch {
	case scsiState:
		vEnsures("in the full feature phase the next request is read already", g.reads == 0 && conn.state == CONN_STATE_SCSI && conn.txTask == nil)
	case state == CONN_STATE_EXIT:
		vEnsures("the connection is closed at its end", conn.state == CONN_STATE_CLOSE && g.reads == 0)
	default:
		vEnsures("after the response the next request is read", g.reads == 1 && conn.state != CONN_STATE_CLOSE)
	}
}

// What is asked of a connection is done, and a closed connection is given up.
func contract_C27_handler(s *ISCSITargetDriver, conn *iscsiConnection, events byte) {
	c27Conn(s, conn)
	vTrackLocks()
	vRequires(vNoLocksHeld())
	g := &c27Record{}
	closed := false
	vStub((*ISCSITargetDriver).rxHandler, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("handler.requests are read once", c == conn && g.reads == 0 && events&DATAIN != 0)
		g.reads++
		conn.state = vAny[int]("state")
	})
	vStub((*ISCSITargetDriver).txHandler, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("handler.responses are sent once", c == conn && g.sends == 0 && events&DATAOUT != 0 && conn.state != CONN_STATE_CLOSE)
		g.sends++
		conn.state = vAny[int]("state")
	})
	vStub((*iscsiConnection).close, func(c *iscsiConnection) { closed = c == conn })
	state, started := conn.state, vStarted()
	s.handler(events, conn)
	vEnsures("handler.requests are read by one goroutine of their own", (vStarted() == started+1) == (events&DATAIN != 0) && (vStarted() == started) == (events&DATAIN == 0))
	vEnsures("handler.a response is sent on an open connection", events&DATAOUT == 0 || g.sends == 1 || state == CONN_STATE_CLOSE)
	vEnsures("handler.a closed connection is given up", conn.state != CONN_STATE_CLOSE || closed)
}

var _ net.Conn
