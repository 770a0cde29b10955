package iscsit

import (
	"sort"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/util"
)

// c28Gate: a connection serves SCSI requests only in a normal session on a target, and ends its login only in a session.
func c28Gate(conn *iscsiConnection) bool {
	sess := conn.session
	joined := sess != nil && (sess.SessionType != SESSION_NORMAL || sess.Target != nil && sess.ITNexus != nil && sess.SessionType == SESSION_NORMAL)
	return (conn.state != CONN_STATE_SCSI || joined && sess.SessionType == SESSION_NORMAL) &&
		(conn.state != CONN_STATE_LOGIN_FULL && conn.state != CONN_STATE_SECURITY_FULL && !conn.loginParam.paramInit || joined)
}

func c28Setup(s *ISCSITargetDriver, conn *iscsiConnection) {
	vPartial()
	vRequires(s != nil && conn != nil && conn.loginParam != nil && conn.conn != nil && conn.req != nil && len(conn.loginParam.sessionParam) == ISCSI_PARAM_MAX)
	vRequires(c28Gate(conn))
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
}

// A connection starts outside of any session.
func contract_C28_init(c *iscsiConnection) {
	vPartial()
	vRequires(c != nil && c.loginParam != nil && !c.loginParam.paramInit)
	vInvariant("not logged in", func() bool { return c.state == CONN_STATE_FREE && !c.loginParam.paramInit })
	vStub(sort.Sort, func(data sort.Interface) {})
	c.init()
	vEnsures("a new connection is not logged in", c.state == CONN_STATE_FREE && c28Gate(c))
}

// A login request: the login is complete only after the negotiation of parameters and in a session.
func contract_C28_iscsiExecLogin(s *ISCSITargetDriver, conn *iscsiConnection) {
	c28Setup(s, conn)
	vRequires(conn.state != CONN_STATE_SCSI && conn.state != CONN_STATE_LOGIN_FULL && conn.state != CONN_STATE_SECURITY_FULL)
	p := conn.loginParam
	state, inited, req := conn.state, p.paramInit, conn.req
	stages := func() {
		p.tgtNSG, p.tgtTrans = vAny[iSCSILoginStage]("next stage"), vAny[bool]("transit")
	}
	negotiated, bound := false, false
	vStub((*iscsiConnection).processSecurityData, func(c *iscsiConnection) error {
		stages()
		return vAny[error]("security")
	})
	vStub((*iscsiConnection).processLoginData, func(c *iscsiConnection) ([]util.KeyValue, error) {
		stages()
		negotiated = true
		return nil, vAny[error]("login")
	})
	vStub((*ISCSITargetDriver).BindISCSISession, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		vEnsures("login.a session is joined once, after negotiation", c == conn && negotiated && !bound && !inited)
		bound = true
		err := vAny[error]("bind")
		if err == nil { // C23
			conn.session = &ISCSISession{SessionType: SESSION_DISCOVERY}
			if vAny[bool]("normal session") {
				conn.session = &ISCSISession{SessionType: SESSION_NORMAL, Target: &ISCSITarget{}, ITNexus: &api.ITNexus{}}
			}
		}
		return err
	})
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, t *iscsiTask) error { return vAny[error]("response") })
	err := s.iscsiExecLogin(conn)
	vEnsures("login.no request is served without a session", c28Gate(conn))
	vEnsures("login.SCSI requests wait for the login response", conn.state != CONN_STATE_SCSI && conn.state != CONN_STATE_SECURITY_FULL)
	if conn.state == CONN_STATE_LOGIN_FULL {
		vEnsures("login.is complete only after negotiation of the parameters", negotiated && (bound || inited) && req.CSG != SecurityNegotiation)
		vEnsures("login.is complete only when the full feature phase is agreed on", p.tgtNSG == FullFeaturePhase && p.tgtTrans)
	}
	vEnsures("login.a failed one stays outside", err == nil || conn.state == state || conn.state == CONN_STATE_EXIT || conn.state == CONN_STATE_LOGIN || conn.state == CONN_STATE_LOGIN_FULL && bound || conn.state == CONN_STATE_LOGIN_FULL && inited)
}

// Requests that arrive before the login is complete are not given to the SCSI layer, nor do they complete it.
func contract_C28_rxHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c28Setup(s, conn)
	vRequires(conn.readLock != nil && conn.state != CONN_STATE_SCSI)
	state := conn.state
	login := false
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		vEnsures("before.no SCSI request is served", false)
		return nil
	})
	vStub((*ISCSITargetDriver).iscsiExecLogin, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		vEnsures("before.only a login request is a login", c == conn && conn.req.OpCode == OpLoginReq && !login)
		login = true
		conn.state = vAny[int]("state")
		vAssume(conn.state != CONN_STATE_SCSI) // C28_iscsiExecLogin
		return vAny[error]("login")
	})
	vStub((*ISCSITargetDriver).iscsiExecText, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("text") })
	vStub((*ISCSITargetDriver).setClientStatus, func(d *ISCSITargetDriver, ok bool) {})
	vStub(iscsiExecLogout, func(c *iscsiConnection) error { return vAny[error]("logout") })
	vStub(iscsiExecReject, func(c *iscsiConnection) error { return vAny[error]("reject") })
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("before.only the response is sent", events == DATAOUT && c == conn && conn.state != CONN_STATE_SCSI)
	})
	vStub(parseHeader, func(data []byte) (*ISCSICommand, error) {
		err := vAny[error]("header")
		if err != nil {
			return nil, err
		}
		return &ISCSICommand{OpCode: vAny[OpCode]("opcode"), DataLen: vAny[int]("length")}, nil
	})
	vStub((*iscsiConnection).readData, func(c *iscsiConnection, buf []byte) (int, error) { return vAny[int]("read"), vAny[error]("read") })
	s.rxHandler(conn)
	vEnsures("before.the connection does not become one that serves SCSI requests", conn.state == state || conn.state == CONN_STATE_CLOSE || login && conn.state != CONN_STATE_SCSI)
}

// The response is sent: only that of a complete login to a target makes the connection serve SCSI requests.
func contract_C28_txHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c28Setup(s, conn)
	vRequires(conn.resp != nil && conn.txIOState == IOSTATE_TX_BHS && conn.maxRecvDataSegmentLength > 0)
	vRequires(conn.state != CONN_STATE_SCSI || conn.txTask != nil)
	state, sess := conn.state, conn.session
	full := state == CONN_STATE_LOGIN_FULL || state == CONN_STATE_SECURITY_FULL
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) {})
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte { return nil })
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) { return 0, vAny[error]("write") })
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("sent.the next request is read in the new phase", c28Gate(conn) && conn.state != CONN_STATE_LOGIN_FULL && conn.state != CONN_STATE_SECURITY_FULL)
	})
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		vEnsures("sent.no request is served in sending", false)
		return nil
	})
	vInvariant("the state stays while sending", func() bool { return conn.state == state && conn.session == sess })
	vInvariant("on the way", func() bool {
		return conn.txIOState == IOSTATE_TX_BHS || conn.txIOState == IOSTATE_TX_INIT_AHS || conn.state == CONN_STATE_SCSI
	})
	s.txHandler(conn)
	vEnsures("sent.SCSI requests are served only in a normal session", c28Gate(conn))
	vEnsures("sent.SCSI requests are served only after a complete login", conn.state != CONN_STATE_SCSI || state == CONN_STATE_SCSI || full && sess != nil && sess.SessionType == SESSION_NORMAL)
	vEnsures("sent.a complete login to a target serves SCSI requests", !full || conn.state == CONN_STATE_CLOSE || (conn.state == CONN_STATE_SCSI) == (sess.SessionType == SESSION_NORMAL))
}
