package iscsit

import (
	"net"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/pkg/util"
)

// No lock is held when a function is called that may take any, and none is left held. The shared parts of the driver
// and of a session are modified only under their locks.
func c22Driver(s *ISCSITargetDriver) {
	vPartial()
	vTrackLocks()
	vRequires(s != nil && s.mu != nil && vNoLocksHeld())
	vGuarded("session handles are taken and released without the lock of the pool", s.TSIHPool, &s.TSIHPoolMutex)
	vGuarded("the pool of session handles is replaced without its lock", &s.TSIHPool, &s.TSIHPoolMutex)
	vGuarded("the statistics are modified without the lock of the driver", &s.TargetStats, s.mu)
	vGuarded("the counts by opcode are modified without the lock of the driver", s.TargetStats.SCSIIOCount, s.mu)
}

func c22Session(sess *ISCSISession) {
	vRequires(sess != nil)
	vGuarded("the pending tasks are modified without their lock", &sess.PendingTasks, &sess.PendingTasksMutex)
	vGuarded("the connections of the session are modified without their lock", sess.Connections, &sess.ConnectionsRWMutex)
}

func c22Target(t *ISCSITarget) {
	vRequires(t != nil)
	vGuarded("the sessions of the target are modified without their lock", t.Sessions, &t.SessionsRWMutex)
}

// What the handlers call is looked at by its own contract; they call it without any lock.
func c22Calls(conn *iscsiConnection) {
	free := func() { vEnsures("called without any lock", vNoLocksHeld()) }
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("the next request is awaited without the locks of the session", vNoLocksHeld() || vHeld(conn.readLock))
	})
	vStub((*ISCSITargetDriver).UpdateStats, func(d *ISCSITargetDriver, c *iscsiConnection) { free() })
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
	vStub((*ISCSICommand).Bytes, func(m *ISCSICommand) []byte { return nil })
	vStub((*iscsiConnection).write, func(c *iscsiConnection, b []byte) (int, error) { return 0, vAny[error]("write") })
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, t *iscsiTask) error { return vAny[error]("response") })
	vStub((*scsi.SCSITargetService).AddCommandQueue, func(s *scsi.SCSITargetService, tid int, c *api.SCSICommand) error {
		free()
		return vAny[error]("command")
	})
}

func contract_C22_AllocTSIH(s *ISCSITargetDriver) {
	c22Driver(s)
	s.AllocTSIH()
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_ReleaseTSIH(s *ISCSITargetDriver, h uint16) {
	c22Driver(s)
	s.ReleaseTSIH(h)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_Close(s *ISCSITargetDriver) {
	c22Driver(s)
	s.Close()
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_setState(s *ISCSITargetDriver, st uint8) {
	c22Driver(s)
	s.setState(st)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_DriverResize(s *ISCSITargetDriver, size uint64) {
	c22Driver(s)
	vStub((*scsi.SCSITargetService).Resize, func(t *scsi.SCSITargetService, n uint64) error { return vAny[error]("resize") })
	s.Resize(size)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_Stats(s *ISCSITargetDriver) {
	c22Driver(s)
	s.Stats()
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_UpdateStats(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Driver(s)
	vRequires(conn != nil && conn.resp != nil)
	s.UpdateStats(conn)
	vEnsures("released", vNoLocksHeld())
}

func c22Conn(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Driver(s)
	vRequires(conn != nil && conn.readLock != nil && conn.req != nil && conn.resp != nil && conn.loginParam != nil && conn.conn != nil)
	vRequires(len(conn.loginParam.sessionParam) == ISCSI_PARAM_MAX)
	c22Session(conn.session)
}

func contract_C22_handler(s *ISCSITargetDriver, conn *iscsiConnection, events byte) {
	c22Conn(s, conn)
	vStub((*ISCSITargetDriver).rxHandler, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("requests are received without any lock", vNoLocksHeld())
	})
	vStub((*ISCSITargetDriver).txHandler, func(d *ISCSITargetDriver, c *iscsiConnection) {
		vEnsures("responses are sent without any lock", vNoLocksHeld())
	})
	s.handler(events, conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_rxHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Conn(s, conn)
	c22Calls(conn)
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("command") })
	vStub((*ISCSITargetDriver).iscsiExecLogin, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("login") })
	vStub((*ISCSITargetDriver).iscsiExecText, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("text") })
	vStub(iscsiExecLogout, func(c *iscsiConnection) error { return vAny[error]("logout") })
	vStub(iscsiExecReject, func(c *iscsiConnection) error { return vAny[error]("reject") })
	vStub(parseHeader, func(data []byte) (*ISCSICommand, error) {
		err := vAny[error]("header")
		if err != nil {
			return nil, err
		}
		return &ISCSICommand{OpCode: vAny[OpCode]("opcode"), DataLen: vAny[int]("length")}, nil
	})
	vStub((*iscsiConnection).readData, func(c *iscsiConnection, buf []byte) (int, error) { return vAny[int]("read"), vAny[error]("read") })
	s.rxHandler(conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_iscsiExecLogout(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Conn(s, conn)
	iscsiExecLogout(conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_txHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Conn(s, conn)
	c22Calls(conn)
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("command") })
	s.txHandler(conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_scsiCommandHandler(s *ISCSITargetDriver, conn *iscsiConnection) {
	c22Conn(s, conn)
	c22Calls(conn)
	vRequires(len(conn.session.SessionParam) == ISCSI_PARAM_MAX)
	vStub((*ISCSITargetDriver).iscsiTaskQueueHandler, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a task is queued without any lock", vNoLocksHeld())
		return vAny[error]("queue")
	})
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, x *ISCSISession) {
		vEnsures("pending tasks are executed without any lock", vNoLocksHeld())
	})
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a task is executed without any lock", vNoLocksHeld())
		return vAny[error]("task")
	})
	vStub(iscsiExecLogout, func(c *iscsiConnection) error {
		vEnsures("a logout is executed without any lock", vNoLocksHeld())
		return nil
	})
	vStub(scsi.BuildSenseData, func(cmd *api.SCSICommand, key byte, asc scsi.SCSISubError) {})
	s.scsiCommandHandler(conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_iscsiTaskQueueHandler(s *ISCSITargetDriver, task *iscsiTask) {
	vRequires(task != nil && task.conn != nil && task.cmd != nil)
	c22Driver(s)
	c22Session(task.conn.session)
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, x *ISCSISession) {
		vEnsures("pending tasks are executed without any lock", vNoLocksHeld())
	})
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a task is executed without any lock", vNoLocksHeld())
		return vAny[error]("task")
	})
	s.iscsiTaskQueueHandler(task)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_iscsiExecPendingTasks(s *ISCSITargetDriver, sess *ISCSISession) {
	c22Driver(s)
	c22Session(sess)
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("a task is executed without any lock", vNoLocksHeld())
		return vAny[error]("task")
	})
	s.iscsiExecPendingTasks(sess)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_iscsiExecTask(s *ISCSITargetDriver, task *iscsiTask) {
	vRequires(task != nil && task.conn != nil && task.cmd != nil)
	c22Driver(s)
	c22Session(task.conn.session)
	c22Calls(task.conn)
	s.iscsiExecTask(task)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_LookupISCSISession(s *ISCSITargetDriver, tgt, ini string, isid uint64, h, tpgt uint16) {
	c22Driver(s)
	s.LookupISCSISession(tgt, ini, isid, h, tpgt)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_UnBindISCSISession(s *ISCSITargetDriver, sess *ISCSISession) {
	c22Driver(s)
	c22Session(sess)
	c22Target(sess.Target)
	vRequires(sess.ITNexus != nil)
	s.UnBindISCSISession(sess)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_BindISCSISession(s *ISCSITargetDriver, conn *iscsiConnection, names []string, n2 string, h2 uint16) {
	c22Driver(s)
	vRequires(conn != nil && conn.conn != nil && conn.loginParam != nil && conn.session == nil)
	p := conn.loginParam
	vRequires(len(p.sessionParam) == ISCSI_PARAM_MAX)
	vRequires(len(names) == 0xffff)
	vRequires(vAll(func(n string) bool {
		t, ok := s.iSCSITargets[n]
		return !ok || t != nil && t.SCSITarget.Name == n && 0 <= t.TID && t.TID < 0xffff && names[t.TID] == n && t.Sessions != nil && t.SCSITarget.ITNexus != nil
	}))
	tgt, known := s.iSCSITargets[p.target]
	// the tables watched: the sessions of target n2, and the connections of its session h2
	t2, ok2 := s.iSCSITargets[n2]
	vRequires(ok2 && (!known || t2 == tgt || !vSameRef(t2.Sessions, tgt.Sessions)))
	c22Target(t2)
	was, have := t2.Sessions[h2]
	vRequires(have)
	c22Session(was)
	if known {
		if old, exists := tgt.Sessions[p.tsih]; exists {
			vRequires(old != nil && (old == was || !vSameRef(old.Connections, was.Connections)))
			// the connections of a session belong to it, and are not the one that logs in
			vRequires(vAll(func(c uint16) bool {
				x, ok := old.Connections[c]
				return !ok || x != nil && x != conn && x.session == old && x.conn != nil
			}))
		}
	}
	vStub((*ISCSITargetDriver).UnBindISCSISession, func(d *ISCSITargetDriver, x *ISCSISession) {
		vEnsures("a session is removed without any lock", vNoLocksHeld())
	})
	vInvariant("targets visited have other names", func() bool {
		x, ok := s.iSCSITargets[p.target]
		return !ok || !vVisited(s.iSCSITargets, p.target) || x.SCSITarget.Name != p.target
	})
	vInvariant("targets visited have other numbers", func() bool {
		x, ok := s.iSCSITargets[p.target]
		return !ok || !vVisited(s.iSCSITargets, p.target) || x.TID != conn.tid
	})
	vStub((*ISCSITarget).FindTPG, func(t *ISCSITarget, portal string) (uint16, error) { return 0, vAny[error]("portal") })
	vStub((*ISCSITargetDriver).AllocTSIH, func(d *ISCSITargetDriver) uint16 {
		vEnsures("a handle is taken without any other lock", vNoLocksHeld())
		return vAny[uint16]("handle")
	})
	s.BindISCSISession(conn)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_LookupConnection(sess *ISCSISession, cid uint16) {
	vPartial()
	vTrackLocks()
	vRequires(vNoLocksHeld())
	c22Session(sess)
	sess.LookupConnection(cid)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_ReInstatement(conn, other *iscsiConnection) {
	vPartial()
	vTrackLocks()
	vRequires(vNoLocksHeld() && conn != nil && other != nil && conn.conn != nil)
	c22Session(conn.session)
	conn.ReInstatement(other)
	vEnsures("released", vNoLocksHeld())
}

// The listener accepts connections one after another and serves each in its own goroutine, until it fails for good.
func contract_C22_Run(s *ISCSITargetDriver, port int) {
	c22Driver(s)
	l := vAny[net.Listener]("listener")
	vRequires(l != nil)
	vStub(net.Listen, func(network, address string) (net.Listener, error) { return l, nil })
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("a connection is served without any lock", vNoLocksHeld())
	})
	vStub((*iscsiConnection).init, func(c *iscsiConnection) {})
	s.Run(port)
	vEnsures("released", vNoLocksHeld())
}

var _ util.KeyValue
