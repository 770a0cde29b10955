package iscsit

import (
	"strings"

	"github.com/gostor/gotgt/pkg/api"
)

// The way of a command through the iSCSI layer: the obligations are the absence of panics.

func contract_C18_parseHeader(data []byte) {
	m, err := parseHeader(data)
	vEnsures("header.is decoded or refused", (m == nil) == (err != nil))
}

// Every response there is (C02 proves what is encoded), with the data its handlers give it: a Data-In has a piece
// of the data (C10), text and sense data are shorter than 2^24.
func contract_C18_response(m *ISCSICommand) {
	vRequires(m != nil)
	op := m.OpCode
	vRequires(op == OpLoginResp || op == OpLogoutResp || op == OpSCSIResp || op == OpSCSIIn || op == OpTextResp || op == OpNoopIn || op == OpSCSITaskResp || op == OpReady)
	vSplit(op == OpLoginResp, op == OpLogoutResp, op == OpSCSIResp, op == OpSCSIIn, op == OpTextResp, op == OpNoopIn, op == OpSCSITaskResp)
	vRequires(op == OpSCSIIn || len(m.RawData) < 1<<24)
	vRequires(op != OpSCSIIn || m.DataLen >= 0 && m.DataLen < 1<<24 && int(m.BufferOffset)+m.DataLen <= len(m.RawData) && len(m.RawData) < 1<<32)
	b := m.Bytes()
	vEnsures("response.has a header", len(b) >= 48)
}

// A command that reads, transfers nothing, or claims to do both; one that writes is C11_command.
func contract_C18_command(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil && conn.session.ITNexus != nil)
	req := conn.req
	vRequires(req.OpCode == OpSCSICmd && len(req.CDB) == 16 && (!req.Write || req.Read))
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	vStub((*ISCSITargetDriver).iscsiTaskQueueHandler, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("command.is made for the operations", t != nil && t.scmd != nil && len(t.scmd.SCB) == 16 && t.conn == conn)
		in := t.scmd.InSDBBuffer
		vEnsures("command.has a buffer for the data it reads", in != nil && uint64(len(in.Buffer)) == uint64(in.Length) && in.Length == req.ExpectedDataLen)
		// what the operations leave (C18 of each)
		t.scmd.Result = vAny[byte]("status")
		in.Resid = vAny[uint32]("data length")
		t.scmd.SenseBuffer = vAny[*api.SenseBuffer]("sense data")
		return vAny[error]("execution")
	})
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, ss *ISCSISession) {})
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error { return vAny[error]("execution") })
	s.scsiCommandHandler(conn)
	if req.Read && req.Write {
		vEnsures("command.both ways is refused", conn.resp != nil && conn.resp.Status == api.SAM_STAT_CHECK_CONDITION && conn.resp.OpCode == OpSCSIResp)
	}
}

// Task management, whatever tasks there are.
func contract_C18_taskManagement(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil)
	sess := conn.session
	vRequires(conn.req.OpCode == OpSCSITaskReq && vForall(0, len(sess.PendingTasks), func(i int) bool {
		return sess.PendingTasks[i] != nil && sess.PendingTasks[i].cmd != nil
	}))
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	// C21: it takes the task with the tag out of the queue
	vStub((*taskQueue).RemoveByTag, func(q *taskQueue, tag uint32) *iscsiTask { return vAny[*iscsiTask]("the task with the tag") })
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, ss *ISCSISession) {})
	s.scsiCommandHandler(conn)
}

// The other requests of the full feature phase.
func contract_C18_otherRequests(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil)
	op := conn.req.OpCode
	vRequires(op != OpSCSICmd && op != OpSCSITaskReq && op != OpSCSIOut && conn.conn != nil)
	// splitting at a separator yields something
	vStub(strings.Split, func(s, sep string) []string {
		vEnsures("request.is split at a separator", len(sep) > 0)
		l := vAny[[]string]("parts")
		vAssume(len(l) > 0)
		return l
	})
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	s.scsiCommandHandler(conn)
}
