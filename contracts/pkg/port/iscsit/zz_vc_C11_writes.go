package iscsit

import "github.com/gostor/gotgt/pkg/api"

// c11Task: a task that waits for data has a buffer for all of it, in which just what is missing lies behind the data
// received; sent is the number of R2Ts sent for it.
func c11Task(t *iscsiTask, sent uint32) bool {
	return t.r2tCount <= 0 || t.scmd != nil && t.scmd.OutSDBBuffer != nil && t.offset >= 0 && len(t.scmd.OutSDBBuffer.Buffer) < 1<<32 &&
		t.offset+t.r2tCount == len(t.scmd.OutSDBBuffer.Buffer) &&
		(t.unsolCount != 0 && sent == 0 || t.unsolCount == 0 && sent > 0 && t.r2tSN == sent-1)
}

type c11Record struct {
	task     *iscsiTask
	executed int
	r2ts     int
	reads    int
	sends    int
	removed  int
}

func c11Stubs(g *c11Record, conn *iscsiConnection) {
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {
		vEnsures("the connection goes on", c == conn)
		if events&DATAIN != 0 {
			g.reads++
		}
		if events&DATAOUT != 0 {
			g.sends++
		}
	})
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, task *iscsiTask) error {
		if oc == OpReady {
			g.r2ts++
			vEnsures("an R2T is for the write that waits", c == conn && task == nil && conn.rxTask != nil && conn.rxTask.r2tCount > 0 && conn.rxTask.tag == conn.req.TaskTag)
			g.task = conn.rxTask
		}
		return vAny[error]("response")
	})
}

// A write command: what it brings is kept, the rest is waited for.
func contract_C11_command(s *ISCSITargetDriver, conn *iscsiConnection, i, j int) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil && conn.session.ITNexus != nil)
	req, sess := conn.req, conn.session
	vRequires(req.OpCode == OpSCSICmd && req.Write && !req.Read)
	vRequires(len(sess.SessionParam) == ISCSI_PARAM_MAX && req.DataLen >= 0 && req.DataLen == len(req.RawData) && len(req.RawData) < 1<<24)
	vRequires(len(sess.PendingTasks) < 1<<30)
	want, raw, got := int(req.ExpectedDataLen), req.RawData, 0
	if sess.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
		got = req.DataLen
	}
	n0 := len(sess.PendingTasks)
	vRequires(i >= 0 && i < len(raw) && j >= 0 && j < want)
	byteI := raw[i]
	turn := req.Immediate || req.CmdSN == sess.ExpCmdSN
	g := &c11Record{}
	c11Stubs(g, conn)
	holds := func(scmd *api.SCSICommand) {
		buf := scmd.OutSDBBuffer
		vEnsures("command.has a buffer for its data", buf != nil && (want == 0 || len(buf.Buffer) == want && buf.Length == uint32(want)))
		if got > 0 && i < len(buf.Buffer) {
			vEnsures("command.immediate data is at the start of the buffer", buf.Buffer[i] == byteI)
		}
		if j >= got && j < len(buf.Buffer) {
			vEnsures("command.the rest of the buffer is empty", buf.Buffer[j] == 0)
		}
	}
	vStub((*ISCSITargetDriver).iscsiTaskQueueHandler, func(d *ISCSITargetDriver, t *iscsiTask) error {
		g.executed++
		vEnsures("command.is executed when all its data is there", want <= got && t != nil && t.scmd != nil && t.r2tCount <= 0)
		holds(t.scmd)
		return vAny[error]("execution")
	})
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, ss *ISCSISession) {})
	s.scsiCommandHandler(conn)
	if want <= got {
		vEnsures("command.is executed once, without an R2T", g.executed == 1 && g.r2ts == 0)
		return
	}
	vEnsures("command.is not executed while data is missing", g.executed == 0)
	if !turn {
		return
	}
	q := sess.PendingTasks
	vEnsures("command.waits for its data", len(q) == n0+1 && q[n0] != nil && q[n0].tag == req.TaskTag && q[n0].r2tCount == want-got && q[n0].offset == got && q[n0].scmd != nil)
	holds(q[n0].scmd)
	unsolicited := sess.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value != 1 && !req.Final
	vEnsures("command.an R2T is sent unless data comes unsolicited", unsolicited == (g.r2ts == 0) && (unsolicited || g.r2ts == 1 && g.task == q[n0]))
	vEnsures("command.an R2T goes out", unsolicited || g.sends == 1)
	vEnsures("command.R2Ts count from zero", c11Task(q[n0], uint32(g.r2ts)))
	vEnsures("command.the next request is read", g.reads == 1)
}

// A Data-Out PDU.
func contract_C11_dataOut(s *ISCSITargetDriver, conn *iscsiConnection, sent uint32, i, j int, other []byte, o int) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil)
	req := conn.req
	vRequires(req.OpCode == OpSCSIOut && req.DataLen >= 0 && req.DataLen == len(req.RawData) && len(req.RawData) < 1<<24 && sent < 1<<31)
	task := vAny[*iscsiTask]("the task with the tag")
	vRequires(task == nil || task.tag == req.TaskTag && c11Task(task, sent))
	g := &c11Record{}
	c11Stubs(g, conn)
	vStub((taskQueue).GetByTag, func(q taskQueue, tag uint32) *iscsiTask {
		vEnsures("dataOut.is for the task with its tag", tag == req.TaskTag)
		return task
	})
	vStub((*taskQueue).RemoveByTag, func(q *taskQueue, tag uint32) *iscsiTask {
		vEnsures("dataOut.the task removed is that with its tag", q == &conn.session.PendingTasks && tag == req.TaskTag)
		g.removed++
		return task
	})
	vRequires(o >= 0 && o < len(other))
	was := other[o]
	if task == nil || task.r2tCount <= 0 {
		vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
			vEnsures("dataOut.data nothing waits for executes nothing", false)
			return nil
		})
		s.scsiCommandHandler(conn)
		vEnsures("dataOut.data nothing waits for changes nothing", other[o] == was && g.removed == 0 && g.r2ts == 0)
		vEnsures("dataOut.the next request is read after data nothing waits for", g.reads == 1 && g.sends == 0)
		return
	}
	buf, raw, off, missing := task.scmd.OutSDBBuffer.Buffer, req.RawData, task.offset, task.r2tCount
	vRequires(!vSameBacking(buf, raw) && !vSameBacking(buf, other))
	vRequires(i >= 0 && i < len(raw) && j >= 0 && j < len(buf) && (j < off || j >= off+len(raw)))
	byteI, byteJ := raw[i], buf[j]
	received := func() {
		vEnsures("dataOut.data is stored behind what came before it", off+i >= len(buf) || buf[off+i] == byteI)
		vEnsures("dataOut.no other byte of the buffer is changed", buf[j] == byteJ)
		vEnsures("dataOut.nothing else is changed", other[o] == was)
	}
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		g.executed++
		vEnsures("dataOut.the write is executed when its data is there", t == task && len(raw) >= missing && g.removed == 0)
		vEnsures("dataOut.the write is executed over its buffer", vSameBacking(task.scmd.OutSDBBuffer.Buffer, buf) && len(task.scmd.OutSDBBuffer.Buffer) == len(buf))
		received()
		return vAny[error]("execution")
	})
	s.scsiCommandHandler(conn)
	received()
	if len(raw) >= missing {
		vEnsures("dataOut.the write is executed once, without an R2T", g.executed == 1 && g.r2ts == 0)
		return
	}
	vEnsures("dataOut.the write is not executed while data is missing", g.executed == 0 && g.removed == 0)
	vEnsures("dataOut.the data received counts", task.r2tCount == missing-len(raw) && task.offset == off+len(raw) && vSameBacking(task.scmd.OutSDBBuffer.Buffer, buf))
	vEnsures("dataOut.an R2T is sent at the end of a burst", req.Final == (g.r2ts == 1) && (req.Final || g.r2ts == 0 && g.sends == 0))
	vEnsures("dataOut.an R2T goes out", !req.Final || g.sends == 1 && g.task == task)
	vEnsures("dataOut.R2Ts count from zero", c11Task(task, sent+uint32(g.r2ts)))
	vEnsures("dataOut.the next request is read", g.reads == 1)
}

// The R2T of a write that waits, the number sent before it being sent.
func contract_C11_r2t(conn *iscsiConnection, sent uint32) {
	vRequires(conn != nil && conn.req != nil && conn.rxTask != nil && conn.loginParam != nil && len(conn.loginParam.sessionParam) == ISCSI_PARAM_MAX)
	task := conn.rxTask
	max := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value
	vRequires(max >= 512 && max < 1<<24 && task.r2tCount > 0 && task.unsolCount == 0 && c11Task(task, sent+1) && task.tag == conn.req.TaskTag)
	off, missing := task.offset, task.r2tCount
	err := iscsiExecR2T(conn)
	r := conn.resp
	vEnsures("r2t.is built", err == nil && r != nil && r.OpCode == OpReady && r.Final)
	vEnsures("r2t.is for the task", r.TaskTag == task.tag)
	vEnsures("r2t.asks for what follows the data received", int(r.BufferOffset) == off)
	vEnsures("r2t.asks for some data", r.DesiredLength > 0)
	vEnsures("r2t.asks for no more than is missing", int(r.DesiredLength) <= missing)
	vEnsures("r2t.asks for no more than the maximum burst", int64(r.DesiredLength) <= int64(max))
	vEnsures("r2t.asks for as much as it may", int(r.DesiredLength) == missing || int64(r.DesiredLength) == int64(max))
	vEnsures("r2t.has the number of its R2T", r.R2TSN == sent)
	vEnsures("r2t.leaves the task as it is", task.offset == off && task.r2tCount == missing && conn.rxTask == task)
}

// The data of a request is what the connection delivered behind its header, without the padding.
func contract_C11_receive(s *ISCSITargetDriver, conn *iscsiConnection, pos, p0 int) {
	vRequires(s != nil && conn != nil && conn.readLock != nil && conn.loginParam != nil && conn.rxIOState == IOSTATE_RX_BHS && conn.state == CONN_STATE_SCSI)
	vRequires(len(conn.loginParam.sessionParam) == ISCSI_PARAM_MAX)
	vRequires(conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value&DIGEST_CRC32C == 0 && conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value&DIGEST_CRC32C == 0) // C12
	vRequires(pos >= 0)
	n := vAny[int]("length of the data")
	vRequires(n >= 0 && n < 1<<24) // C01
	incoming := vAny[[]byte]("the data behind the header")
	vRequires(len(incoming) == (n+3)/4*4)
	reads := 0
	vStub((*ISCSICommand).String, func(m *ISCSICommand) string { return "" })
	vStub(parseHeader, func(data []byte) (*ISCSICommand, error) {
		err := vAny[error]("header")
		if err != nil {
			return nil, err
		}
		return &ISCSICommand{OpCode: vAny[OpCode]("opcode"), DataLen: n}, nil
	})
	vStub((*iscsiConnection).readData, func(c *iscsiConnection, buf []byte) (int, error) {
		err := vAny[error]("read")
		if err != nil {
			return -1, err
		}
		if reads == 0 {
			vEnsures("receive.the header is read first", len(buf) == BHS_SIZE)
		} else {
			vEnsures("receive.the data is read next, with its padding", reads == 1 && len(buf) == len(incoming))
			copy(buf, incoming)
		}
		reads++
		return len(buf), nil
	})
	vInvariant("header first", func(cmd *ISCSICommand) bool {
		if conn.rxIOState == IOSTATE_RX_BHS {
			return reads == 0
		}
		return reads == 1 && cmd != nil && conn.req == cmd && cmd.DataLen == n && n > 0 && (conn.rxIOState == IOSTATE_RX_INIT_AHS || conn.rxIOState == IOSTATE_RX_DATA)
	})
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	vStub((*ISCSITargetDriver).scsiCommandHandler, func(d *ISCSITargetDriver, c *iscsiConnection) error {
		raw := conn.req.RawData
		vEnsures("receive.the data has its length, without the padding", len(raw) == n && conn.req.DataLen == n)
		if pos < n {
			vEnsures("receive.the data is as it was sent", raw[pos] == incoming[pos])
		}
		return vAny[error]("command")
	})
	s.rxHandler(conn)
}
