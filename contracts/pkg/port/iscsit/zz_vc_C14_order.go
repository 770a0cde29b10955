package iscsit

func c14In(q []*iscsiTask, t *iscsiTask) bool {
	return vExists(0, len(q), func(i int) bool { return q[i] == t })
}

// c14Ready: it is the turn of the pending task, and it does not wait for data (a task that does has had its turn).
func c14Ready(t *iscsiTask, cmdSN uint32) bool { return t.cmd.CmdSN == cmdSN && t.r2tCount <= 0 }

// c14Queue: what the queue handling relies on: the tasks are there and are different tasks.
func c14Queue(q []*iscsiTask) bool {
	return vForall(0, len(q), func(i int) bool { return q[i] != nil && q[i].cmd != nil }) &&
		vForall(0, len(q), func(i int) bool { return vForall(0, i, func(j int) bool { return q[i] != q[j] }) })
}

func contract_C14_removeNext(q taskQueue, sn uint32, x *iscsiTask, a, b int) {
	vRequires(c14Queue(q) && x != nil && x.cmd != nil)
	old := vSnap([]*iscsiTask(q))
	vInvariant("not found", func(j int) bool {
		return vForall(0, j, func(i int) bool { return !c14Ready(old[i], sn) })
	})
	vInvariant("not found, this one included", func(j int) bool {
		return vForall(0, j+1, func(i int) bool { return !c14Ready(old[i], sn) })
	})
	vAssert("removeNext.the tasks are different tasks before", c14Queue(old))
	r := q.removeNext(sn)
	was := vExists(0, len(old), func(i int) bool { return old[i] == x })
	in := vExists(0, len(q), func(i int) bool { return q[i] == x })
	if r == nil {
		vEnsures("removeNext.nothing is taken only if nothing is ready", sameTasks(old, q) && (!was || !c14Ready(x, sn)))
		return
	}
	p := vWitness("removeNext.exactly one is removed", 0, len(old), func(p int) bool {
		return old[p] == r && len(q) == len(old)-1 && vForall(0, p, func(k int) bool { return q[k] == old[k] }) &&
			vForall(p, len(q), func(k int) bool { return q[k] == old[k+1] })
	})
	vEnsures("removeNext.takes a task that is ready", r.cmd != nil && c14Ready(r, sn))
	vEnsures("removeNext.the task taken waited and waits no more", x != r || was && !in)
	vEnsures("removeNext.every other task goes on waiting", x == r || was == in)
	if a < 0 || a >= b || b >= len(q) { // any two places in the queue
		return
	}
	at := func(k int) int {
		if k < p {
			return k
		}
		return k + 1
	}
	vAssert("removeNext.two tasks of before", at(a) >= 0 && at(a) < at(b) && at(b) < len(old))
	vAssert("removeNext.two different tasks of before", old[at(a)] != old[at(b)])
	vAssert("removeNext.the first of two tasks is one of before", q[a] == old[at(a)])
	vAssert("removeNext.the second of two tasks is one of before", q[b] == old[at(b)])
	vEnsures("removeNext.the tasks are there", len(q) == len(old)-1 && q[a] != nil && q[b] != nil && q[a].cmd != nil && q[b].cmd != nil)
	vEnsures("removeNext.the tasks are different tasks", q[a] != q[b])
}

// Executing a task is replaced by a record of it. x is any task: what holds for it holds for each.
func contract_C14_queue(s *ISCSITargetDriver, task, x *iscsiTask) {
	vRequires(s != nil && task != nil && task.cmd != nil && task.conn != nil && task.conn.session != nil && x != nil && x.cmd != nil)
	sess := task.conn.session
	vRequires(c14Queue(sess.PendingTasks) && !c14In(sess.PendingTasks, task) && task.r2tCount <= 0)
	exp0, sn, n0 := sess.ExpCmdSN, task.cmd.CmdSN, len(sess.PendingTasks)
	old := vSnap([]*iscsiTask(sess.PendingTasks))
	was, xsn, xr2t := c14In(sess.PendingTasks, x), x.cmd.CmdSN, x.r2tCount
	k, kx, started := uint32(0), 0, false // commands executed, x among them
	vStub((*ISCSITargetDriver).iscsiExecTask, func(d *ISCSITargetDriver, t *iscsiTask) error {
		if !started {
			vEnsures("order.the command received is executed first", t == task)
		} else {
			vEnsures("order.only a command that waits for its turn is executed after it", t != nil && t.r2tCount <= 0 && !task.cmd.Immediate)
		}
		vEnsures("order.commands are executed in the order of their CmdSN", task.cmd.Immediate || t.cmd.CmdSN == exp0+k)
		vEnsures("order.the expected CmdSN goes on by one with each", task.cmd.Immediate && sess.ExpCmdSN == exp0 || sess.ExpCmdSN == exp0+k+1)
		k, started = k+1, true
		if t == x {
			kx++
		}
		return vAny[error]("execution")
	})
	vInvariant("the queue", func() bool {
		return c14Queue(sess.PendingTasks) && !c14In(sess.PendingTasks, task) && len(sess.PendingTasks) <= n0
	})
	vInvariant("commands executed", func() bool { return started && sess.ExpCmdSN == exp0+k })
	vInvariant("the task is executed once, or waits", func() bool {
		in := c14In(sess.PendingTasks, x)
		return kx == 0 && in == was && x != task || kx == 1 && !in && (was || x == task)
	})
	vStub((*taskQueue).removeNext, func(q *taskQueue, sn uint32) *iscsiTask {
		old, xIn, taskIn := *q, c14In(*q, x), c14In(*q, task)
		vEnsures("order.the pending tasks are different tasks", c14Queue(old))
		r := vAny[*iscsiTask]("the task whose turn it is")
		if r == nil {
			vGiven("C14_removeNext", (!xIn || !c14Ready(x, sn)) && (!taskIn || !c14Ready(task, sn)))
			return nil
		}
		now := vAny[taskQueue]("the queue")
		vGiven("C14_removeNext", r.cmd != nil && c14Ready(r, sn) && c14Queue(now) && len(now) == len(old)-1)
		vGiven("C14_removeNext", (x == r && xIn && !c14In(now, x)) || (x != r && xIn == c14In(now, x)))
		vGiven("C14_removeNext", (task == r && taskIn && !c14In(now, task)) || (task != r && taskIn == c14In(now, task)))
		*q = now
		return r
	})
	err := s.iscsiTaskQueueHandler(task)
	in := c14In(sess.PendingTasks, x)
	vEnsures("order.keeps the commands as they are", x.cmd.CmdSN == xsn && x.r2tCount == xr2t)
	switch {
	case task.cmd.Immediate:
		vEnsures("immediate.is executed at once, alone", started && k == 1 && (x == task) == (kx == 1))
		vEnsures("immediate.leaves the expected CmdSN and the pending tasks", sess.ExpCmdSN == exp0 && sameTasks(old, sess.PendingTasks))
	case sn == exp0:
		vEnsures("expected.is executed", err == nil && started && (x != task || kx == 1))
		vEnsures("expected.the expected CmdSN goes on by one for each command executed", sess.ExpCmdSN == exp0+k)
		vEnsures("expected.a pending command is executed once or goes on waiting", x == task || (kx == 1 && was && !in) || (kx == 0 && in == was))
		vEnsures("expected.no pending command whose turn has come is left", !in || !c14Ready(x, sess.ExpCmdSN))
	case int32(sn-exp0) < 0:
		vEnsures("behind.is not executed", err != nil && !started && !c14In(sess.PendingTasks, task))
		vEnsures("behind.leaves the expected CmdSN and the pending tasks", sess.ExpCmdSN == exp0 && sameTasks(old, sess.PendingTasks))
	default:
		vEnsures("ahead.is not executed but kept pending", err != nil && !started && c14In(sess.PendingTasks, task) && task.state == taskPending)
		q := sess.PendingTasks
		vEnsures("ahead.leaves the expected CmdSN and the other pending tasks", sess.ExpCmdSN == exp0 && len(q) == n0+1 && sameTasks(old, q[:n0]) && q[n0] == task)
	}
}

// A command that comes in is given to the queue, unless it is a write that has to wait for its data.
func contract_C14_command(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.session != nil && conn.session.ITNexus != nil)
	req, sess := conn.req, conn.session
	vRequires(req.OpCode == OpSCSICmd && !(req.Read && req.Write))
	vRequires(len(sess.SessionParam) == ISCSI_PARAM_MAX && req.DataLen >= 0 && len(sess.PendingTasks) < 1<<30)
	exp0, n0 := sess.ExpCmdSN, len(sess.PendingTasks)
	old := vSnap([]*iscsiTask(sess.PendingTasks))
	queued, drained, ready := 0, 0, 0
	vStub((*ISCSITargetDriver).handler, func(d *ISCSITargetDriver, events byte, c *iscsiConnection) {})
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, task *iscsiTask) error {
		if oc == OpReady {
			ready++
		}
		return vAny[error]("response")
	})
	vStub((*ISCSITargetDriver).iscsiTaskQueueHandler, func(d *ISCSITargetDriver, t *iscsiTask) error {
		vEnsures("command.goes to the queue with its number", t != nil && t.conn == conn && t.cmd == req && t.tag == req.TaskTag && t.scmd != nil)
		vEnsures("command.does not wait for data in the queue", t.r2tCount <= 0)
		vEnsures("command.ExpCmdSN is up to the queue", sess.ExpCmdSN == exp0 && sameTasks(old, sess.PendingTasks))
		queued++
		return vAny[error]("execution")
	})
	vStub((*ISCSITargetDriver).iscsiExecPendingTasks, func(d *ISCSITargetDriver, ss *ISCSISession) {
		q := sess.PendingTasks
		vEnsures("waiting.the commands that follow may go on", ss == sess && drained == 0 && queued == 0)
		vEnsures("waiting.it is kept for its data", len(q) == n0+1 && q[n0] != nil && q[n0].cmd == req && q[n0].conn == conn && q[n0].r2tCount > 0 && q[n0].tag == req.TaskTag)
		vEnsures("waiting.ExpCmdSN goes on by one", sess.ExpCmdSN == exp0+1 && req.CmdSN == exp0 && !req.Immediate || sess.ExpCmdSN == exp0 && req.Immediate)
		drained++
	})
	got := 0 // immediate data counts only if it was agreed on
	if sess.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
		got = req.DataLen
	}
	waits := req.Write && int(req.ExpectedDataLen) > got
	s.scsiCommandHandler(conn)
	if waits {
		vEnsures("waiting.is not executed", queued == 0)
		vEnsures("waiting.only if it is its turn", (drained == 1) == (req.Immediate || req.CmdSN == exp0))
		if drained == 0 {
			vEnsures("waiting.out of turn it has no effect", sess.ExpCmdSN == exp0 && sameTasks(old, sess.PendingTasks) && ready == 0)
		}
	} else {
		vEnsures("command.is queued once", queued == 1 && drained == 0)
	}
}
