package iscsit

func c21Queue(q taskQueue) bool {
	return vForall(0, len(q), func(i int) bool { return q[i] != nil })
}

func c21Pending(q []*iscsiTask, tag uint32) bool {
	return vExists(0, len(q), func(i int) bool { return q[i].tag == tag })
}

// c21Removed: now is old without exactly one occurrence of r, the rest in the same order.
func c21Removed(old, now []*iscsiTask, r *iscsiTask) bool {
	return len(now) == len(old)-1 && vExists(0, len(old), func(p int) bool {
		return old[p] == r && vForall(0, p, func(k int) bool { return now[k] == old[k] }) &&
			vForall(p, len(now), func(k int) bool { return now[k] == old[k+1] })
	})
}

func contract_C21_GetByTag(q taskQueue, tag uint32) {
	vRequires(c21Queue(q))
	old := vSnap([]*iscsiTask(q))
	vInvariant("not found below i", func(i int) bool {
		return vForall(0, i, func(k int) bool { return old[k].tag != tag })
	})
	r := q.GetByTag(tag)
	if r == nil {
		vEnsures("GetByTag.none only if not pending", !c21Pending(old, tag))
	} else {
		vEnsures("GetByTag.the task has the tag and is pending", r.tag == tag && vExists(0, len(old), func(i int) bool { return old[i] == r }))
	}
	vEnsures("GetByTag.queue unchanged", sameTasks(old, q))
}

func contract_C21_RemoveByTag(q taskQueue, tag uint32) {
	vRequires(c21Queue(q))
	old := vSnap([]*iscsiTask(q))
	vInvariant("not found below i", func(i int) bool {
		return vForall(0, i, func(k int) bool { return old[k].tag != tag })
	})
	r := q.RemoveByTag(tag)
	if r == nil {
		vEnsures("RemoveByTag.none only if not pending", !c21Pending(old, tag))
		vEnsures("RemoveByTag.queue unchanged", sameTasks(old, q))
	} else {
		vEnsures("RemoveByTag.the task has the tag", r.tag == tag)
		vEnsures("RemoveByTag.exactly this one removed", c21Removed(old, q, r))
	}
}

func contract_C21_Push(q taskQueue, t *iscsiTask) {
	old := vSnap([]*iscsiTask(q))
	q.Push(t)
	vEnsures("Push.appended", len(q) == len(old)+1 && q[len(old)] == t && vForall(0, len(old), func(k int) bool { return q[k] == old[k] }))
}

func contract_C21_taskManagement(s *ISCSITargetDriver, task *iscsiTask) {
	vRequires(s != nil && task != nil && task.cmd != nil && task.conn != nil && task.conn.session != nil && task.conn.req != nil)
	vRequires(task.cmd.OpCode == OpSCSITaskReq && c21Queue(task.conn.session.PendingTasks))
	sess, fn, tag := task.conn.session, task.cmd.TaskFunc, task.cmd.ReferencedTaskTag
	old := vSnap([]*iscsiTask(sess.PendingTasks))
	tagged := func(i int) bool { return old[i].tag == tag }
	was := vExists(0, len(old), tagged)
	vInvariant("not found below i", func(i int) bool {
		return vForall(0, i, func(k int) bool { return old[k].tag != tag })
	})
	err := s.iscsiExecTask(task)
	now := sess.PendingTasks
	vEnsures("task management.is carried out", err == nil)
	resp := task.conn.resp
	vEnsures("task management.gets a task management response", resp != nil && resp.OpCode == OpSCSITaskResp && resp.Final && resp.TaskTag == task.conn.req.TaskTag)
	switch {
	case fn == 1 && was:
		vEnsures("ABORT TASK.complete if the task was pending", resp.Result == 0x00)
		vEnsures("ABORT TASK.the task is no longer pending", vExists(0, len(old), func(p int) bool {
			return old[p].tag == tag && c21Removed(old, now, old[p])
		}))
	case fn == 1:
		vEnsures("ABORT TASK.task does not exist if it was not pending", resp.Result == 0x01)
		vEnsures("ABORT TASK.the other tasks stay pending", sameTasks(old, now))
	case fn >= 2 && fn <= 8:
		vEnsures("task management.an unsupported function is answered so", resp.Result == 0x05)
		vEnsures("task management.unsupported functions leave the tasks alone", sameTasks(old, now))
	default:
		vEnsures("task management.an unknown function is rejected", resp.Result == 0xff)
		vEnsures("task management.unknown functions leave the tasks alone", sameTasks(old, now))
	}
}
