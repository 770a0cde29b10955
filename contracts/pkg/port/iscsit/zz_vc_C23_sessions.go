package iscsit

import "net"
import "strings"

// The targets of a driver: each under its own name, numbered apart (names[TID] is its name), its sessions each under
// its own handle, which is taken in the pool.
func c23Driver(s *ISCSITargetDriver, names []string) {
	vRequires(s != nil && s.iSCSITargets != nil && c13Pool(s) && len(names) == 0xffff)
	vRequires(vAll(func(n string) bool {
		t, ok := s.iSCSITargets[n]
		return !ok || t != nil && t.SCSITarget.Name == n && 0 <= t.TID && t.TID < 0xffff && names[t.TID] == n &&
			t.Sessions != nil && t.SCSITarget.ITNexus != nil
	}))
	vRequires(vAll(func(n string) bool {
		return vAll(func(h uint16) bool {
			t, ok := s.iSCSITargets[n]
			if !ok {
				return true
			}
			sess, ok := t.Sessions[h]
			return !ok || sess != nil && h != 0 && sess.TSIH == h && sess.Target == t && s.TSIHPool[h] && sess.Connections != nil
		})
	}))
}

type c23Search struct {
	tgt  *ISCSITarget
	tpgt uint16
	err  error
	done bool
}

func contract_C23_BindISCSISession(s *ISCSITargetDriver, conn *iscsiConnection, names []string, n2 string, h2 uint16, c2 uint16) {
	c23Driver(s, names)
	vRequires(conn != nil && conn.conn != nil && conn.loginParam != nil && conn.session == nil)
	p := conn.loginParam
	vRequires(len(p.sessionParam) == ISCSI_PARAM_MAX)
	vRequires(p.sessionType == SESSION_NORMAL || p.sessionType == SESSION_DISCOVERY)
	vRequires(SESSION_NORMAL != SESSION_DISCOVERY)
	wanted := p.target
	tgt, known := s.iSCSITargets[wanted]
	var old *ISCSISession
	var exists bool
	if known {
		old, exists = tgt.Sessions[p.tsih]
		if exists {
			// the connections of a session belong to it, and are not the one that logs in
			vRequires(vAll(func(c uint16) bool {
				x, ok := old.Connections[c]
				return !ok || x != nil && x != conn && x.session == old && x.conn != nil
			}))
		}
	}
	t2, ok2 := s.iSCSITargets[n2]
	vRequires(ok2 && (!known || t2 == tgt || !vSameRef(t2.Sessions, tgt.Sessions)))
	was, have := t2.Sessions[h2]
	isid, tpgt2, ini, tsih2 := uint64(0), uint16(0), "", uint16(0)
	var conn2 *iscsiConnection
	if have {
		isid, tpgt2, ini, tsih2 = was.ISID, was.TPGT, was.Initiator, was.TSIH
		conn2 = was.Connections[c2]
		vRequires(!exists || was == old || !vSameRef(was.Connections, old.Connections))
	}
	g := &c23Search{tpgt: vAny[uint16]("portal group"), err: vAny[error]("portal error")}
	vStub((*ISCSITarget).FindTPG, func(t *ISCSITarget, portal string) (uint16, error) {
		g.tgt, g.done = t, true
		if g.err != nil {
			return 0, g.err
		}
		return g.tpgt, nil
	})
	wasTaken := s.TSIHPool[h2]
	vStub((*ISCSITargetDriver).AllocTSIH, func(d *ISCSITargetDriver) uint16 {
		h := vAny[uint16]("handle")
		vAssume(h != 0xffff && (h == 0 || !d.TSIHPool[h]))
		if h != 0 {
			d.TSIHPool[h] = true
		}
		return h
	})
	vInvariant("targets visited have other names", func() bool {
		x, ok := s.iSCSITargets[wanted]
		return !ok || !vVisited(s.iSCSITargets, wanted) || x.SCSITarget.Name != wanted
	})
	vInvariant("targets visited have other numbers", func() bool {
		x, ok := s.iSCSITargets[wanted]
		return !ok || !vVisited(s.iSCSITargets, wanted) || x.TID != conn.tid
	})
	isid0, tsih0, cid0, ini0 := p.isid, p.tsih, conn.cid, p.initiator
	err := s.BindISCSISession(conn)
	vEnsures("the login's identity stays", p.isid == isid0 && p.tsih == tsih0 && conn.cid == cid0 && p.initiator == ini0 && p.target == wanted)
	now, has := t2.Sessions[h2]
	if has && have {
		vEnsures("no session changes its identity", now != was || was.ISID == isid && was.TPGT == tpgt2 && was.Initiator == ini && was.TSIH == tsih2)
	}
	sess := conn.session
	if err != nil {
		vEnsures("a refused login joins no session", sess == nil)
		vEnsures("a refused login changes no session table", has == have && now == was)
		if have {
			vEnsures("a refused login changes no session's connections", was.Connections[c2] == conn2)
		}
		return
	}
	vEnsures("a login is in a session", sess != nil)
	if p.sessionType == SESSION_NORMAL {
		vEnsures("a login to an unknown target is refused", known)
		vEnsures("a login to an unknown portal is refused", g.done && g.tgt == tgt && g.err == nil)
		vEnsures("the portal group is that of the portal", p.tpgt == g.tpgt)
	}
	if tsih0 != 0 {
		vEnsures("a handle that does not exist is refused", exists && sess == old)
		vEnsures("a session is joined by its own identity only", old.ISID == isid0 && old.TPGT == p.tpgt && old.TSIH == tsih0 && old.Initiator == ini0)
		vEnsures("a discovery login joins no session", p.sessionType == SESSION_NORMAL)
		vEnsures("joining changes no session table", has == have && now == was)
		vEnsures("the connection takes its place in the session", old.Connections[cid0] == conn)
		if have && (was != old || c2 != cid0) {
			vEnsures("other connections stay", was.Connections[c2] == conn2)
		}
		return
	}
	vEnsures("a new session has an unused handle", sess.TSIH != 0 && (sess.TSIH != h2 || !wasTaken))
	vEnsures("a new session has the identity of the login", sess.ISID == isid0 && sess.TPGT == p.tpgt && sess.Initiator == ini0 && sess.SessionType == p.sessionType)
	vEnsures("a new session has the parameters of the login", vSameBacking(sess.SessionParam, p.sessionParam) && len(sess.SessionParam) == len(p.sessionParam) &&
		sess.MaxQueueCommand == uint32(p.sessionParam[ISCSI_PARAM_MAX_QUEUE_CMD].Value) && sess.ExpCmdSN == conn.expCmdSN)
	vEnsures("a new session has its connection", sess.Connections[cid0] == conn)
	if p.sessionType == SESSION_NORMAL {
		vEnsures("a new session belongs to its target", sess.Target == tgt)
		vEnsures("a new session is recorded under its handle", tgt.Sessions[sess.TSIH] == sess)
		if t2 != tgt || h2 != sess.TSIH {
			vEnsures("no other session is recorded or lost", has == have && now == was)
		}
	} else {
		vEnsures("a discovery session is recorded nowhere", has == have && now == was)
	}
	if have {
		vEnsures("other sessions keep their connections", was.Connections[c2] == conn2)
	}
}

// A portal belongs to a portal group exactly if it is listed there (letter case aside).
func contract_C23_FindTPG(tgt *ISCSITarget, portal string, n uint16, p string) {
	vRequires(tgt != nil && tgt.TPGTs != nil)
	vRequires(vAll(func(k uint16) bool {
		x, ok := tgt.TPGTs[k]
		return !ok || x != nil && x.Portals != nil
	}))
	vInvariant("groups visited do not have it", func() bool {
		if !vVisited(tgt.TPGTs, n) {
			return true
		}
		_, in := tgt.TPGTs[n].Portals[p]
		return !in || !strings.EqualFold(portal, p)
	})
	vInvariant("portals visited are others", func() bool {
		return !vVisited(tgt.TPGTs[n].Portals, p) || !strings.EqualFold(portal, p)
	})
	g, ok := tgt.TPGTs[n]
	listed := false
	if ok {
		_, listed = g.Portals[p]
	}
	r, err := tgt.FindTPG(portal)
	if err != nil {
		vEnsures("a listed portal is found", !listed || !strings.EqualFold(portal, p))
		return
	}
	x, ok := tgt.TPGTs[r]
	vEnsures("the group exists", ok)
	vEnsures("the group lists the portal", !vAll(func(q string) bool {
		_, in := x.Portals[q]
		return !in || !strings.EqualFold(portal, q)
	}))
}

var _ net.Conn
