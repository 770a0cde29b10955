package scsi

import (
	"github.com/gostor/gotgt/pkg/api"
	uuid "github.com/satori/go.uuid"
)

// c17 is the state of a logical unit's reservations before a command: the registration of the requesting nexus and
// an arbitrary other one.
type c17 struct {
	lr     *SCSILUReservation
	list   []*api.SCSIReservation // the registrations
	n      int
	me     *api.SCSIReservation // that of the requesting nexus, if there is one
	other  *api.SCSIReservation // any other one, if there is one
	meWas  api.SCSIReservation
	othWas api.SCSIReservation
	cur    *api.SCSIReservation // the holder of the reservation, if there is one
	scope  byte
	typ    byte
	key    uint64
	sakey  uint64
	bad    bool // the parameter list is not one the target accepts
}

func c17Setup(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) *c17 {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vPR(op, t, lu))
	vRequires(cmd.SCB[0] == 0x5f)
	cmd.Target = t
	s := &c17{lr: vLURes(op, t, lu)}
	vRequires(s.lr != nil)
	s.list = vSnap(s.lr.Reservations)
	s.n = len(s.list)
	mine := func(k int) bool { return uuid.Equal(s.list[k].ITNexusID, cmd.ITNexusID) }
	vInvariant("the nexus not found so far", func(k int) bool { return vForall(0, k, func(j int) bool { return !mine(j) }) })
	if vExists(0, s.n, mine) {
		vAssume(i >= 0 && i < s.n && mine(i))
		s.me, s.meWas = s.list[i], *s.list[i]
	}
	if w >= 0 && w < s.n && s.list[w] != s.me {
		s.other, s.othWas = s.list[w], *s.list[w]
	}
	s.cur = s.lr.CurrentReservation
	if s.cur != nil {
		s.scope, s.typ = s.cur.Scope, s.cur.Type
	}
	b := cmd.OutSDBBuffer.Buffer
	if len(b) >= 24 {
		s.key, s.sakey = vBE(b, 0, 8), vBE(b, 8, 8)
	}
	s.bad = vBE(cmd.SCB, 7, 2) != 24 || len(b) < 24 || len(b) > 20 && b[20]&0x0d != 0
	return s
}

func (s *c17) holder() bool { return s.cur != nil && (s.cur == s.me || vAllReg(s.typ)) }

// kept: the registration p, which was old, is still there with its key.
func (s *c17) kept(p *api.SCSIReservation, old api.SCSIReservation) bool {
	return p == nil || vRegistered(s.lr, p) && p.Key == old.Key && p.ITNexusID == old.ITNexusID
}

func (s *c17) same(p *api.SCSIReservation, old api.SCSIReservation) bool {
	return p == nil || *p == old
}

func (s *c17) sameList() bool {
	l := s.lr.Reservations
	return len(l) == s.n && vForall(0, s.n, func(k int) bool { return l[k] == s.list[k] })
}

func (s *c17) sameReservation() bool {
	return s.lr.CurrentReservation == s.cur && (s.cur == nil || s.cur.Scope == s.scope && s.cur.Type == s.typ)
}

func (s *c17) unchanged() bool {
	return s.sameList() && s.same(s.me, s.meWas) && s.same(s.other, s.othWas) && s.sameReservation()
}

func (s *c17) outcome(name string, cmd *api.SCSICommand, r api.SAMStat) {
	vEnsures(name+".the registrations stay consistent", vPRList(s.lr))
	vEnsures(name+".changes nothing when it fails", r.Stat == api.SAM_STAT_GOOD || s.unchanged())
	vEnsures(name+".fails with RESERVATION CONFLICT or CHECK CONDITION", r.Stat == api.SAM_STAT_GOOD || r.Stat == api.SAM_STAT_RESERVATION_CONFLICT ||
		r.Stat == api.SAM_STAT_CHECK_CONDITION && cmd.SenseBuffer != nil)
}

func contract_C17_Register(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	ignore := cmd.SCB[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY
	may := ignore || s.me != nil && s.key == s.meWas.Key || s.me == nil && s.key == 0
	vStub((*SCSISimpleReservationOperator).DeleteAndRemoveReservation, vDelete)
	r := SPCPRRegister(0, cmd)
	s.outcome("REGISTER", cmd, r)
	vEnsures("REGISTER.a malformed one ends in CHECK CONDITION", !s.bad || r.Stat == api.SAM_STAT_CHECK_CONDITION)
	vEnsures("REGISTER.only with the right key", s.bad || (r.Stat == api.SAM_STAT_GOOD) == may)
	vEnsures("REGISTER.a wrong key is a RESERVATION CONFLICT", s.bad || may || r.Stat == api.SAM_STAT_RESERVATION_CONFLICT)
	if r.Stat != api.SAM_STAT_GOOD {
		return
	}
	l := s.lr.Reservations
	vEnsures("REGISTER.leaves every other registration alone", s.kept(s.other, s.othWas))
	switch {
	case s.me == nil && s.sakey == 0:
		vEnsures("REGISTER.unregistering nobody changes nothing", s.unchanged())
	case s.me == nil:
		vEnsures("REGISTER.adds one registration", len(l) == s.n+1 && vForall(0, s.n, func(k int) bool { return l[k] == s.list[k] }))
		vEnsures("REGISTER.adds the key of the requesting nexus", len(l) == s.n+1 && l[s.n].Key == s.sakey && l[s.n].ITNexusID == cmd.ITNexusID)
		vEnsures("REGISTER.adding leaves the reservation alone", s.sameReservation() && s.same(s.other, s.othWas))
	case s.sakey != 0:
		vEnsures("REGISTER.sets the new key", s.me.Key == s.sakey)
		vEnsures("REGISTER.setting a key leaves the rest alone", s.sameList() && s.sameReservation() && s.same(s.other, s.othWas))
	default:
		vEnsures("REGISTER.removes exactly the requesting nexus", len(l) == s.n-1 && !vRegistered(s.lr, s.me))
		switch {
		case s.cur != s.me:
			vEnsures("REGISTER.unregistering another than the holder leaves the reservation alone", s.sameReservation())
		case vAllReg(s.typ) && s.n > 1:
			c := s.lr.CurrentReservation
			vEnsures("REGISTER.an all-registrants reservation outlives a registrant", c != nil && vRegistered(s.lr, c) && c.Type == s.typ && c.Scope == s.scope)
		default:
			vEnsures("REGISTER.unregistering the holder ends the reservation", s.lr.CurrentReservation == nil)
		}
	}
}

func contract_C17_Reserve(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	scope, typ := cmd.SCB[2]>>4, cmd.SCB[2]&0x0f
	bad := s.bad || scope != PR_LU_SCOPE || typ < PR_TYPE_WRITE_EXCLUSIVE_REGONLY || typ > PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
	may := s.me != nil && s.meWas.Key == s.key && (s.cur == nil || s.holder() && s.typ == typ && s.scope == scope)
	r := SPCPRReserve(0, cmd)
	s.outcome("RESERVE", cmd, r)
	vEnsures("RESERVE.a malformed one ends in CHECK CONDITION", !bad || r.Stat == api.SAM_STAT_CHECK_CONDITION)
	vEnsures("RESERVE.only for a registrant with its key, if nobody else holds it", bad || (r.Stat == api.SAM_STAT_GOOD) == may)
	vEnsures("RESERVE.leaves the registrations alone", s.sameList() && s.kept(s.me, s.meWas) && s.same(s.other, s.othWas))
	if r.Stat == api.SAM_STAT_GOOD {
		vEnsures("RESERVE.the requesting nexus holds it", s.lr.CurrentReservation == s.me && s.me != nil && s.me.Type == typ && s.me.Scope == scope)
	}
}

func contract_C17_Release(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	scope, typ := cmd.SCB[2]>>4, cmd.SCB[2]&0x0f
	vRequires(s.cur == nil || s.typ >= PR_TYPE_WRITE_EXCLUSIVE_REGONLY && s.typ <= PR_TYPE_EXCLUSIVE_ACCESS_ALLREG && s.scope == PR_LU_SCOPE)
	r := SPCPRRelease(0, cmd)
	s.outcome("RELEASE", cmd, r)
	vEnsures("RELEASE.a malformed one ends in CHECK CONDITION", !s.bad || r.Stat == api.SAM_STAT_CHECK_CONDITION)
	may := s.me != nil && s.meWas.Key == s.key
	fits := !s.holder() || s.typ == typ && s.scope == scope
	vEnsures("RELEASE.only by a registrant with its key", s.bad || (r.Stat == api.SAM_STAT_GOOD) == (may && fits))
	vEnsures("RELEASE.another type or scope is a CHECK CONDITION", s.bad || !may || fits || r.Stat == api.SAM_STAT_CHECK_CONDITION)
	vEnsures("RELEASE.leaves the registrations alone", s.sameList() && s.kept(s.me, s.meWas) && s.kept(s.other, s.othWas))
	if r.Stat == api.SAM_STAT_GOOD {
		vEnsures("RELEASE.ends the reservation of a holder", !s.holder() || s.lr.CurrentReservation == nil)
		vEnsures("RELEASE.by another changes nothing", s.holder() || s.unchanged())
	}
}

func contract_C17_Clear(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	may := s.me != nil && s.meWas.Key == s.key
	r := SPCPRClear(0, cmd)
	s.outcome("CLEAR", cmd, r)
	vEnsures("CLEAR.a malformed one ends in CHECK CONDITION", !s.bad || r.Stat == api.SAM_STAT_CHECK_CONDITION)
	vEnsures("CLEAR.only by a registrant with its key", s.bad || (r.Stat == api.SAM_STAT_GOOD) == may)
	vEnsures("CLEAR.removes every registration and the reservation", r.Stat != api.SAM_STAT_GOOD || len(s.lr.Reservations) == 0 && s.lr.CurrentReservation == nil)
}

func contract_C17_RegisterAndMove(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	vInvariant("no such key so far", func(k int) bool { return vForall(0, k, func(j int) bool { return s.list[j].Key != s.sakey }) })
	vInvariant("the mover not found so far", func(k int) bool { return vForall(0, k+1, func(j int) bool { return s.list[j] != s.me }) })
	known := vExists(0, s.n, func(k int) bool { return s.list[k].Key == s.sakey })
	unreg := len(cmd.OutSDBBuffer.Buffer) > 17 && cmd.OutSDBBuffer.Buffer[17]&0x02 != 0
	r := SPCPRRegisterAndMove(0, cmd)
	s.outcome("REGISTER AND MOVE", cmd, r)
	if r.Stat == api.SAM_STAT_GOOD {
		c := s.lr.CurrentReservation
		vEnsures("REGISTER AND MOVE.only by a holder with its key, to a registrant", s.me != nil && s.meWas.Key == s.key && s.holder() && s.sakey != 0 && known)
		vEnsures("REGISTER AND MOVE.moves the reservation to the key named", c != nil && c.Key == s.sakey && c.Type == s.typ && c.Scope == s.scope)
		vEnsures("REGISTER AND MOVE.leaves other registrations alone", s.kept(s.other, s.othWas))
		vEnsures("REGISTER AND MOVE.unregisters the mover only if told to", unreg && c != s.me || s.sameList() && s.kept(s.me, s.meWas))
		vEnsures("REGISTER AND MOVE.unregisters the mover if told to", !unreg || c == s.me || len(s.lr.Reservations) == s.n-1 && !vRegistered(s.lr, s.me))
	}
}

func contract_C17_Delete(t *api.SCSITarget, lu *api.SCSILu, op *SCSISimpleReservationOperator, p *api.SCSIReservation, i, w int) {
	vRequires(lu != nil && vPR(op, t, lu))
	lr := vLURes(op, t, lu)
	vRequires(lr != nil)
	l := lr.Reservations
	list := vSnap(l)
	n := len(l)
	there := vExists(0, n, func(k int) bool { return l[k] == p })
	if there {
		vAssume(i >= 0 && i < n && l[i] == p)
	}
	cur := lr.CurrentReservation
	var was api.SCSIReservation
	if cur != nil {
		was = *cur
	}
	var other *api.SCSIReservation
	var othWas api.SCSIReservation
	if w >= 0 && w < n && list[w] != cur {
		other, othWas = list[w], *list[w]
	}
	gen := lr.PRGeneration
	vInvariant("not found so far", func(k int) bool { return vForall(0, k+1, func(j int) bool { return list[j] != p }) })
	op.DeleteAndRemoveReservation(t.Name, lu.UUID, p)
	now := lr.Reservations
	if there {
		vEnsures("removal.one registration less", len(now) == n-1)
		vEnsures("removal.the others stay, the last one in its place", len(now) == n-1 && vForall(0, n-1, func(k int) bool {
			if k == i {
				return now[k] == list[n-1]
			}
			return now[k] == list[k]
		}))
		vEnsures("removal.in place", vSameBacking(l, now) && l[n-1] == nil)
	} else {
		vEnsures("removal.of none changes nothing", len(now) == n && vForall(0, n, func(k int) bool { return now[k] == list[k] }))
	}
	if cur == nil || cur != p {
		vEnsures("removal.of another than the holder leaves the reservation", lr.CurrentReservation == cur && (cur == nil || *cur == was) && lr.PRGeneration == gen)
		vEnsures("removal.of another than the holder leaves the registrations' contents", other == nil || *other == othWas)
		return
	}
	vEnsures("removal.of the holder is a new generation", lr.PRGeneration == gen+1)
	if vAllReg(was.Type) && len(now) > 0 {
		vEnsures("removal.the next registrant holds the reservation", lr.CurrentReservation == now[0] && now[0].Type == was.Type && now[0].Scope == was.Scope)
		vEnsures("removal.the holder's registration keeps its contents", *cur == was)
		if other != nil && other != now[0] {
			vEnsures("removal.the other registrations keep their contents", *other == othWas)
		}
		if other != nil && other == now[0] {
			othWas.Type, othWas.Scope = was.Type, was.Scope
			vEnsures("removal.the next registrant keeps its key", *other == othWas)
		}
		return
	}
	vEnsures("removal.ends the reservation", lr.CurrentReservation == nil)
	was.Type, was.Scope = 0, 0
	vEnsures("removal.clears the holder's type", *cur == was)
	vEnsures("removal.ends the reservation and changes no other registration", other == nil || *other == othWas)
}

func contract_C17_Preempt(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	scope, typ := cmd.SCB[2]>>4, cmd.SCB[2]&0x0f
	vStub((*SCSISimpleReservationOperator).GetReservation, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, n uuid.UUID) *api.SCSIReservation {
		vEnsures("PREEMPT.looks up the requesting nexus", o == op && tgt == t.Name && dev == lu.UUID && n == cmd.ITNexusID)
		return s.me
	})
	vStub((*SCSISimpleReservationOperator).IsKeyExists, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, key uint64) bool {
		vEnsures("PREEMPT.looks up the key in the registrations", o == op && tgt == t.Name && dev == lu.UUID && key == s.sakey)
		return vExists(0, s.n, func(k int) bool { return s.list[k].Key == s.sakey })
	})
	all := s.cur != nil && vAllReg(s.typ) && s.sakey == 0
	wins := all || s.cur != nil && !vAllReg(s.typ) && s.cur.Key == s.sakey
	gone := func(p *api.SCSIReservation) bool { return p != s.me && (all || p.Key == s.sakey) }
	otherGone := false
	vStub((*SCSISimpleReservationOperator).DeleteAndRemoveReservation, func(o *SCSISimpleReservationOperator, tgt string, dev uint64, p *api.SCSIReservation) {
		vEnsures("PREEMPT.removes from the registrations of the logical unit", o == op && tgt == t.Name && dev == lu.UUID)
		vEnsures("PREEMPT.removes the registrations named only", p != nil && gone(p))
		vEnsures("PREEMPT.ends no reservation but an all-registrants one", p != s.lr.CurrentReservation || vAllReg(s.typ) && !wins)
		if p == s.other {
			otherGone = true
		}
	})
	vInvariant("the removed registrations", func(k int) bool { return s.other == nil || otherGone == (w < k && gone(s.other)) })
	r := SPCPRPreempt(0, cmd)
	s.outcome("PREEMPT", cmd, r)
	if r.Stat != api.SAM_STAT_GOOD {
		vEnsures("PREEMPT.removes nothing when refused", !otherGone)
		return
	}
	vEnsures("PREEMPT.only by a registrant with its key", s.me != nil && s.meWas.Key == s.key)
	vEnsures("PREEMPT.removes the registrations named and no other", s.other == nil || otherGone == gone(s.other))
	c := s.lr.CurrentReservation
	if wins {
		vEnsures("PREEMPT.takes the reservation over", c == s.me && c != nil && c.Type == typ && c.Scope == scope)
	} else {
		vEnsures("PREEMPT.takes no other reservation over", c == s.cur && (c == nil || c.Type == s.typ && c.Scope == s.scope))
	}
}

// Looking up a nexus or a key.
func contract_C17_Lookup(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget, op *SCSISimpleReservationOperator, i, w int) {
	s := c17Setup(cmd, lu, st, t, op, i, w)
	key := vAny[uint64]("key")
	vInvariant("no such key so far", func(k int) bool { return vForall(0, k, func(j int) bool { return s.list[j].Key != key }) })
	vEnsures("look-up.finds the registration of the nexus", op.GetReservation(t.Name, lu.UUID, cmd.ITNexusID) == s.me)
	vEnsures("look-up.finds the key", op.IsKeyExists(t.Name, lu.UUID, key) == vExists(0, s.n, func(k int) bool { return s.list[k].Key == key }))
	vEnsures("look-up.changes nothing", s.unchanged())
}
