package scsi

import (
	"github.com/gostor/gotgt/pkg/api"
	uuid "github.com/satori/go.uuid"
)

// vLURes is the reservation state of a logical unit of a target, nil when it has none.
func vLURes(op *SCSISimpleReservationOperator, t *api.SCSITarget, lu *api.SCSILu) *SCSILUReservation {
	return op.targetReservations[t.Name][lu.UUID]
}

func vRegistered(lr *SCSILUReservation, p *api.SCSIReservation) bool {
	return vExists(0, len(lr.Reservations), func(i int) bool { return lr.Reservations[i] == p })
}

// vPR: the reservation operator is op, and the state it holds for the logical unit is consistent: registrations
// are present and of different nexuses, and the reservation holder is one of them.
func vPR(op *SCSISimpleReservationOperator, t *api.SCSITarget, lu *api.SCSILu) bool {
	if op == nil || t == nil {
		return false
	}
	onePROperator = op
	m, ok := op.targetReservations[t.Name]
	if !ok {
		return true
	}
	lr, ok := m[lu.UUID]
	if !ok {
		return true
	}
	return lr != nil && vPRList(lr)
}

func vPRList(lr *SCSILUReservation) bool {
	l := lr.Reservations
	return vForall(0, len(l), func(i int) bool { return l[i] != nil }) &&
		vForall(0, len(l), func(i int) bool {
			return vForall(0, i, func(j int) bool { return l[i] != l[j] && !uuid.Equal(l[i].ITNexusID, l[j].ITNexusID) })
		}) &&
		(lr.CurrentReservation == nil || vRegistered(lr, lr.CurrentReservation))
}

// vDelete is the contract of DeleteAndRemoveReservation: the registration p, if it is one, is removed, the last
// one taking its place; a reservation it held ends, or passes to another registration when all registrants hold it.
// DeleteAndRemoveReservation is verified against it (C17_Delete), and its callers are verified with it in its place.
func vDelete(op *SCSISimpleReservationOperator, tgt string, dev uint64, p *api.SCSIReservation) {
	lr := op.targetReservations[tgt][dev]
	if lr == nil {
		return
	}
	l := lr.Reservations
	n := len(l)
	if vExists(0, n, func(i int) bool { return l[i] == p }) {
		i := vAny[int]("where the registration is")
		vAssume(i >= 0 && i < n && l[i] == p)
		l[i] = l[n-1]
		l[n-1] = nil
		lr.Reservations = l[:n-1]
	}
	cur := lr.CurrentReservation
	if cur == nil || cur != p {
		return
	}
	lr.PRGeneration++
	if vAllReg(cur.Type) && len(lr.Reservations) > 0 {
		next := lr.Reservations[0]
		next.Scope, next.Type = cur.Scope, cur.Type
		lr.CurrentReservation = next
		return
	}
	cur.Scope, cur.Type = 0, 0
	lr.CurrentReservation = nil
}

// vAllReg: the reservation type makes every registrant a holder.
func vAllReg(t byte) bool { return t == 7 || t == 8 }
