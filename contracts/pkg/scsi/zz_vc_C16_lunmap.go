package scsi

import (
	"strconv"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
)

// c16Maps is the representation invariant of the LUN map: the maps are there, and the maps of two targets (of which
// a and b are any) and the device map are different maps.
func c16Maps(a, b string) bool {
	g := &globalSCSILUMap
	return g.AllDevices != nil && g.TargetsLUNMap != nil &&
		vSep(g.TargetsLUNMap[a], g.AllDevices) && vSep(g.TargetsLUNMap[b], g.AllDevices) &&
		(a == b || vSep(g.TargetsLUNMap[a], g.TargetsLUNMap[b]))
}

// c16Res is that of the reservation states: those that are there are not nil, and two targets have two maps.
func c16Res(op *SCSISimpleReservationOperator, a, b string, id uint64) bool {
	ra, oka := op.targetReservations[a]
	rb, okb := op.targetReservations[b]
	lr, ok := ra[id]
	return (!oka || ra != nil) && (!okb || rb != nil) && (!ok || lr != nil) && (a == b || vSep(ra, rb))
}

func contract_C16_AddLUNMapping(m LUNMapping, op *SCSISimpleReservationOperator, tgt, tgt2 string, lun, id uint64) {
	vRequires(op != nil && op.targetReservations != nil && c16Res(op, m.TargetName, tgt, m.DeviceID) && c16Res(op, tgt, tgt2, id) && c16Res(op, tgt2, m.TargetName, id))
	onePROperator = op
	vRequires(c16Maps(tgt, m.TargetName) && c16Maps(tgt2, m.TargetName) && c16Maps(tgt, tgt2))
	dev := globalSCSILUMap.AllDevices[m.DeviceID]
	vRequires(dev != nil)
	was, dwas := GetLU(tgt, lun), globalSCSILUMap.AllDevices[id]
	all := globalSCSILUMap.AllDevices
	mapped := GetTargetLUNMap(tgt)
	_, in := mapped[lun]
	hadRes := vLUResOf(op, tgt, id)
	err := AddLUNMapping(m)
	vEnsures("mapping.succeeds", err == nil)
	vEnsures("mapping.the LUN yields the device", GetLU(m.TargetName, m.LUN) == dev)
	_, now := GetTargetLUNMap(tgt)[lun]
	if tgt != m.TargetName || lun != m.LUN {
		vEnsures("mapping.leaves every other LUN of every target", GetLU(tgt, lun) == was && now == in)
	} else {
		vEnsures("mapping.the LUN is in the LUN map of its target", now)
	}
	vEnsures("mapping.leaves the devices", vSameRef(globalSCSILUMap.AllDevices, all) && globalSCSILUMap.AllDevices[id] == dwas)
	vEnsures("mapping.gives the device a reservation state for the target", vLUResOf(op, m.TargetName, m.DeviceID) != nil)
	vEnsures("mapping.leaves every other reservation state", tgt == m.TargetName && id == m.DeviceID || vLUResOf(op, tgt, id) == hadRes)
	vEnsures("mapping.keeps the maps of the targets apart", c16Maps(tgt, tgt2) && c16Res(op, tgt, tgt2, id))
}

func vLUResOf(op *SCSISimpleReservationOperator, tgt string, id uint64) *SCSILUReservation {
	return op.targetReservations[tgt][id]
}

func contract_C16_DelLUNMapping(m LUNMapping, tgt, tgt2 string, lun, id uint64) {
	vRequires(c16Maps(tgt, m.TargetName) && c16Maps(tgt, tgt2))
	was, dwas := GetLU(tgt, lun), globalSCSILUMap.AllDevices[id]
	_, in := GetTargetLUNMap(tgt)[lun]
	DelLUNMapping(m)
	_, now := GetTargetLUNMap(tgt)[lun]
	vEnsures("unmapping.the LUN yields no device", GetLU(m.TargetName, m.LUN) == nil)
	if tgt != m.TargetName || lun != m.LUN {
		vEnsures("unmapping.leaves every other LUN of every target", GetLU(tgt, lun) == was && now == in)
	} else {
		vEnsures("unmapping.the LUN is not in the LUN map of its target", !now)
	}
	vEnsures("unmapping.leaves the devices", globalSCSILUMap.AllDevices[id] == dwas)
	vEnsures("unmapping.keeps the maps of the targets apart", c16Maps(tgt, tgt2))
}

func contract_C16_AddBackendStorage(bs config.BackendStorage, fresh *api.SCSILu, tgt string, lun, id uint64) {
	vRequires(c16Maps(tgt, tgt))
	was, dwas := GetLU(tgt, lun), globalSCSILUMap.AllDevices[id]
	_, used := globalSCSILUMap.AllDevices[bs.DeviceID]
	fail := vAny[error]("the failure to make a logical unit")
	vRequires((fresh == nil) == (fail != nil))
	made := false
	vStub(NewSCSILu, func(c *config.BackendStorage) (*api.SCSILu, error) {
		vEnsures("adding a device.makes it as configured", *c == bs)
		made = true
		return fresh, fail
	})
	err := AddBackendStorage(bs)
	vEnsures("adding a device.fails exactly if its identifier is in use or it cannot be made", (err != nil) == (used || fail != nil))
	vEnsures("adding a device.makes none for an identifier in use", !used || !made)
	if err == nil {
		vEnsures("adding a device.the device is there", globalSCSILUMap.AllDevices[bs.DeviceID] == fresh)
	}
	if err != nil || id != bs.DeviceID {
		vEnsures("adding a device.leaves the other devices", globalSCSILUMap.AllDevices[id] == dwas)
	}
	vEnsures("adding a device.leaves the LUNs of the targets", GetLU(tgt, lun) == was)
}

func contract_C16_DelBackendStorage(dev uint64, tgt string, lun, id uint64) {
	vRequires(c16Maps(tgt, tgt))
	was, dwas := GetLU(tgt, lun), globalSCSILUMap.AllDevices[id]
	DelBackendStorage(dev)
	_, ok := globalSCSILUMap.AllDevices[dev]
	vEnsures("removing a device.the device is gone", !ok)
	vEnsures("removing a device.leaves the other devices", id == dev || globalSCSILUMap.AllDevices[id] == dwas)
	vEnsures("removing a device.leaves the LUNs of the targets", GetLU(tgt, lun) == was)
}

// The configuration is put into effect: every device is added, in order, and every LUN of every target is mapped.
func contract_C16_InitSCSILUMap(c *config.Config, tgt, lunstr string) {
	vRequires(c != nil)
	conf, isTgt := c.ISCSITargets[tgt]
	dev, isLUN := conf.LUNs[lunstr]
	configured := isTgt && isLUN
	num, bad := strconv.ParseUint(lunstr, 10, 64)
	n := len(c.Storages)
	added, mapped, failed := 0, false, false
	vStub(AddBackendStorage, func(bs config.BackendStorage) error {
		vEnsures("configuration.adds the devices in order, each once", added < n && bs == c.Storages[added])
		added++
		err := vAny[error]("no such device")
		failed = failed || err != nil
		return err
	})
	vStub(AddLUNMapping, func(m LUNMapping) error {
		t, ok := c.ISCSITargets[m.TargetName]
		vEnsures("configuration.maps LUNs of its targets only, after all devices are there", ok && added == n && !vAll(func(k string) bool {
			d, ok := t.LUNs[k]
			l, err := strconv.ParseUint(k, 10, 64)
			return !ok || err != nil || d != m.DeviceID || l != m.LUN
		}))
		if m.TargetName == tgt && m.LUN == num && m.DeviceID == dev {
			mapped = true
		}
		return nil
	})
	vInvariant("devices added", func(k int) bool { return added == k+1 && k+1 <= n && !failed })
	vInvariant("all devices added", func() bool { return added == n && !failed })
	vInvariant("targets mapped", func() bool {
		return !vVisited(c.ISCSITargets, tgt) || !configured || bad == nil && mapped
	})
	vInvariant("LUNs mapped", func(name string) bool {
		return !vVisited(c.ISCSITargets, tgt) || !configured || bad == nil && mapped || name == tgt && !vVisited(conf.LUNs, lunstr)
	})
	err := InitSCSILUMap(c)
	vEnsures("configuration.is refused when a device cannot be added", !failed || err != nil)
	if err == nil {
		vEnsures("configuration.adds every device", added == n)
		vEnsures("configuration.maps every LUN", !configured || bad == nil && mapped)
	}
}

// A target sees the LUN map of its name.
func contract_C16_NewSCSITarget(s *SCSITargetService, tid int, name string) {
	vRequires(s != nil)
	n := len(s.Targets)
	vStub(NewLUN0, func() *api.SCSILu { return vAny[*api.SCSILu]("placeholder") })
	t, err := s.NewSCSITarget(tid, "iscsi", name)
	vEnsures("new target.has its own LUN map", err == nil && t != nil && t.Name == name && t.TID == tid && vSameRef(t.Devices, GetTargetLUNMap(name)))
	vEnsures("new target.is added to the targets", len(s.Targets) == n+1 && s.Targets[n] == t)
}

func contract_C16_RereadTargetLUNMap(s *SCSITargetService, i int) {
	vRequires(s != nil && i >= 0 && i < len(s.Targets))
	l := s.Targets
	vRequires(vForall(0, len(l), func(k int) bool { return l[k] != nil }))
	vInvariant("LUN maps read", func(k int) bool { return i > k || vSameRef(l[i].Devices, GetTargetLUNMap(l[i].Name)) })
	s.RereadTargetLUNMap()
	vEnsures("reread.every target has its own LUN map", vSameRef(l[i].Devices, GetTargetLUNMap(l[i].Name)))
}

// An embedding program's device: it is mapped where the program says, and nowhere else.
func contract_C16_InitSCSILUMapEx(c *config.BackendStorage, tgt string, lun uint64, bs api.RemoteBackingStore, op *SCSISimpleReservationOperator, otherDev uint64, otherTgt string, otherLUN uint64) {
	vRequires(c16Maps(tgt, otherTgt) && globalSCSILUMap.TargetsBSMap != nil && c != nil)
	vRequires(op != nil && op.targetReservations != nil && c16Res(op, tgt, otherTgt, c.DeviceID))
	onePROperator = op
	vStub(NewSCSILu, func(b *config.BackendStorage) (*api.SCSILu, error) {
		lu, err := vAny[*api.SCSILu]("device"), vAny[error]("no device")
		vAssume((lu == nil) == (err != nil))
		return lu, err
	})
	wasDev := globalSCSILUMap.AllDevices[otherDev]
	wasLUN := GetTargetLUNMap(otherTgt)[otherLUN]
	err := InitSCSILUMapEx(c, tgt, lun, bs)
	dev := globalSCSILUMap.AllDevices[c.DeviceID]
	vEnsures("remote device.is mapped", err != nil || dev != nil && GetTargetLUNMap(tgt)[lun] == dev)
	vEnsures("remote device.leaves the other devices", otherDev == c.DeviceID || globalSCSILUMap.AllDevices[otherDev] == wasDev)
	vEnsures("remote device.leaves every other LUN of every target", otherTgt == tgt && otherLUN == lun || GetTargetLUNMap(otherTgt)[otherLUN] == wasLUN)
}
