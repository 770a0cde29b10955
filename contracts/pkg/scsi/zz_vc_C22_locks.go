package scsi

import (
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
)

// The LUN map is shared by all connections: it is modified only under its lock.
func c22LUNMap(tgt string) {
	vPartial()
	vTrackLocks()
	vRequires(vNoLocksHeld())
	g := &globalSCSILUMap
	vGuarded("the devices are modified without the lock of the LUN map", g.AllDevices, &g.mutex)
	vGuarded("the targets' LUN maps are modified without the lock of the LUN map", g.TargetsLUNMap, &g.mutex)
	vGuarded("the stores of the targets are modified without the lock of the LUN map", g.TargetsBSMap, &g.mutex)
	vGuarded("the LUN map of a target is modified without the lock of the LUN map", g.TargetsLUNMap[tgt], &g.mutex)
	vGuarded("the devices are replaced without the lock of the LUN map", &g.AllDevices, &g.mutex)
	vGuarded("the LUN maps are replaced without the lock of the LUN map", &g.TargetsLUNMap, &g.mutex)
	vGuarded("the stores are replaced without the lock of the LUN map", &g.TargetsBSMap, &g.mutex)
}

// opening a device may look up the LUN map
func c22NewLU() {
	vStub(NewSCSILu, func(c *config.BackendStorage) (*api.SCSILu, error) {
		vEnsures("a device is opened without any lock", vNoLocksHeld())
		err := vAny[error]("cannot be opened")
		if err != nil {
			return nil, err
		}
		return vAny[*api.SCSILu]("the device"), nil
	})
}

func contract_C22_GetLU(tgt string, lun uint64) {
	c22LUNMap(tgt)
	GetLU(tgt, lun)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_GetTargetLUNMap(tgt string) {
	c22LUNMap(tgt)
	GetTargetLUNMap(tgt)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_GetTargetBSMap(tgt string) {
	c22LUNMap(tgt)
	GetTargetBSMap(tgt)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_AddBackendStorage(bs config.BackendStorage, tgt string) {
	c22LUNMap(tgt)
	c22NewLU()
	AddBackendStorage(bs)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_DelBackendStorage(id uint64, tgt string) {
	c22LUNMap(tgt)
	DelBackendStorage(id)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_AddLUNMapping(m LUNMapping, op *SCSISimpleReservationOperator, tgt string) {
	c22LUNMap(tgt)
	vRequires(op != nil)
	onePROperator = op
	AddLUNMapping(m)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_DelLUNMapping(m LUNMapping, tgt string) {
	c22LUNMap(tgt)
	DelLUNMapping(m)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_InitSCSILUMap(c *config.Config, tgt string) {
	c22LUNMap(tgt)
	vRequires(c != nil)
	vStub(AddBackendStorage, func(bs config.BackendStorage) error {
		vEnsures("devices are added without any lock", vNoLocksHeld())
		return vAny[error]("adding")
	})
	vStub(AddLUNMapping, func(m LUNMapping) error {
		vEnsures("LUNs are mapped without any lock", vNoLocksHeld())
		return vAny[error]("mapping")
	})
	InitSCSILUMap(c)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_InitSCSILUMapEx(c *config.BackendStorage, lun uint64, bs api.RemoteBackingStore, tgt string, op *SCSISimpleReservationOperator, n string) {
	c22LUNMap(tgt)
	vRequires(c != nil && op != nil)
	onePROperator = op
	c22NewLU()
	InitSCSILUMapEx(c, n, lun, bs)
	vEnsures("released", vNoLocksHeld())
}

// The target service.
func c22Service(s *SCSITargetService) {
	vPartial()
	vTrackLocks()
	vRequires(s != nil && vNoLocksHeld())
	vGuarded("the list of targets is modified without the lock of the target service", &s.Targets, &s.mutex)
}

func contract_C22_GetTargetList(s *SCSITargetService) {
	c22Service(s)
	s.GetTargetList()
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_Resize(s *SCSITargetService, size uint64) {
	c22Service(s)
	s.Resize(size)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_RereadTargetLUNMap(s *SCSITargetService) {
	c22Service(s)
	s.RereadTargetLUNMap()
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_NewSCSITarget(s *SCSITargetService, tid int, driver, name string) {
	c22Service(s)
	vStub(NewLUN0, func() *api.SCSILu {
		return nil
	})
	s.NewSCSITarget(tid, driver, name)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_AddCommandQueue(s *SCSITargetService, tid int, c *api.SCSICommand) {
	c22Service(s)
	vRequires(c != nil)
	perform := func(id int, cmd *api.SCSICommand) api.SAMStat {
		vEnsures("a command is performed without any lock", vNoLocksHeld())
		return api.SAMStat{Stat: vAny[byte]("status")}
	}
	lun := uint64(0)
	for i := 0; i < 8; i++ {
		lun |= uint64(c.Lun[i]) << (8 * uint(i))
	}
	vRequires(vForall(0, len(s.Targets), func(i int) bool {
		d := s.Targets[i].Devices[lun]
		return vSameFunc(s.Targets[i].LUN0.PerformCommand, perform) && (d == nil || vSameFunc(d.PerformCommand, perform))
	}))
	s.AddCommandQueue(tid, c)
	vEnsures("released", vNoLocksHeld())
}

// The nexuses of a target.
func contract_C22_AddITNexus(t *api.SCSITarget, x *api.ITNexus) {
	vPartial()
	vTrackLocks()
	vRequires(vNoLocksHeld() && t != nil && x != nil)
	vGuarded("a nexus is added without the lock of the nexuses", t.ITNexus, &t.ITNexusMutex)
	AddITNexus(t, x)
	vEnsures("released", vNoLocksHeld())
}

func contract_C22_RemoveITNexus(t *api.SCSITarget, x *api.ITNexus) {
	vPartial()
	vTrackLocks()
	vRequires(vNoLocksHeld() && t != nil && x != nil)
	vGuarded("a nexus is removed without the lock of the nexuses", t.ITNexus, &t.ITNexusMutex)
	RemoveITNexus(t, x)
	vEnsures("released", vNoLocksHeld())
}
