package scsi

import "github.com/gostor/gotgt/pkg/api"

// vDescribed: the block descriptor of the mode parameters tells the capacity of the logical unit.
func vDescribed(lu *api.SCSILu) bool {
	d := lu.ModeBlockDescriptor
	if len(d) != 8 {
		return false
	}
	blocks := lu.Size >> lu.BlockShift
	if blocks > 0xffffffff {
		blocks = 0xffffffff
	}
	return vBE(d, 0, 4) == blocks && vBE(d, 4, 4) == uint64(1)<<lu.BlockShift
}

func contract_C08_InitLu(sbc SBCSCSIDeviceProtocol, lu *api.SCSILu) {
	vRequires(lu != nil && (lu.BlockShift == 0 || lu.BlockShift >= 9 && lu.BlockShift <= 16))
	size, shift := lu.Size, lu.BlockShift
	err := sbc.InitLu(lu)
	vEnsures("InitLu.succeeds", err == nil)
	vEnsures("InitLu.keeps the size and a block size given", lu.Size == size && (shift == 0 && lu.BlockShift == 9 || lu.BlockShift == shift))
	vEnsures("InitLu.the block descriptor tells the capacity", vDescribed(lu))
	vEnsures("InitLu.is writable", !lu.Attrs.Readonly && !lu.Attrs.SWP)
}

func contract_C08_Resize1(s *SCSITargetService, t *api.SCSITarget, lu *api.SCSILu, lun, size uint64) {
	vRequires(s != nil && t != nil && lu != nil)
	s.Targets = []*api.SCSITarget{t}
	t.Devices = api.LUNMap{lun: lu}
	vRequires(lu.BlockShift >= 9 && lu.BlockShift <= 16)
	shift := lu.BlockShift
	err := s.Resize(size)
	vEnsures("Resize.sets the size and nothing else", err == nil && lu.Size == size && lu.BlockShift == shift)
	vEnsures("Resize.the block descriptor tells the new capacity", vDescribed(lu))
}

func contract_C08_ReadCapacity10(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	scb := vSnap(cmd.SCB)
	n := len(cmd.InSDBBuffer.Buffer)
	r := SBCReadCapacity(0, cmd)
	ready := !lu.Attrs.Removable || lu.Attrs.Online
	proper := scb[8]&1 != 0 || scb[2]|scb[3]|scb[4]|scb[5] == 0
	vEnsures("READ CAPACITY(10).of a ready unit ends in GOOD", (r.Stat == api.SAM_STAT_GOOD) == (ready && proper))
	if r.Stat == api.SAM_STAT_GOOD {
		last := lu.Size>>lu.BlockShift - 1
		if last > 0xffffffff {
			last = 0xffffffff
		}
		d := vReturned(cmd)
		vEnsures("READ CAPACITY(10).returns eight bytes as far as the buffer goes", len(d) == 8 || n < 8 && len(d) == n)
		if len(d) == 8 {
			vEnsures("READ CAPACITY(10).last block", vBE(d, 0, 4) == last)
			vEnsures("READ CAPACITY(10).block length", vBE(d, 4, 4) == uint64(1)<<lu.BlockShift)
		}
	}
	vEnsures("READ CAPACITY(10).does not touch the medium", st.untouched())
}

func contract_C08_ReadCapacity16(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu))
	vRequires(vApart(cmd, lu, st))
	vRequires(cmd.SCB[0] == 0x9e && cmd.SCB[1]&0x1f == 0x10)
	alloc := vBE(cmd.SCB, 10, 4)
	n := len(cmd.InSDBBuffer.Buffer)
	r := SBCServiceAction(0, cmd)
	vEnsures("READ CAPACITY(16).ends in GOOD", r.Stat == api.SAM_STAT_GOOD)
	d := vReturned(cmd)
	want := 32
	if want > n {
		want = n
	}
	if uint64(want) > alloc {
		want = int(alloc)
	}
	vEnsures("READ CAPACITY(16).returns 32 bytes as far as the buffer and the allocation length go", len(d) == want)
	if len(d) >= 8 {
		vEnsures("READ CAPACITY(16).last block", vBE(d, 0, 8) == lu.Size>>lu.BlockShift-1)
	}
	if len(d) >= 12 {
		vEnsures("READ CAPACITY(16).block length", vBE(d, 8, 4) == uint64(1)<<lu.BlockShift)
	}
	vEnsures("READ CAPACITY(16).does not touch the medium", st.untouched())
}

func contract_C08_ModeSense(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && vDescribed(lu))
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(op == 0x1a || op == 0x5a)
	dbd := cmd.SCB[1]&0x08 != 0
	vSplit(op == 0x1a, dbd)
	r := SBCModeSense(0, cmd)
	if r.Stat == api.SAM_STAT_GOOD {
		d := vReturned(cmd)
		head, dev := 8, 3
		if op == 0x1a {
			head, dev = 4, 2
		}
		if len(d) > dev {
			vEnsures("MODE SENSE.write protect bit", (d[dev]&0x80 != 0) == (lu.Attrs.Readonly || lu.Attrs.SWP))
		}
		if !dbd && len(d) >= head+8 {
			blocks := lu.Size >> lu.BlockShift
			vEnsures("MODE SENSE.number of blocks", blocks > 0xffffffff || vBE(d, head, 4) == blocks)
			vEnsures("MODE SENSE.block length", vBE(d, head+4, 4) == uint64(1)<<lu.BlockShift)
		}
	}
	vEnsures("MODE SENSE.does not touch the medium", st.untouched())
}
