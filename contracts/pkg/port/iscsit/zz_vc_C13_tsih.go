package iscsit

func contract_C13_NewISCSITargetDriver() {
	d, err := NewISCSITargetDriver(nil)
	s, ok := d.(*ISCSITargetDriver)
	vEnsures("NewISCSITargetDriver.yields a driver", err == nil && ok)
	vEnsures("NewISCSITargetDriver.establishes the pool invariant", c13Pool(s))
	vEnsures("NewISCSITargetDriver.every other handle is free", vForall(1, 0xffff, func(k int) bool { return !s.TSIHPool[uint16(k)] }))
}

func contract_C13_AllocTSIH(s *ISCSITargetDriver, other uint16) {
	vRequires(c13Pool(s))
	vInvariant("handles below i are taken", func(i int) bool {
		return vForall(0, i, func(k int) bool { return s.TSIHPool[uint16(k)] })
	})
	free := vExists(1, 0xffff, func(k int) bool { return !s.TSIHPool[uint16(k)] })
	was := s.TSIHPool[other]
	pool := s.TSIHPool
	r := s.AllocTSIH()
	vEnsures("AllocTSIH.keeps the pool", vSameRef(pool, s.TSIHPool))
	if r == 0 {
		vEnsures("AllocTSIH.fails only when nothing is free", !free)
	} else {
		vEnsures("AllocTSIH.never FFFFh", r != 0xffff)
		vEnsures("AllocTSIH.in use afterwards", s.TSIHPool[r])
	}
	if other == r && r != 0 {
		vEnsures("AllocTSIH.was not in use", !was)
	} else {
		vEnsures("AllocTSIH.other handles unchanged", s.TSIHPool[other] == was)
	}
	vEnsures("AllocTSIH.pool invariant", c13Pool(s))
}

func contract_C13_ReleaseTSIH(s *ISCSITargetDriver, tsih, other uint16) {
	vRequires(c13Pool(s))
	was := s.TSIHPool[other]
	s.ReleaseTSIH(tsih)
	vEnsures("ReleaseTSIH.free afterwards", !s.TSIHPool[tsih])
	if other != tsih {
		vEnsures("ReleaseTSIH.other handles unchanged", s.TSIHPool[other] == was)
	}
}

func contract_C13_SSID(isid uint64, tpgt uint16) {
	vRequires(isid < 1<<48)
	i, t := ParseSSID(MakeSSID(isid, tpgt))
	vEnsures("SSID.round trip", i == isid && t == tpgt)
}

func contract_C13_SSID2(ssid uint64) {
	i, t := ParseSSID(ssid)
	vEnsures("SSID.split and recombine", MakeSSID(i, t) == ssid)
}

// A session that ends gives back its own handle and no other.
func contract_C13_UnBind(s *ISCSITargetDriver, sess *ISCSISession, other uint16) {
	vRequires(c13Pool(s) && sess != nil && sess.Target != nil && sess.Target.Sessions != nil && sess.ITNexus != nil)
	vRequires(sess.TSIH != 0 && sess.TSIH != 0xffff)
	was := s.TSIHPool[other]
	h := sess.TSIH
	s.UnBindISCSISession(sess)
	vEnsures("UnBind.handle free afterwards", !s.TSIHPool[h])
	if other != h {
		vEnsures("UnBind.other handles unchanged", s.TSIHPool[other] == was)
	}
	vEnsures("UnBind.pool invariant", c13Pool(s))
}
