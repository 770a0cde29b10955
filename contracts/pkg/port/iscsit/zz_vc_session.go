package iscsit

func sameTasks(old, now []*iscsiTask) bool {
	return len(now) == len(old) && vForall(0, len(old), func(k int) bool { return now[k] == old[k] })
}

// Representation invariant of the handle pool: the reserved values 0 and FFFFh are always taken.
func c13Pool(s *ISCSITargetDriver) bool {
	return s != nil && s.TSIHPool != nil && s.TSIHPool[0] && s.TSIHPool[0xffff]
}
