#!/usr/bin/env python3
# A second batch of behaviour-preserving edits. usage: r2.py DIR [name...]
import sys
D=sys.argv[1]; only=set(sys.argv[2:])
def ref(name, f, *subs):
    if only and name not in only: return
    p=D+'/'+f; s=open(p).read()
    for old,new in subs:
        assert s.count(old)>=1, (name, old)
        s=s.replace(old,new,1)
    open(p,'w').write(s); print('applied',name)
I='pkg/port/iscsit/'; S='pkg/scsi/'
ref('uint',I+'cmd.go',('''	for i := 0; i < len(data); i++ {
		out += uint64(data[len(data)-i-1]) << uint(8*i)
	}
	return out
''','''	for _, b := range data {
		out = out<<8 | uint64(b)
	}
	return out
'''))
ref('header',I+'cmd.go',('''		m.LUN = parseLUN(data[8:16])
		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
		m.CmdSN = uint32(ParseUint(data[24:28]))
		m.Read = data[1]&0x40 == 0x40
		m.Write = data[1]&0x20 == 0x20
		m.CDB = data[32:48]
		m.ExpStatSN = uint32(ParseUint(data[28:32]))
		m.SCSIOpCode = m.CDB[0]
		SCSIOpcode := api.SCSICommandType(m.SCSIOpCode)
		switch SCSIOpcode {
		case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
			m.Read = true
		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
			m.Write = true
		}
		fallthrough
	case OpSCSITaskReq:
		m.LUN = parseLUN(data[8:16])
		m.CmdSN = uint32(ParseUint(data[24:28]))
		m.ExpStatSN = uint32(ParseUint(data[28:32]))
		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
''','''		m.setSCSICommand(data)
		m.setTaskRequest(data)
	case OpSCSITaskReq:
		m.setTaskRequest(data)
'''),('''func parseHeader(''','''func (m *ISCSICommand) setTaskRequest(data []byte) {
	m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
	m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
	m.ExpStatSN = uint32(ParseUint(data[28:32]))
	m.CmdSN = uint32(ParseUint(data[24:28]))
	m.LUN = parseLUN(data[8:16])
}

func (m *ISCSICommand) setSCSICommand(data []byte) {
	cdb := data[32:48]
	m.CDB, m.SCSIOpCode = cdb, cdb[0]
	m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
	m.Read, m.Write = data[1]&0x40 != 0, data[1]&0x20 != 0
	switch api.SCSICommandType(cdb[0]) {
	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
		m.Read = true
	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
		m.Write = true
	}
}

func parseHeader('''))
ref('sense',S+'scsi.go',('''\t"bytes"\n''',''''''),('''	senseBuffer := &bytes.Buffer{}
	var (
		length      uint32 = 0xa
		fixedFormat bool   = true
	)

	if cmd.Device != nil {
		if cmd.Device.Attrs.SenseFormat {
			fixedFormat = false
		}
	}
''','''	fixedFormat := cmd.Device == nil || !cmd.Device.Attrs.SenseFormat
	var sense []byte
'''),('''		senseBuffer.WriteByte(0x72)
		senseBuffer.WriteByte(key)
		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
		senseBuffer.WriteByte(byte(asc) & 0xff)
		for i := 0; i < 4; i++ {
			senseBuffer.WriteByte(0x00)
		}
		length = 8
''','''		sense = []byte{0x72, key, byte(asc >> 8), byte(asc), 0, 0, 0, 0}
'''),('''		senseBuffer.WriteByte(0x70)
		senseBuffer.WriteByte(0x00)
		senseBuffer.WriteByte(key)
		for i := 0; i < 4; i++ {
			senseBuffer.WriteByte(0x00)
		}
		senseBuffer.WriteByte(byte(length))
		for i := 0; i < 4; i++ {
			senseBuffer.WriteByte(0x00)
		}
		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
		senseBuffer.WriteByte(byte(asc) & 0xff)
		for i := 0; i < 4; i++ {
			senseBuffer.WriteByte(0x00)
		}
		length += 8
''','''		sense = make([]byte, 18)
		sense[0], sense[2], sense[7] = 0x70, key, 10
		sense[12], sense[13] = byte(asc>>8), byte(asc)
'''),('''	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
''','''	cmd.SenseBuffer = &api.SenseBuffer{Buffer: sense, Length: uint32(len(sense))}
'''))
ref('range',S+'sbc.go',('''	if tl != 0 {
		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
			goto sense
		}
	} else {
		if lba >= dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
			goto sense
		}
	}

	if uint64(tl)<<dev.BlockShift''','''	if !inRange(dev, lba, tl) {
		key, asc = ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE
		log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d", lba, tl)
		goto sense
	}

	if uint64(tl)<<dev.BlockShift'''),('''func SBCReserve(''','''func inRange(dev *api.SCSILu, lba uint64, tl uint32) bool {
	blocks := dev.Size >> dev.BlockShift
	if tl == 0 {
		return lba < blocks
	}
	return lba < blocks && blocks-lba >= uint64(tl)
}

func SBCReserve('''))
ref('fua',S+'backingstore.go',('''		var pg *api.ModePage
		for _, p := range lu.ModePages {
			if p.PageCode == 0x08 && p.SubPageCode == 0 {
				pg = &p
				break
			}
		}
		if pg == nil {
			key = ILLEGAL_REQUEST
			asc = ASC_INVALID_FIELD_IN_CDB
			goto sense
		}
		if ((opcode != api.WRITE_6) && (scb[1]&0x8 != 0)) || (pg.Data[0]&0x04 == 0) {
''','''		wce, ok := writeCache(lu)
		if !ok {
			key = ILLEGAL_REQUEST
			asc = ASC_INVALID_FIELD_IN_CDB
			goto sense
		}
		fua := opcode != api.WRITE_6 && scb[1]&0x8 != 0
		if fua || !wce {
'''),('''func bsPerformCommand(''','''// writeCache reports whether the caching page enables the write cache.
func writeCache(lu *api.SCSILu) (enabled, present bool) {
	for i := range lu.ModePages {
		if p := lu.ModePages[i]; p.PageCode == 0x08 && p.SubPageCode == 0 {
			return p.Data[0]&0x04 != 0, true
		}
	}
	return false, false
}

func bsPerformCommand('''))
ref('lunmap',S+'scsilumap.go',('''		for lunstr, deviceID := range tgt.LUNs {
			lun, err := strconv.ParseUint(lunstr, 10, 64)
			if err != nil {
				return fmt.Errorf("LU Number must be a number")
			}
			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
			AddLUNMapping(m)
		}
	}
	return nil
}
''','''		if err := mapTargetLUNs(tgtName, tgt.LUNs); err != nil {
			return err
		}
	}
	return nil
}

func mapTargetLUNs(tgtName string, luns map[string]uint64) error {
	for number, device := range luns {
		lun, err := strconv.ParseUint(number, 10, 64)
		if err != nil {
			return fmt.Errorf("LU Number must be a number")
		}
		AddLUNMapping(LUNMapping{TargetName: tgtName, LUN: lun, DeviceID: device})
	}
	return nil
}
'''),('''	lunMap := globalSCSILUMap.TargetsLUNMap[tgtName]
	lun := lunMap[LUN]

	return lun
''','''	return globalSCSILUMap.TargetsLUNMap[tgtName][LUN]
'''))
ref('file',S+'backingstore/common.go',('''	tmpbuf := make([]byte, tl)
	length, err := bs.file.ReadAt(tmpbuf, offset)
	if err != nil {
		return nil, err
	}
	if length != len(tmpbuf) {
		return nil, fmt.Errorf("read is not same length of length")
	}
	return tmpbuf, nil
''','''	data := make([]byte, tl)
	switch n, err := bs.file.ReadAt(data, offset); {
	case err != nil:
		return nil, err
	case int64(n) < tl:
		return nil, fmt.Errorf("read is not same length of length")
	}
	return data, nil
'''))
ref('queue',I+'iscsid.go',('''	if cmdsn == sess.ExpCmdSN {
		sess.ExpCmdSN = cmdsn + 1
		log.Debugf("session's ExpCmdSN is %d", sess.ExpCmdSN)

		log.Debugf("process task(%d)", task.cmd.CmdSN)
		if err := s.iscsiExecTask(task); err != nil {
			log.Error(err)
		}
		s.iscsiExecPendingTasks(sess)
		return nil
	} else {
		if int32(cmd.CmdSN-sess.ExpCmdSN) < 0 {
			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
			log.Error(err)
			return err
		}
		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
		// add this task into queue and set it as a pending task
		sess.PendingTasksMutex.Lock()
		task.state = taskPending
		sess.PendingTasks.Push(task)
		sess.PendingTasksMutex.Unlock()
		return fmt.Errorf("pending")
	}

	return nil
}
''','''	distance := int32(cmdsn - sess.ExpCmdSN)
	if distance < 0 {
		err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmdsn, sess.ExpCmdSN)
		log.Error(err)
		return err
	}
	if distance > 0 {
		log.Debugf("add task(%d) into task queue", cmdsn)
		sess.addPending(task)
		return fmt.Errorf("pending")
	}
	sess.ExpCmdSN++
	log.Debugf("process task(%d)", cmdsn)
	if err := s.iscsiExecTask(task); err != nil {
		log.Error(err)
	}
	s.iscsiExecPendingTasks(sess)
	return nil
}

func (sess *ISCSISession) addPending(task *iscsiTask) {
	task.state = taskPending
	sess.PendingTasksMutex.Lock()
	defer sess.PendingTasksMutex.Unlock()
	sess.PendingTasks.Push(task)
}
'''),('''		task.state = taskSCSI
		if err := s.iscsiExecTask(task); err != nil {
			log.Error(err)
		}
	}
}
''','''		task.state = taskSCSI
		err := s.iscsiExecTask(task)
		if err == nil {
			continue
		}
		log.Error(err)
	}
}
'''))
ref('stats',I+'iscsid.go',('''	s.mu.Lock()
	s.TargetStats.IsClientConnected = s.isClientConnected
	switch api.SCSICommandType(conn.resp.SCSIOpCode) {
	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
		s.TargetStats.ReadIOPS += 1
		s.TargetStats.TotalReadTime += int64(time.Since(conn.resp.StartTime))
		s.TargetStats.TotalReadBlockCount += int64(conn.resp.ExpectedDataLen)
		break
	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
		s.TargetStats.WriteIOPS += 1
		s.TargetStats.TotalWriteTime += int64(time.Since(conn.resp.StartTime))
		s.TargetStats.TotalWriteBlockCount += int64(conn.resp.ExpectedDataLen)
		break
	}
	s.TargetStats.SCSIIOCount[(int)(conn.resp.SCSIOpCode)] += 1
	s.mu.Unlock()
''','''	s.mu.Lock()
	defer s.mu.Unlock()
	resp, stats := conn.resp, &s.TargetStats
	stats.IsClientConnected = s.isClientConnected
	stats.SCSIIOCount[int(resp.SCSIOpCode)]++
	switch api.SCSICommandType(resp.SCSIOpCode) {
	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
		stats.ReadIOPS++
		stats.TotalReadTime += int64(time.Since(resp.StartTime))
		stats.TotalReadBlockCount += int64(resp.ExpectedDataLen)
	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
		stats.WriteIOPS++
		stats.TotalWriteTime += int64(time.Since(resp.StartTime))
		stats.TotalWriteBlockCount += int64(resp.ExpectedDataLen)
	}
'''))
ref('tx',I+'iscsid.go',('''		resp.BufferOffset = offset
		if int(offset)+int(segmentLen) < transferLen {
			count += 1
			if count < maxCount {
				resp.FinalInSeq = false
				resp.Final = false
			} else {
				count = 0
				resp.FinalInSeq = true
				resp.Final = false
			}
			offset = offset + segmentLen
			resp.DataLen = int(segmentLen)
		} else {
			resp.FinalInSeq = true
			resp.Final = true
			resp.DataLen = transferLen - int(offset)
		}
''','''		rest := transferLen - int(offset)
		resp.BufferOffset = offset
		resp.Final = rest <= int(segmentLen)
		if resp.Final {
			resp.DataLen = rest
			resp.FinalInSeq = true
		} else {
			resp.DataLen = int(segmentLen)
			offset += segmentLen
			count++
			resp.FinalInSeq = count >= maxCount
			if resp.FinalInSeq {
				count = 0
			}
		}
'''))
ref('prkeys',S+'spc.go',('''	for _, res := range resList {
		addBuf = append(addBuf, util.MarshalUint64(res.Key)...)
	}
	additionLength = uint32(len(addBuf))

	data = append(data, util.MarshalUint32(PRGeneration)...)
	data = append(data, util.MarshalUint32(additionLength)...)
	data = append(data, addBuf...)
''','''	for i := 0; i < len(resList); i++ {
		key := util.MarshalUint64(resList[i].Key)
		addBuf = append(addBuf, key...)
	}
	additionLength = uint32(8 * len(resList))

	data = util.MarshalUint32(PRGeneration)
	data = append(data, util.MarshalUint32(additionLength)...)
	data = append(data, addBuf...)
'''))
ref('prfind',S+'scsi_pr.go',('''	for _, SCSIRes = range LURes.Reservations {
		if uuid.Equal(SCSIRes.ITNexusID, ITNexusID) {
			return SCSIRes
		}
	}

	return nil
}
''','''	for n := 0; n < len(LURes.Reservations); n++ {
		SCSIRes = LURes.Reservations[n]
		if !uuid.Equal(SCSIRes.ITNexusID, ITNexusID) {
			continue
		}
		return SCSIRes
	}
	return nil
}
'''))
