#!/usr/bin/env python3
# Behaviour-preserving edits of /repo's code, to see that the checks stay quiet. usage: r1.py DIR [name...]
import sys, subprocess
D=sys.argv[1]; only=set(sys.argv[2:])
def ref(name, f, *subs):
    if only and name not in only: return
    p=D+'/'+f; s=open(p).read()
    for old,new in subs:
        assert s.count(old)>=1, (name, old)
        s=s.replace(old,new,1)
    open(p,'w').write(s); print('applied',name)
I='pkg/port/iscsit/'; S='pkg/scsi/'
ref('tsih',I+'iscsid.go',('''	var i uint16
	s.TSIHPoolMutex.Lock()
	for i = uint16(0); i < ISCSI_MAX_TSIH; i++ {
		exist := s.TSIHPool[i]
		if !exist {
			s.TSIHPool[i] = true
			s.TSIHPoolMutex.Unlock()
			return i
		}
	}
	s.TSIHPoolMutex.Unlock()
	return ISCSI_UNSPEC_TSIH
''','''	s.TSIHPoolMutex.Lock()
	defer s.TSIHPoolMutex.Unlock()
	handle := uint16(0)
	for {
		if handle >= ISCSI_MAX_TSIH {
			return ISCSI_UNSPEC_TSIH
		}
		if !s.TSIHPool[handle] {
			break
		}
		handle++
	}
	s.TSIHPool[handle] = true
	return handle
'''))
ref('tag',I+'session.go',('''	for _, t := range tq {
		if t.tag == tag {
			return t
		}
	}
	return nil
}
''','''	if i := tq.index(tag); i >= 0 {
		return tq[i]
	}
	return nil
}

func (tq taskQueue) index(tag uint32) int {
	for i := 0; i < len(tq); i++ {
		if tq[i].tag == tag {
			return i
		}
	}
	return -1
}
'''),('''	old := *tq
	for i, t := range old {
		if t.tag == tag {
			*tq = append(old[:i], old[i+1:]...)
			return t
		}
	}
	return nil
''','''	i := tq.index(tag)
	if i < 0 {
		return nil
	}
	t := (*tq)[i]
	*tq = append((*tq)[:i], (*tq)[i+1:]...)
	return t
'''))
ref('or',S+'backingstore.go',('''		for i := 0; i < len(wbuf) && i < len(rbuf); i++ {
			wbuf[i] |= rbuf[i]
		}
''','''		orBytes(wbuf, rbuf)
'''),('''func bsPerformCommand(''','''// orBytes ors src into dst.
func orBytes(dst, src []byte) {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	for i := range dst[:n] {
		dst[i] = dst[i] | src[i]
	}
}

func bsPerformCommand('''))
ref('pad',S+'backingstore.go',('''		for i := 0; i < int(tl)-length; i++ {
			rbuf = append(rbuf, 0)
		}
''','''		if missing := int(tl) - length; missing > 0 {
			rbuf = append(rbuf, make([]byte, missing)...)
		}
'''))
ref('unmap',S+'sbc.go',('''	for off := 8; off+blockDescLen <= len(cmd.OutSDBBuffer.Buffer); off += blockDescLen {
		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
''','''	list := cmd.OutSDBBuffer.Buffer
	for off := 8; ; off += blockDescLen {
		if len(list)-off < blockDescLen {
			break
		}
		desc := list[off : off+blockDescLen]
		lba, num := binary.BigEndian.Uint64(desc[:8]), binary.BigEndian.Uint32(desc[8:12])
'''))
ref('prindex',S+'scsi_pr.go',('''	for j := range resArray {
		if resArray[j] == res {
			i = j
			break
		}
	}

	if i >= 0 {
		resArray[i] = resArray[len(resArray)-1]
		resArray[len(resArray)-1] = nil
		resArray = resArray[:len(resArray)-1]
		LURes.Reservations = resArray
	}

	if curRes == nil {
		return
	}
''','''	if i = reservationIndex(resArray, res); i >= 0 {
		last := len(resArray) - 1
		resArray[i], resArray[last] = resArray[last], nil
		resArray = resArray[:last]
		LURes.Reservations = resArray
	}

	if curRes == nil {
		return
	}
'''),('''	for j := range resArray {
		if resArray[j] == res {
			i = j
			break
		}
	}

	if i >= 0 {
		resArray[i] = resArray[len(resArray)-1]
		resArray[len(resArray)-1] = nil
		resArray = resArray[:len(resArray)-1]
		LURes.Reservations = resArray
	}
''','''	i = reservationIndex(resArray, res)
	if i < 0 {
		return
	}
	last := len(resArray) - 1
	resArray[i] = resArray[last]
	resArray[last] = nil
	LURes.Reservations = resArray[:last]
'''),('''func (op *SCSISimpleReservationOperator) IsKeyExists(''','''func reservationIndex(l []*api.SCSIReservation, res *api.SCSIReservation) int {
	for i, r := range l {
		if r == res {
			return i
		}
	}
	return -1
}

func (op *SCSISimpleReservationOperator) IsKeyExists('''))
ref('luns',S+'spc.go',('''		if lun > 0xff {
			lun = (0x01 << 30) | (0x3fff&lun)<<16
		} else {
			lun = (0x3fff & lun) << 16
		}
		lun = uint64(lun << 32)

		buf.Write(util.MarshalUint64(lun))
''','''		buf.Write(util.MarshalUint64(lunField(lun)))
'''),('''func SPCStartStop(''','''func lunField(lun uint64) uint64 {
	field := (lun & 0x3fff) << 48
	if lun > 0xff {
		field |= 1 << 62
	}
	return field
}

func SPCStartStop('''))
ref('modesense',S+'spc.go',('''			if pg.SubPageCode == 0 {
				data = append(data, pg.PageCode)
				data = append(data, pg.Size)
			} else {
				data = append(data, pg.PageCode|0x40)
				data = append(data, pg.SubPageCode)
				data = append(data, (pg.Size>>8)&0xff)
				data = append(data, pg.Size&0xff)
			}
			data = append(data, modePageData(&pg, pctrl == 1)...)
''','''			data = appendModePage(data, &pg, pctrl == 1)
'''),('''		var pg *api.ModePage
		for _, p := range cmd.Device.ModePages {
			if p.PageCode == pcode && p.SubPageCode == subpcode {
				pg = &p
				break
			}
		}
''','''		var pg *api.ModePage
		for i := 0; i < len(cmd.Device.ModePages); i++ {
			if p := &cmd.Device.ModePages[i]; p.PageCode == pcode && p.SubPageCode == subpcode {
				pg = p
				break
			}
		}
'''),('''		if pg.SubPageCode == 0 {
			data = append(data, pg.PageCode)
			data = append(data, pg.Size)
			data = append(data, modePageData(pg, pctrl == 1)...)
		} else {
			data = append(data, pg.PageCode|0x40)
			data = append(data, pg.SubPageCode)
			data = append(data, (pg.Size>>8)&0xff)
			data = append(data, pg.Size&0xff)
			data = append(data, modePageData(pg, pctrl == 1)...)
		}
''','''		data = appendModePage(data, pg, pctrl == 1)
'''),('''func SPCStartStop(''','''func appendModePage(data []byte, pg *api.ModePage, mask bool) []byte {
	if pg.SubPageCode == 0 {
		data = append(data, pg.PageCode, pg.Size)
	} else {
		data = append(data, pg.PageCode|0x40, pg.SubPageCode, (pg.Size>>8)&0xff, pg.Size&0xff)
	}
	return append(data, modePageData(pg, mask)...)
}

func SPCStartStop('''))
ref('marshal','pkg/util/util.go',('''	var data []byte
	for j := 24; j >= 0; j -= 8 {
		b := byte(i >> uint32(j))
		data = append(data, b)
	}
	return data
''','''	data := make([]byte, 4)
	binary.BigEndian.PutUint32(data, i)
	return data
'''),('''	var data = [8]byte{}
	var i = 0
	for j := 56; j >= 0; j -= 8 {
		data[i] = byte(v >> uint32(j))
		i++
	}
	return data[0:8]
''','''	data := make([]byte, 8)
	for k := len(data) - 1; k >= 0; k-- {
		data[k] = byte(v)
		v >>= 8
	}
	return data
'''))
ref('noop',I+'cmd.go',('''	rd := m.RawData
	for len(rd)%4 != 0 {
		rd = append(rd, 0)
	}
	buf.Write(rd)
	return buf.Bytes()
}
''','''	buf.Write(padded(m.RawData))
	return buf.Bytes()
}

// padded is the data with zeroes up to a multiple of four bytes.
func padded(data []byte) []byte {
	if rest := len(data) % 4; rest != 0 {
		return append(data, make([]byte, 4-rest)...)
	}
	return data
}
'''))
