#!/usr/bin/env python3
# Behaviour-preserving edits of /repo's code, to see that the checks stay quiet. usage: r3.py DIR [name...]
import sys, subprocess
D=sys.argv[1]; only=set(sys.argv[2:])
def ref(name, f, *subs):
    if only and name not in only: return
    p=D+'/'+f; s=open(p).read()
    for old,new in subs:
        assert s.count(old)>=1, (name, old)
        s=s.replace(old,new,1)
    open(p,'w').write(s); print('applied',name)
I='pkg/port/iscsit/'; S='pkg/scsi/'
ref('dataout',I+'iscsid.go',('''		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
		task.offset += conn.req.DataLen
		task.r2tCount = task.r2tCount - conn.req.DataLen
''','''		task.receive(conn.req)
'''),('''func (s *ISCSITargetDriver) iscsiTaskQueueHandler(''','''// receive stores the data of a Data-Out behind what was received before.
func (t *iscsiTask) receive(req *ISCSICommand) {
	n := req.DataLen
	dst := t.scmd.OutSDBBuffer.Buffer[t.offset:]
	copy(dst, req.RawData)
	t.r2tCount -= n
	t.offset += n
}

func (s *ISCSITargetDriver) iscsiTaskQueueHandler('''))
ref('close',I+'iscsid.go',('''			s.rxHandler(conn)
			if conn.state == CONN_STATE_CLOSE {
				log.Warningf("iscsi connection[%d] closed", conn.cid)
				conn.close()
				IPMutex.Lock()
				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
				if CurrentHostIP == remoteIP {
					CurrentHostIP = ""
				}
				IPMutex.Unlock()
			}
''','''			s.rxHandler(conn)
			if conn.state == CONN_STATE_CLOSE {
				conn.giveUp()
			}
'''),('''	if conn.state == CONN_STATE_CLOSE {
		log.Warningf("iscsi connection[%d] closed", conn.cid)
		conn.close()
		IPMutex.Lock()
		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
		if CurrentHostIP == remoteIP {
			CurrentHostIP = ""
		}
		IPMutex.Unlock()
	}
}
''','''	if conn.state != CONN_STATE_CLOSE {
		return
	}
	conn.giveUp()
}

func (conn *iscsiConnection) giveUp() {
	log.Warningf("iscsi connection[%d] closed", conn.cid)
	conn.close()
	forgetHost(conn)
}

func forgetHost(conn *iscsiConnection) {
	IPMutex.Lock()
	defer IPMutex.Unlock()
	if ip := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]; CurrentHostIP == ip {
		CurrentHostIP = ""
	}
}
'''))
ref('r2t',I+'conn.go',('''		conn.resp.DesiredLength = uint32(task.r2tCount)
		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) {
			conn.resp.DesiredLength = uint32(val)
		}
''','''		want := task.r2tCount
		if burst := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value); burst < want {
			want = burst
		}
		conn.resp.DesiredLength = uint32(want)
'''))
ref('txstate',I+'iscsid.go',('''	case CONN_STATE_SECURITY_FULL, CONN_STATE_LOGIN_FULL:
		if conn.session.SessionType == SESSION_NORMAL {
			conn.state = CONN_STATE_KERNEL
			conn.state = CONN_STATE_SCSI
		} else {
			conn.state = CONN_STATE_FULL
		}
		conn.rxIOState = IOSTATE_RX_BHS
		s.handler(DATAIN, conn)
''','''	case CONN_STATE_SECURITY_FULL, CONN_STATE_LOGIN_FULL:
		next := CONN_STATE_FULL
		if conn.session.SessionType == SESSION_NORMAL {
			next = CONN_STATE_SCSI
		}
		conn.state = next
		s.readNext(conn)
'''),('''func (s *ISCSITargetDriver) scsiCommandHandler(''','''func (s *ISCSITargetDriver) readNext(conn *iscsiConnection) {
	conn.rxIOState = IOSTATE_RX_BHS
	s.handler(DATAIN, conn)
}

func (s *ISCSITargetDriver) scsiCommandHandler('''))
ref('findtarget',I+'session.go',('''		for _, t := range s.iSCSITargets {
			if t.SCSITarget.Name == conn.loginParam.target {
				target = t
				break
			}
		}
		if target == nil {
''','''		if target = s.targetNamed(conn.loginParam.target); target == nil {
'''),('''func (s *ISCSITargetDriver) UnBindISCSISession(''','''func (s *ISCSITargetDriver) targetNamed(name string) *ISCSITarget {
	for _, t := range s.iSCSITargets {
		if t.SCSITarget.Name == name {
			return t
		}
	}
	return nil
}

func (s *ISCSITargetDriver) UnBindISCSISession('''))
ref('identity',I+'login.go',('''		if key == "InitiatorName" {
			conn.loginParam.initiator = val
			continue
		} else if key == "InitiatorAlias" {
			conn.loginParam.initiatorAlias = val
			continue
		} else if key == "TargetName" {
			conn.loginParam.target = val
			continue
		} else if key == "SessionType" {
			if val == "Normal" {
				conn.loginParam.sessionType = SESSION_NORMAL
			} else {
				conn.loginParam.sessionType = SESSION_DISCOVERY
			}
			continue
		}
''','''		if conn.loginParam.setIdentity(key, val) {
			continue
		}
'''),('''func (conn *iscsiConnection) processLoginData(''','''// setIdentity takes the keys that say who logs in to what.
func (p *iscsiLoginParam) setIdentity(key, val string) bool {
	switch key {
	case "InitiatorName":
		p.initiator = val
	case "InitiatorAlias":
		p.initiatorAlias = val
	case "TargetName":
		p.target = val
	case "SessionType":
		p.sessionType = SESSION_DISCOVERY
		if val == "Normal" {
			p.sessionType = SESSION_NORMAL
		}
	default:
		return false
	}
	return true
}

func (conn *iscsiConnection) processLoginData('''),('''				if defSessKey.constValue {
					//the Negotiation Key cannot be changed! Uses Target default key
					if uintVal != defSessKey.def {
						kvChanges++
					}
					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
				} else {
					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
					} else {
						// the value out of the acceptable range, Uses target default key
						conn.loginParam.sessionParam[defSessKey.idx].Value = defSessKey.def
						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
						kvChanges++
					}
				}
''','''				answer := defSessKey.def
				inRange := uintVal >= defSessKey.min && uintVal <= defSessKey.max
				switch {
				case defSessKey.constValue:
					if uintVal != answer {
						kvChanges++
					}
				case inRange:
					answer = uintVal
					conn.loginParam.sessionParam[defSessKey.idx].Value = answer
				default:
					conn.loginParam.sessionParam[defSessKey.idx].Value = answer
					kvChanges++
				}
				negoKV = append(negoKV, util.KeyValue{Key: key, Value: defSessKey.inConv(answer)})
'''))
ref('contains',I+'login.go',('''	for _, q := range s {
		if q == p {
			return true
		}
	}
	return false
''','''	found := false
	for i := 0; i < len(s) && !found; i++ {
		found = s[i] == p
	}
	return found
'''))
ref('text','pkg/util/util.go',('''	for i := 0; i < len(txt); i++ {
		if txt[i] == '=' && sep < kv {
			sep = i
		}
		if txt[i] == 0 {
			if sep > kv {
				m[string(txt[kv:sep])] = string(txt[sep+1 : i])
			}
			kv = i + 1
		}
	}
''','''	for i, c := range txt {
		switch {
		case c == '=' && sep < kv:
			sep = i
		case c == 0:
			if sep > kv {
				key, val := txt[kv:sep], txt[sep+1:i]
				m[string(key)] = string(val)
			}
			kv = i + 1
		}
	}
'''),('''		data = append(data, []byte(v.Key)...)
		data = append(data, '=')
		data = append(data, []byte(v.Value)...)
		data = append(data, 0)
''','''		item := v.Key + "=" + v.Value
		data = append(data, item...)
		data = append(data, 0)
'''))
ref('getlu',S+'scsilumap.go',('''	globalSCSILUMap.mutex.Lock()
	defer globalSCSILUMap.mutex.Unlock()
	delete(globalSCSILUMap.AllDevices, deviceID)
''','''	m := &globalSCSILUMap
	m.mutex.Lock()
	delete(m.AllDevices, deviceID)
	m.mutex.Unlock()
'''))
ref('pendingpush',I+'iscsid.go',('''				conn.session.PendingTasksMutex.Lock()
				conn.session.PendingTasks.Push(task)
				conn.session.PendingTasksMutex.Unlock()
''','''				conn.session.pend(task)
'''),('''		sess.PendingTasksMutex.Lock()
		task.state = taskPending
		sess.PendingTasks.Push(task)
		sess.PendingTasksMutex.Unlock()
''','''		task.state = taskPending
		sess.pend(task)
'''),('''func (s *ISCSITargetDriver) iscsiExecTask(''','''func (sess *ISCSISession) pend(task *iscsiTask) {
	sess.PendingTasksMutex.Lock()
	defer sess.PendingTasksMutex.Unlock()
	sess.PendingTasks = append(sess.PendingTasks, task)
}

func (s *ISCSITargetDriver) iscsiExecTask('''))
ref('rx',I+'iscsid.go',('''			if length == 0 {
				log.Warningf("set connection to close")
				conn.state = CONN_STATE_CLOSE
				return
			}
			cmd, err = parseHeader(buf)
			if err != nil {
				log.Error(err)
				log.Warningf("set connection to close")
				conn.state = CONN_STATE_CLOSE
				return
			}
''','''			if length != 0 {
				cmd, err = parseHeader(buf)
			}
			if length == 0 || err != nil {
				log.Warningf("set connection to close: %v", err)
				conn.state = CONN_STATE_CLOSE
				return
			}
'''),('''			dl := ((cmd.DataLen + DataPadding - 1) / DataPadding) * DataPadding
''','''			dl := cmd.DataLen
			if r := dl % DataPadding; r != 0 {
				dl += DataPadding - r
			}
'''))
