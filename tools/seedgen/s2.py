import os
exec(open(os.path.dirname(os.path.abspath(__file__))+'/mk.py').read())
want=set(sys.argv[1:])
_seed=seed
def seed(id,*a):
    if not want or id in want: _seed(id,*a)
SB='pkg/scsi/sbc.go'; SP='pkg/scsi/spc.go'; SS='pkg/scsi/scsi.go'; PR='pkg/scsi/scsi_pr.go'; LM='pkg/scsi/scsilumap.go'
IS='pkg/port/iscsit/iscsid.go'; SE='pkg/port/iscsit/session.go'; CO='pkg/port/iscsit/conn.go'; LO='pkg/port/iscsit/login.go'; CM='pkg/port/iscsit/cmd.go'
NET='''
package iscsit

import (
	"net"
	"testing"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	"github.com/gostor/gotgt/pkg/util"
)

var _ = scsi.ILLEGAL_REQUEST
var _ = api.READ_10
var _ = util.MarshalUint32

type demoAddr struct{}

func (demoAddr) Network() string { return "tcp" }
func (demoAddr) String() string  { return "10.0.0.1:3260" }

// demoNet is a connection that delivers in and then ends; it keeps what is written.
type demoNet struct {
	in, out []byte
	closed  bool
}

func (c *demoNet) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, net.ErrClosed
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *demoNet) Write(b []byte) (int, error)        { c.out = append(c.out, b...); return len(b), nil }
func (c *demoNet) Close() error                       { c.closed = true; return nil }
func (c *demoNet) LocalAddr() net.Addr                { return demoAddr{} }
func (c *demoNet) RemoteAddr() net.Addr               { return demoAddr{} }
func (c *demoNet) SetDeadline(t time.Time) error      { return nil }
func (c *demoNet) SetReadDeadline(t time.Time) error  { return nil }
func (c *demoNet) SetWriteDeadline(t time.Time) error { return nil }

func demoConn() *iscsiConnection {
	conn := &iscsiConnection{conn: &demoNet{}, loginParam: &iscsiLoginParam{}, req: &ISCSICommand{}, rxIOState: IOSTATE_RX_BHS}
	conn.init()
	conn.maxRecvDataSegmentLength = 8192
	conn.maxBurstLength = 262144
	conn.maxSeqCount = 32
	conn.session = &ISCSISession{SessionParam: conn.loginParam.sessionParam, ITNexus: &api.ITNexus{}, Target: &ISCSITarget{}}
	return conn
}
'''
seed('C03-verify-wrap','C03',[(SB,'''	if tl != 0 {
		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense: lba''','''	if tl != 0 {
		if lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense: lba''',0)],
 'pkg/scsi','VERIFY(16) with byte check of a block range that wraps around 2^64','the range is taken to lie inside the logical unit and the store is read outside it',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	c := demoCmd(demoLU(st, 1<<20), 0, 1024, 0x8f, 2, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 2)
	r := SBCVerify(0, c)
	if r == api.SAMStatGood || len(st.reads) != 0 {
		t.Fatalf("%v: reads %v", r, st.reads)
	}
}
''')
seed('C07-lun-fallback','C07',[(SS,'''		if lun != 0 {
			BuildSense''','''		if byte(lun) != 0 {
			BuildSense''')],
 'pkg/scsi','a command to a LUN that is not mapped and whose first byte is zero (256 for example)','the command runs on the placeholder device instead of being refused',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	lu0 := NewLUN0()
	ran := 0
	lu0.PerformCommand = func(tid int, cmd *api.SCSICommand) api.SAMStat { ran++; return api.SAMStatGood }
	s := &SCSITargetService{Targets: []*api.SCSITarget{{TID: 3, LUN0: lu0, Devices: api.LUNMap{}}}}
	for _, l := range [][8]uint8{{1}, {0, 1}, {0, 0, 0, 0, 0, 0, 0, 1}} {
		c := &api.SCSICommand{Lun: l, SCB: make([]byte, 16)}
		if err := s.AddCommandQueue(3, c); err != nil || c.Result == 0 || ran != 0 {
			t.Fatalf("lun %v: %v %d %d", l, err, c.Result, ran)
		}
	}
}
''')
seed('C07-prefetch16','C07',[(SB,'''sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)''','''sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_EA_FA|PR_EA_FN)''')],
 'pkg/scsi','PRE-FETCH(16)','PRE-FETCH(16) runs the operation of SYNCHRONIZE CACHE, without a range check',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	st := &demoStore{}
	c := demoCmd(demoLU(st, 1<<20), 0, 0, 0x90, 0, 0, 0, 0, 0, 0, 0xff, 0, 0, 0, 0, 0, 1)
	op := NewSBCDevice(api.TYPE_DISK).PerformCommand(0x90).(SCSIDeviceOperation)
	if r := op.CommandPerformFunc(0, c); r == api.SAMStatGood {
		t.Fatal(r)
	}
}
''')
seed('C08-capacity-limit','C08',[(SB,'''	if size>>32 != 0 {
''','''	if size>>33 != 0 {
''')],
 'pkg/scsi','READ CAPACITY(10) on a logical unit of 2^32 to 2^33 blocks (2 to 4 TiB)','the last block number is reported modulo 2^32',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	c := demoCmd(demoLU(&demoStore{}, 3<<40), 8, 0, 0x25)
	r := SBCReadCapacity(0, c)
	if b := c.InSDBBuffer.Buffer; r != api.SAMStatGood || b[0] != 0xff || b[1] != 0xff || b[2] != 0xff || b[3] != 0xff {
		t.Fatalf("%v %v", r, b)
	}
}
''')
seed('C08-swp-bit','C08',[(SB,'''	if cmd.Device.Attrs.Readonly || cmd.Device.Attrs.SWP {
		deviceSpecific |= 0x80''','''	if cmd.Device.Attrs.Readonly {
		deviceSpecific |= 0x80''')],
 'pkg/scsi','MODE SENSE on a logical unit that is software write protected but not read-only','the write protect bit is not shown',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	lu := demoLU(&demoStore{}, 1<<20)
	lu.Attrs.SWP = true
	lu.ModePages[0].Size = 18
	c := demoCmd(lu, 64, 0, 0x1a, 8, 8, 0, 64)
	if r := SBCModeSense(0, c); r != api.SAMStatGood || c.InSDBBuffer.Buffer[2]&0x80 == 0 {
		t.Fatalf("%v %v", r, c.InSDBBuffer.Buffer)
	}
}
''')
seed('C10-datasn','C10',[(IS,'''	resp.DataSN = 0
	maxCount''','''	resp.DataSN = uint32(transferLen / (1 << 24))
	maxCount''')],
 'pkg/port/iscsit','a read of 16 MiB or more','DataSN of the Data-In PDUs does not start at zero',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.state = CONN_STATE_SCSI
	conn.txIOState = IOSTATE_TX_BHS
	conn.txTask = &iscsiTask{}
	conn.resp = &ISCSICommand{OpCode: OpSCSIIn, HasStatus: true, RawData: make([]byte, 1<<24)}
	(&ISCSITargetDriver{}).txHandler(conn)
	out := conn.conn.(*demoNet).out
	for n := uint32(0); len(out) > 0; n++ {
		if sn := uint32(ParseUint(out[36:40])); sn != n {
			t.Fatalf("PDU %d has DataSN %d", n, sn)
		}
		out = out[48+int(ParseUint(out[5:8])):]
	}
}
''')
seed('C10-burst','C10',[(IS,'''			count += 1
			if count < maxCount {
				resp.FinalInSeq = false
				resp.Final = false
			} else {
				count = 0''','''			if count += 1; count <= maxCount {
				resp.FinalInSeq = false
				resp.Final = false
			} else {
				count = 0''')],
 'pkg/port/iscsit','a read of more than the maximum burst length','a sequence of Data-In PDUs is one segment longer than the burst size',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.state = CONN_STATE_SCSI
	conn.txIOState = IOSTATE_TX_BHS
	conn.txTask = &iscsiTask{}
	conn.resp = &ISCSICommand{OpCode: OpSCSIIn, HasStatus: true, RawData: make([]byte, 1<<20)}
	(&ISCSITargetDriver{}).txHandler(conn)
	out := conn.conn.(*demoNet).out
	seq := 0
	for len(out) > 0 {
		n := int(ParseUint(out[5:8]))
		if seq += n; seq > 262144 {
			t.Fatalf("a sequence of %d bytes", seq)
		}
		if out[1]&0x80 != 0 {
			seq = 0
		}
		out = out[48+n:]
	}
}
''')
seed('C11-r2tsn','C11',[(IS,'''			if task.unsolCount == 0 {
				task.r2tSN += 1''','''			if task.unsolCount == 0 || task.r2tSN == 0 {
				task.r2tSN += 1''')],
 'pkg/port/iscsit','a write that begins with unsolicited Data-Out (InitialR2T=No) and needs R2Ts afterwards','the first R2T carries R2TSN 1',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.state = CONN_STATE_SCSI
	task := &iscsiTask{tag: 7, conn: conn, cmd: &ISCSICommand{}, r2tCount: 4096, unsolCount: 1,
		scmd: &api.SCSICommand{OutSDBBuffer: &api.SCSIDataBuffer{Length: 4096, Buffer: make([]byte, 4096)}}}
	conn.session.PendingTasks = taskQueue{task}
	conn.req = &ISCSICommand{OpCode: OpSCSIOut, TaskTag: 7, Final: true, DataLen: 512, RawData: make([]byte, 512)}
	(&ISCSITargetDriver{}).scsiCommandHandler(conn)
	time.Sleep(50 * time.Millisecond)
	out := conn.conn.(*demoNet).out
	if len(out) < 48 || out[0]&0x3f != byte(OpReady) || ParseUint(out[36:40]) != 0 || ParseUint(out[40:44]) != 512 {
		t.Fatalf("%v", out)
	}
}
''')
seed('C11-burst','C11',[(CO,'''		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) {
			conn.resp.DesiredLength = uint32(val)''','''		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) && task.offset == 0 {
			conn.resp.DesiredLength = uint32(val)''')],
 'pkg/port/iscsit','a write of more than two bursts','the second R2T asks for more than the maximum burst length',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	task := &iscsiTask{offset: 262144, r2tCount: 1 << 20, scmd: &api.SCSICommand{}}
	conn.buildRespPackage(OpReady, task)
	if conn.resp.DesiredLength > 262144 {
		t.Fatal(conn.resp.DesiredLength)
	}
}
''')
seed('C12-range','C12',[(LO,'''					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
						nego''','''					if (uintVal >= defSessKey.min) || (uintVal <= defSessKey.max) {
						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
						nego''')],
 'pkg/port/iscsit','a login that offers a value outside the permitted range','the value is accepted',NET+'''
func TestZZDemo(t *testing.T) {
	for key, k := range sessionKeys {
		if k.constValue {
			continue
		}
		conn := demoConn()
		conn.loginParam.iniNSG, conn.loginParam.iniTrans = FullFeaturePhase, true
		conn.req.RawData = []byte(key + "=4000000000\\x00")
		conn.processLoginData()
		if v := conn.loginParam.sessionParam[k.idx].Value; v < k.min || v > k.max {
			t.Fatalf("%s: %d", key, v)
		}
	}
}
''')
seed('C12-const','C12',[(LO,'''					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
				} else {''','''					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
				} else {''')],
 'pkg/port/iscsit','a login that offers another value for a parameter the target does not let the initiator change','the answer confirms the offered value while the default stays in force',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.loginParam.iniNSG, conn.loginParam.iniTrans = FullFeaturePhase, true
	key := ""
	for name, k := range sessionKeys {
		if k.constValue && k.idx == ISCSI_PARAM_MAX_BURST {
			key = name
		}
	}
	if key == "" {
		t.Skip()
	}
	conn.req.RawData = []byte(key + "=65536\\x00")
	kv, err := conn.processLoginData()
	if err != nil {
		t.Skip(err)
	}
	for _, p := range kv {
		if p.Key == key && p.Value != numberKeyInConv(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value) {
			t.Fatal(p)
		}
	}
}
''')
seed('C14-queue-full','C14',[(IS,'''	if cmdsn == sess.ExpCmdSN {
''','''	if cmdsn == sess.ExpCmdSN || sess.PendingTasks.Len() >= int(sess.MaxQueueCommand) {
''')],
 'pkg/port/iscsit','a command ahead of its turn while as many commands are pending as the window has places','it is executed out of order',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	sess := conn.session
	sess.ExpCmdSN, sess.MaxQueueCommand = 10, 2
	for sn := uint32(12); sn < 15; sn++ {
		task := &iscsiTask{tag: sn, conn: conn, cmd: &ISCSICommand{OpCode: OpSCSITaskReq, CmdSN: sn}}
		task.cmd.TaskFunc = ISCSI_TM_FUNC_CLEAR_ACA
		(&ISCSITargetDriver{}).iscsiTaskQueueHandler(task)
	}
	if len(sess.PendingTasks) != 3 || sess.ExpCmdSN != 10 {
		t.Fatalf("%d pending, next %d", len(sess.PendingTasks), sess.ExpCmdSN)
	}
}
''')
seed('C15-empty-value','C15',[('pkg/util/util.go','''		data = append(data, '=')
''','''		if v.Value != "" || v.Key == "" {
			data = append(data, '=')
		}
''')],
 'pkg/util','a pair with an empty value','the equals sign is missing, so that the pair is lost when it is decoded','''
package util

import "testing"

func TestZZDemo(t *testing.T) {
	if b := MarshalKVText([]KeyValue{{"A", ""}, {"B", "1"}}); string(b) != "A=\\x00B=1\\x00" {
		t.Fatalf("%q", b)
	}
}
''')
seed('C16-shared-map','C16',[(LM,'''	if lunMap == nil {
		globalSCSILUMap.TargetsLUNMap[lm.TargetName] = make(api.LUNMap)
		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
	}
	lunMap[lm.LUN] = device''','''	if len(lunMap) == 0 {
		globalSCSILUMap.TargetsLUNMap[lm.TargetName] = globalSCSILUMap.TargetsLUNMap[""]
		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
	}
	if lunMap == nil {
		globalSCSILUMap.TargetsLUNMap[lm.TargetName] = make(api.LUNMap)
		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
	}
	lunMap[lm.LUN] = device''')],
 'pkg/scsi','a target whose name is empty has LUNs before another target gets its first one','the two targets share one LUN map',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	d := &api.SCSILu{UUID: 77001}
	globalSCSILUMap.AllDevices[77001] = d
	AddLUNMapping(LUNMapping{TargetName: "", LUN: 1, DeviceID: 77001})
	AddLUNMapping(LUNMapping{TargetName: "zz-other", LUN: 5, DeviceID: 77001})
	if GetLU("", 5) != nil || GetLU("zz-other", 1) != nil || GetLU("zz-other", 5) != d {
		t.Fatal("the targets share LUNs")
	}
}
''')
seed('C16-del-device','C16',[(LM,'''	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
''','''	lunMap := globalSCSILUMap.TargetsLUNMap[m.TargetName]
	for lun, dev := range lunMap {
		if lun == m.LUN || (dev != nil && dev == lunMap[m.LUN]) {
			delete(lunMap, lun)
		}
	}
''')],
 'pkg/scsi','one device is mapped at two LUNs of a target and one of the mappings is removed','the other LUN is removed as well',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		d := &api.SCSILu{UUID: 77002}
		globalSCSILUMap.AllDevices[77002] = d
		AddLUNMapping(LUNMapping{TargetName: "zz-two", LUN: 1, DeviceID: 77002})
		AddLUNMapping(LUNMapping{TargetName: "zz-two", LUN: 2, DeviceID: 77002})
		DelLUNMapping(LUNMapping{TargetName: "zz-two", LUN: 2, DeviceID: 77002})
		if GetLU("zz-two", 1) != d || GetLU("zz-two", 2) != nil {
			t.Fatal("the other LUN is gone")
		}
	}
}
''')
seed('C17-current','C17',[(PR,'''	if curRes == res {
		return true
	}
''','''	if curRes.Key == res.Key {
		return true
	}
''')],
 'pkg/scsi','two nexuses registered under the same key, one of which holds the reservation','the other nexus counts as the holder and can release or take over the reservation',SCSIHEAD.replace('"github.com/gostor/gotgt/pkg/api"','"github.com/gostor/gotgt/pkg/api"\n\tuuid "github.com/satori/go.uuid"')+'''
func TestZZDemo(t *testing.T) {
	op := &SCSISimpleReservationOperator{targetReservations: map[string]SCSILUReservationMap{}}
	op.InitLUReservation("t", 1)
	a := &api.SCSIReservation{Key: 5, ITNexusID: uuid.NewV1(), Type: PR_TYPE_WRITE_EXCLUSIVE}
	b := &api.SCSIReservation{Key: 5, ITNexusID: uuid.NewV1()}
	op.AddReservation("t", 1, a)
	op.AddReservation("t", 1, b)
	op.SetCurrentReservation("t", 1, a)
	if !op.IsCurrentReservation("t", 1, a) || op.IsCurrentReservation("t", 1, b) {
		t.Fatal("not the holder")
	}
}
'''.replace('','')) 
seed('C17-remove-last','C17',[(PR,'''	resArray := LURes.Reservations

	for j := range resArray {
		if resArray[j] == res {
			i = j
			break
		}
	}

	if i >= 0 {
		resArray[i] = resArray[len(resArray)-1]
		resArray[len(resArray)-1] = nil
		resArray = resArray[:len(resArray)-1]
		LURes.Reservations = resArray
	}
}
''','''	resArray := LURes.Reservations

	for j := range resArray {
		if resArray[j].Key == res.Key {
			i = j
			break
		}
	}

	if i >= 0 {
		resArray[i] = resArray[len(resArray)-1]
		resArray[len(resArray)-1] = nil
		resArray = resArray[:len(resArray)-1]
		LURes.Reservations = resArray
	}
}
''')],
 'pkg/scsi','REGISTER AND MOVE with UNREG by a nexus whose key another nexus registered first','the other nexus loses its registration',SCSIHEAD.replace('"github.com/gostor/gotgt/pkg/api"','"github.com/gostor/gotgt/pkg/api"\n\tuuid "github.com/satori/go.uuid"')+'''
func TestZZDemo(t *testing.T) {
	op := &SCSISimpleReservationOperator{targetReservations: map[string]SCSILUReservationMap{}}
	op.InitLUReservation("t", 1)
	a := &api.SCSIReservation{Key: 5, ITNexusID: uuid.NewV1()}
	b := &api.SCSIReservation{Key: 5, ITNexusID: uuid.NewV1()}
	op.AddReservation("t", 1, a)
	op.AddReservation("t", 1, b)
	op.RemoveReservation("t", 1, b)
	if l := op.GetReservationList("t", 1); len(l) != 1 || l[0] != a {
		t.Fatal(l)
	}
}
''')
seed('C18-inquiry','C18',[(SP,'''	if evpd {
		switch pcode {
		case 0x00:''','''	if evpd {
		if cmd.Device.Attrs.Online && cmd.InSDBBuffer.Buffer[0] == 0xff {
			log.Warn("the buffer is not cleared")
		}
		switch pcode {
		case 0x00:''')],
 'pkg/scsi','INQUIRY for a vital product data page with an expected data transfer length of zero','the target crashes with an index out of range',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	c := demoCmd(demoLU(&demoStore{}, 1<<20), 0, 0, 0x12, 1, 0, 0, 96)
	c.Target = &api.SCSITarget{Name: "t"}
	SPCInquiry(0, c)
}
''')
seed('C19-flat-luns','C19',[(SP,'''	if _, ok := cmd.Target.Devices[0]; !ok {
		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
	} else {''','''	if len(cmd.Target.Devices) == 0 {
		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
	} else {''')],
 'pkg/scsi','REPORT LUNS to a target that has LUNs but not LUN 0','the list length misses the LUN 0 that is listed',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	lu := demoLU(&demoStore{}, 1<<20)
	c := demoCmd(lu, 64, 0, 0xa0, 0, 0, 0, 0, 0, 0, 0, 0, 64)
	c.Target = &api.SCSITarget{Name: "t", Devices: api.LUNMap{1: lu}}
	r := SPCReportLuns(0, c)
	if b := c.InSDBBuffer.Buffer; r != api.SAMStatGood || len(b) != 8+int(b[3]) {
		t.Fatalf("%v %v", r, b)
	}
}
''')
seed('C19-page-length','C19',[(SP,'''	data = descBuf.Bytes()
	pageLength = uint16(len(data))
''','''	data = descBuf.Bytes()
	pageLength = uint16(byte(len(data)))
''',1)],
 'pkg/scsi','INQUIRY page 83h of a target whose name is long, so that the page has more than 255 bytes','the page length loses its upper byte',SCSIHEAD+'''
func TestZZDemo(t *testing.T) {
	lu := demoLU(&demoStore{}, 1<<20)
	c := demoCmd(lu, 1024, 0, 0x12, 1, 0x83, 2, 0)
	name := make([]byte, 223)
	for i := range name {
		name[i] = 'a'
	}
	c.Target = &api.SCSITarget{Name: string(name)}
	c.Target.TargetPortGroups = []*api.TargetPortGroup{{GroupID: 0, TargetPortGroup: []*api.SCSITargetPort{{TargetPortName: string(name)}}}}
	r := SPCInquiry(0, c)
	if b := c.InSDBBuffer.Buffer; r != api.SAMStatGood || len(b) != 4+int(b[2])<<8+int(b[3]) {
		t.Fatalf("%v %d %v", r, len(b), b[:4])
	}
}
''')
seed('C20-write12','C20',[(IS,'	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:\n','	case api.WRITE_6, api.WRITE_10, api.WRITE_VERIFY_12, api.WRITE_16:\n')],
 'pkg/port/iscsit','WRITE(12)','a WRITE(12) is not counted as a write',NET.replace('"net"','"net"\n\t"sync"')+'''
func TestZZDemo(t *testing.T) {
	s := &ISCSITargetDriver{mu: new(sync.RWMutex)}
	s.TargetStats.SCSIIOCount = map[int]int64{}
	conn := demoConn()
	conn.resp = &ISCSICommand{SCSIOpCode: byte(api.WRITE_12), ExpectedDataLen: 512}
	s.UpdateStats(conn)
	if st := s.Stats(); st.WriteIOPS != 1 || st.TotalWriteBlockCount != 512 {
		t.Fatal(st)
	}
}
''')
seed('C22-bindlock','C22',[(SE,'''	sess, ok = tgt.Sessions[tsih]
	if !ok {
		return nil
	}
	if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) {
		return sess
	}
	return nil
''','''	sess, ok = tgt.Sessions[tsih]
	if !ok {
		return nil
	}
	if (sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt) {
		return sess
	}
	if len(sess.Connections) == 0 {
		tgt.SessionsRWMutex.Lock()
		delete(tgt.Sessions, tsih)
		tgt.SessionsRWMutex.Unlock()
	}
	return nil
''')],
 'pkg/port/iscsit','a login that names a session of another initiator that has no connection','the target takes a lock it already holds and hangs',NET+'''
func TestZZDemo(t *testing.T) {
	tgt := &ISCSITarget{Sessions: map[uint16]*ISCSISession{5: {TSIH: 5}}}
	s := &ISCSITargetDriver{iSCSITargets: map[string]*ISCSITarget{"t": tgt}}
	done := make(chan bool)
	go func() { s.LookupISCSISession("t", "x", 1, 5, 1); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("hangs")
	}
}
''')
seed('C22-unlock','C22',[(IS,'''		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		conn.session.PendingTasksMutex.RUnlock()''','''		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		if task == nil && conn.req.Final {
			return fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
		}
		conn.session.PendingTasksMutex.RUnlock()''')],
 'pkg/port/iscsit','a final Data-Out for a task that is not pending (any more)','the pending-task lock stays taken for good',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.state = CONN_STATE_SCSI
	conn.req = &ISCSICommand{OpCode: OpSCSIOut, TaskTag: 7, Final: true}
	(&ISCSITargetDriver{}).scsiCommandHandler(conn)
	done := make(chan bool)
	go func() { conn.session.PendingTasksMutex.Lock(); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the lock is not released")
	}
}
''')
seed('C23-tpgt','C23',[(SE,'(sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT == tpgt)','(sess.Initiator == iniName) && (sess.ISID == isid) && (sess.TPGT|tpgt == sess.TPGT)')],
 'pkg/port/iscsit','a login through another portal group whose tag is a bit-subset of that of the session','it joins a session of another portal group',NET+'''
func TestZZDemo(t *testing.T) {
	tgt := &ISCSITarget{Sessions: map[uint16]*ISCSISession{5: {TSIH: 5, Initiator: "i", ISID: 9, TPGT: 3}}}
	s := &ISCSITargetDriver{iSCSITargets: map[string]*ISCSITarget{"t": tgt}}
	if s.LookupISCSISession("t", "i", 9, 5, 1) != nil || s.LookupISCSISession("t", "i", 9, 5, 3) == nil {
		t.Fatal("another portal group")
	}
}
''')
seed('C23-prefix','C23',[(SE,'			if t.SCSITarget.Name == conn.loginParam.target {','			if len(t.SCSITarget.Name) >= len(conn.loginParam.target) && t.SCSITarget.Name[:len(conn.loginParam.target)] == conn.loginParam.target {')],
 'pkg/port/iscsit','a login to a name that is a proper prefix of the name of a target','the login reaches a target it did not name',NET+'''
func TestZZDemo(t *testing.T) {
	tgt := &ISCSITarget{Sessions: map[uint16]*ISCSISession{}, TPGTs: map[uint16]*iSCSITPGT{1: {1, map[string]struct{}{"10.0.0.1:3260": {}}}}}
	tgt.SCSITarget.Name = "iqn.a:disk10"
	tgt.SCSITarget.TID = 7
	s := &ISCSITargetDriver{iSCSITargets: map[string]*ISCSITarget{"iqn.a:disk10": tgt}, TSIHPool: map[uint16]bool{}}
	conn := demoConn()
	conn.loginParam.sessionType = SESSION_NORMAL
	conn.loginParam.target = "iqn.a:disk1"
	conn.session = nil
	if err := s.BindISCSISession(conn); err == nil || conn.tid == 7 {
		t.Fatal("reached another target", err)
	}
}
''')
seed('C27-bhs-reset','C27',[(IS,'''				} else {
					log.Debugf("Not ready to exec the task")
					conn.rxIOState = IOSTATE_RX_BHS
''','''				} else {
					log.Debugf("Not ready to exec the task")
					if req.DataLen == 0 {
						conn.rxIOState = IOSTATE_RX_BHS
					}
''')],
 'pkg/port/iscsit','a write with immediate data that is followed by unsolicited Data-Out PDUs','the next PDU is not read from its start',NET+'''
func TestZZDemo(t *testing.T) {
	conn := demoConn()
	conn.state = CONN_STATE_SCSI
	p := conn.session.SessionParam
	p[ISCSI_PARAM_INITIAL_R2T_EN].Value = 0
	p[ISCSI_PARAM_IMM_DATA_EN].Value = 1
	conn.rxIOState = IOSTATE_RX_DATA
	conn.req = &ISCSICommand{OpCode: OpSCSICmd, Write: true, CDB: make([]byte, 16), ExpectedDataLen: 4096, DataLen: 512, RawData: make([]byte, 512)}
	(&ISCSITargetDriver{}).scsiCommandHandler(conn)
	if conn.state != CONN_STATE_CLOSE && conn.rxIOState != IOSTATE_RX_BHS {
		t.Fatal("the next PDU is not read from its start")
	}
}
''')