package iscsit

import (
	"sort"
	"strings"

	"github.com/gostor/gotgt/pkg/util"
)

// A parameter has a permitted value: the default, or one in the range if the initiator may change it. The sending
// limit of the target is the initiator's to declare (as its MaxRecvDataSegmentLength).
func c12Permitted(x string, d *iscsiSessionKeys, v uint) bool {
	return v == d.def || (!d.constValue || x == "MaxXmitDataSegmentLength") && d.min <= v && v <= d.max
}

// After any login text, every parameter has a permitted value, what was not offered is as before, and what is
// answered is in force.
func contract_C12_processLoginData(conn *iscsiConnection, kv map[string]string, x string, j int) {
	vRequires(conn != nil && conn.req != nil && conn.loginParam != nil)
	p := conn.loginParam
	vRequires(len(p.sessionParam) == ISCSI_PARAM_MAX && kv != nil)
	d, ok := sessionKeys[x]
	vRequires(ok)
	was := p.sessionParam[d.idx].Value
	vRequires(c12Permitted(x, d, was))
	vRequires(0 <= j)
	vStub(util.ParseKVText, func(txt []byte) map[string]string { return kv })
	list := p.sessionParam
	vInvariant("the parameters are in their place", func() bool {
		return vSameBacking(p.sessionParam, list) && len(p.sessionParam) == ISCSI_PARAM_MAX
	})
	vInvariant("the value is permitted", func() bool { return c12Permitted(x, d, p.sessionParam[d.idx].Value) })
	vInvariant("answers are for keys seen", func(negoKV []util.KeyValue) bool {
		return j >= len(negoKV) || vVisited(kv, negoKV[j].Key)
	})
	vInvariant("answers are for known keys", func(negoKV []util.KeyValue) bool {
		if j >= len(negoKV) {
			return true
		}
		_, ok := sessionKeys[negoKV[j].Key]
		return ok
	})
	vInvariant("the answer is in force", func(negoKV []util.KeyValue) bool {
		return j >= len(negoKV) || negoKV[j].Key != x || x == "MaxXmitDataSegmentLength" || negoKV[j].Value == d.inConv(p.sessionParam[d.idx].Value)
	})
	vInvariant("what is not offered stays", func() bool {
		_, off := kv[x]
		return off || x == "MaxXmitDataSegmentLength" || p.sessionParam[d.idx].Value == was
	})
	negoKV, err := conn.processLoginData()
	now := p.sessionParam[d.idx].Value
	vEnsures("every parameter has a permitted value", len(p.sessionParam) == ISCSI_PARAM_MAX && c12Permitted(x, d, now))
	_, off := kv[x]
	if !off && x != "MaxXmitDataSegmentLength" {
		vEnsures("what is not offered stays", now == was)
	}
	if err != nil {
		return
	}
	if j < len(negoKV) {
		_, ok := sessionKeys[negoKV[j].Key]
		vEnsures("only known keys are answered", ok)
		if negoKV[j].Key == x && x != "MaxXmitDataSegmentLength" {
			vEnsures("what is answered is in force", negoKV[j].Value == d.inConv(now))
		}
	}
}

type c12Offer struct {
	value   uint // the value offered last
	changed bool // some value answered is not the one offered
}

func c12Answers(g *c12Offer) {
	offer := func() (uint, bool) {
		g.value = vAny[uint]("value offered")
		return g.value, vAny[bool]("understood")
	}
	answer := func(v uint) string {
		g.changed = g.changed || v != g.value
		return ""
	}
	vStub(numberKeyConv, func(s string) (uint, bool) { return offer() })
	vStub(boolKeyConv, func(s string) (uint, bool) { return offer() })
	vStub(digestKeyConv, func(s string) (uint, bool) {
		v, ok := offer()
		if v == DIGEST_ALL {
			g.value = DIGEST_NONE // one of the list
		}
		return v, ok
	})
	vStub(numberKeyInConv, answer)
	vStub(boolKeyInConv, answer)
	vStub(digestKeyInConv, answer)
}

// The negotiation of parameters ends in the full feature phase only if that was asked for, or a value was changed.
func contract_C12_fullFeature(conn *iscsiConnection, kv map[string]string) {
	vRequires(conn != nil && conn.req != nil && conn.loginParam != nil)
	p := conn.loginParam
	vRequires(len(p.sessionParam) == ISCSI_PARAM_MAX && kv != nil)
	g := &c12Offer{}
	c12Answers(g)
	vStub(util.ParseKVText, func(txt []byte) map[string]string { return kv })
	asked := p.iniNSG == FullFeaturePhase && p.iniTrans
	nsg, trans := p.tgtNSG, p.tgtTrans
	vInvariant("changes are of offered values", func(kvChanges int) bool { return kvChanges == 0 || g.changed })
	vInvariant("no decision yet", func() bool { return p.tgtNSG == nsg && p.tgtTrans == trans })
	_, err := conn.processLoginData()
	if err != nil {
		vEnsures("a refused text does not end the negotiation", p.tgtNSG == nsg && p.tgtTrans == trans)
		return
	}
	vEnsures("full feature phase as asked, or after a change", asked || g.changed)
}

// The connection is in the full feature phase only after the negotiation of parameters ended in it.
func contract_C12_iscsiExecLogin(s *ISCSITargetDriver, conn *iscsiConnection) {
	vRequires(s != nil && conn != nil && conn.req != nil && conn.loginParam != nil)
	p := conn.loginParam
	req := conn.req
	done := false
	vRequires(len(p.sessionParam) == ISCSI_PARAM_MAX && conn.state != CONN_STATE_LOGIN_FULL)
	stage := req.CSG
	vStub((*iscsiConnection).processSecurityData, func(c *iscsiConnection) error {
		vEnsures("only the security stage is about authentication", c == conn && stage == SecurityNegotiation)
		c.loginParam.tgtNSG, c.loginParam.tgtTrans = LoginOperationalNegotiation, vAny[bool]("transit")
		return vAny[error]("security")
	})
	vStub((*iscsiConnection).processLoginData, func(c *iscsiConnection) ([]util.KeyValue, error) {
		vEnsures("parameters are negotiated with the stages asked for", c == conn && p.iniNSG == req.NSG && p.iniTrans == req.Transit && p.iniCSG == stage)
		v := vAny[uint]("segment length of the initiator")
		vAssume(v >= 512 && v <= 16777215)
		p.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value = v
		err := vAny[error]("login")
		if err == nil {
			p.tgtNSG, p.tgtTrans = FullFeaturePhase, true
			done = true
		}
		return nil, err
	})
	vStub((*ISCSITargetDriver).BindISCSISession, func(d *ISCSITargetDriver, c *iscsiConnection) error { return vAny[error]("bind") })
	vStub((*iscsiConnection).buildRespPackage, func(c *iscsiConnection, oc OpCode, task *iscsiTask) error {
		vEnsures("the answer is a login response", oc == OpLoginResp && c == conn)
		return vAny[error]("response")
	})
	s.iscsiExecLogin(conn)
	vEnsures("full feature phase only after negotiation", conn.state != CONN_STATE_LOGIN_FULL || done && stage != SecurityNegotiation)
}

// An offer of authentication methods without None is refused, and any other goes on to the negotiation of parameters.
func contract_C12_processSecurityData(conn *iscsiConnection, kv map[string]string, methods []string) {
	vRequires(conn != nil && conn.req != nil && conn.loginParam != nil && kv != nil)
	vStub(util.ParseKVText, func(txt []byte) map[string]string { return kv })
	val, offered := kv["AuthMethod"]
	vStub(strings.Split, func(s, sep string) []string {
		vEnsures("the list of methods is looked at", offered && s == val && sep == ",")
		return methods
	})
	none := !vForall(0, len(methods), func(i int) bool { return methods[i] != "None" })
	vInvariant("None is not among them", func(k int) bool {
		return vForall(0, k, func(i int) bool { return methods[i] != "None" })
	})
	vInvariant("None is found among them", func(k int, found bool) bool {
		return found != vForall(0, k, func(i int) bool { return methods[i] != "None" })
	})
	vInvariant("an offer seen is not refused", func() bool { return !vVisited(kv, "AuthMethod") || none })
	err := conn.processSecurityData()
	vEnsures("methods without None are refused", !offered || none || err != nil)
}

// A connection starts with the default of every parameter, each in its own place.
func contract_C12_init(c *iscsiConnection, x string, k int) {
	vRequires(c != nil && c.loginParam != nil)
	p := c.loginParam
	d, ok := sessionKeys[x]
	vRequires(ok)
	vEnsures("every parameter has its place", d.idx < ISCSI_PARAM_MAX && len(sessionKeys) == ISCSI_PARAM_MAX)
	vInvariant("one entry for each parameter", func() bool { return len(p.sessionParam) == vVisitedCount(sessionKeys) })
	vInvariant("entries are defaults", func() bool {
		l := p.sessionParam
		return k < 0 || k >= len(l) || l[k].idx != d.idx || l[k].Value == d.def
	})
	vInvariant("parameters seen have entries", func() bool {
		l := p.sessionParam
		return !vVisited(sessionKeys, x) || !vForall(0, len(l), func(i int) bool { return l[i].idx != d.idx })
	})
	vStub(sort.Sort, func(data sort.Interface) {
		l, ok := data.(ISCSISessionParamList)
		vEnsures("the parameters are sorted", ok && vSameBacking(l, p.sessionParam) && len(l) == len(p.sessionParam) && len(l) == ISCSI_PARAM_MAX)
		w := vWitness("every parameter has an entry", 0, len(l), func(i int) bool { return l[i].idx == d.idx })
		vEnsures("the entry has the default", w != k || l[w].Value == d.def)
		vAssume(w == k)
		// sorting entries with the numbers from 0 on, one of each, puts every one in the place of its number
		l[w], l[d.idx] = l[d.idx], l[w]
	})
	c.init()
	vEnsures("every parameter starts with its default", len(p.sessionParam) == ISCSI_PARAM_MAX && p.sessionParam[d.idx].idx == d.idx && p.sessionParam[d.idx].Value == d.def)
}

// Parameters are sorted by their number.
func contract_C12_order(list ISCSISessionParamList, i, j, k int) {
	vRequires(0 <= i && i < len(list) && 0 <= j && j < len(list) && 0 <= k && k < len(list) && list[i].idx != list[j].idx)
	vEnsures("by number", list.Less(i, j) == (list[i].idx < list[j].idx) && list.Len() == len(list))
	a, b, o := list[i], list[j], list[k]
	list.Swap(i, j)
	vEnsures("swapped", list[i] == b && list[j] == a && (k == i || k == j || list[k] == o))
}

// The answer to a login says what was decided, and carries the answers of the negotiation.
func contract_C12_buildRespPackage(conn *iscsiConnection, kv []util.KeyValue, task *iscsiTask, j int) {
	vRequires(conn != nil && conn.req != nil && conn.loginParam != nil && 0 <= j && len(kv) < 1<<32)
	p := conn.loginParam
	var sent []util.KeyValue
	calls := 0
	text := []byte{}
	vStub((*iscsiConnection).processLoginData, func(c *iscsiConnection) ([]util.KeyValue, error) {
		return kv, vAny[error]("login")
	})
	declared := p.keyDeclared
	vStub(util.MarshalKVText, func(l []util.KeyValue) []byte {
		calls++
		sent = l
		return text
	})
	n := len(kv)
	var o util.KeyValue
	if j < n {
		o = kv[j]
	}
	nsg, trans, csg := p.tgtNSG, p.tgtTrans, conn.req.CSG
	err := conn.buildRespPackage(OpLoginResp, task)
	if err != nil {
		return
	}
	r := conn.resp
	vEnsures("the stages are those decided", r != nil && r.OpCode == OpLoginResp && r.Transit == trans && r.NSG == nsg && r.CSG == csg)
	if csg == SecurityNegotiation {
		return
	}
	vEnsures("the answers are sent", calls == 1 && vSameBacking(r.RawData, text) && len(sent) >= n)
	vEnsures("every answer is sent", j >= n || sent[j] == o)
	vEnsures("the declarations are sent once", declared && len(sent) == n || !declared && len(sent) == n+2 && p.keyDeclared)
	if !declared {
		vEnsures("the portal group is that of the session", sent[n].Key == "TargetPortalGroupTag" && sent[n].Value == numberKeyInConv(uint(p.tpgt)))
		vEnsures("the segment length is the default", sent[n+1].Key == "MaxRecvDataSegmentLength" && sent[n+1].Value == numberKeyInConv(sessionKeys["MaxRecvDataSegmentLength"].def))
	}
}
