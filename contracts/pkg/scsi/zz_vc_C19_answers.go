package scsi

import (
	"bytes"

	"github.com/gostor/gotgt/pkg/api"
)

// vLUNOf decodes an entry of the REPORT LUNS list: peripheral or flat addressing, second and lower levels zero.
func vLUNOf(e uint64) uint64 {
	return e >> 48 & 0x3fff
}

func vLUNForm(e uint64) bool {
	l := e >> 48
	return e<<16 == 0 && (l <= 0xff || l >= 0x4000 && l <= 0x7fff)
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// vAnswered is the length of an answer of total bytes, cut at the allocation length and the initiator's buffer.
func vAnswered(total int, alloc uint32, n int) int {
	if uint64(total) > uint64(alloc) {
		total = int(alloc)
	}
	return vMin(total, n)
}

// As many different LUNs are listed as are mapped, all of them mapped ones: each is listed exactly once.
func contract_C19_ReportLuns(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vApart(cmd, lu, st))
	cmd.Target = t
	m := t.Devices
	vRequires(len(m) <= 0x4000)
	vRequires(vAll(func(k uint64) bool { _, ok := m[k]; return !ok || k < 0x4000 }))
	n, count := len(cmd.InSDBBuffer.Buffer), len(m)
	alloc := uint32(vBE(cmd.SCB, 6, 4))
	_, zero := m[0]
	head := 1
	if zero {
		head = 0
	}
	vInvariant("length of the list", func(buf *bytes.Buffer) bool {
		return buf.Len() == 8+8*(head+vVisitedCount(m)) && vVisitedCount(m) <= count
	})
	vInvariant("the header", func(buf *bytes.Buffer) bool {
		b := buf.Bytes()
		return len(b) >= 8+8*head && vBE(b, 0, 4) == uint64(8*(head+count)) && (head == 0 || vBE(b, 8, 8) == 0)
	})
	vInvariant("LUNs visited are listed", func(buf *bytes.Buffer) bool {
		b := buf.Bytes()
		return vForall(head, (len(b)-8)/8, func(i int) bool {
			e := vBE(b, 8+8*i, 8)
			return vLUNForm(e) && vVisited(m, vLUNOf(e))
		})
	})
	vInvariant("no LUN twice", func(buf *bytes.Buffer) bool {
		b := buf.Bytes()
		return vForall(head, (len(b)-8)/8, func(i int) bool {
			return vForall(head, i, func(j int) bool { return vLUNOf(vBE(b, 8+8*i, 8)) != vLUNOf(vBE(b, 8+8*j, 8)) })
		})
	})
	r := SPCReportLuns(0, cmd)
	vEnsures("REPORT LUNS.ends in GOOD when the header fits", (r.Stat == api.SAM_STAT_GOOD) == (alloc >= 16))
	if r.Stat == api.SAM_STAT_GOOD {
		d := vReturned(cmd)
		total := 8 + 8*(head+count)
		vEnsures("REPORT LUNS.length returned", len(d) == vAnswered(total, alloc, n))
		if len(d) >= 4 {
			vEnsures("REPORT LUNS.list length", vBE(d, 0, 4) == uint64(8*(head+count)))
		}
		if len(d) == total {
			vEnsures("REPORT LUNS.LUN 0 comes first when it is not mapped", head == 0 || vBE(d, 8, 8) == 0)
			vEnsures("REPORT LUNS.every entry is a mapped LUN in peripheral or flat form", vForall(head, head+count, func(i int) bool {
				e := vBE(d, 8+8*i, 8)
				_, ok := m[vLUNOf(e)]
				return ok && vLUNForm(e)
			}))
			vEnsures("REPORT LUNS.no LUN twice", vForall(head, head+count, func(i int) bool {
				return vForall(head, i, func(j int) bool { return vLUNOf(vBE(d, 8+8*i, 8)) != vLUNOf(vBE(d, 8+8*j, 8)) })
			}))
		}
	}
	vEnsures("REPORT LUNS.does not touch the medium", st.untouched())
}

// vInquiryType: byte 0 of every INQUIRY answer.
func vInquiryType(d []byte, lu *api.SCSILu) bool {
	q := byte(0x20)
	if lu.Attrs.Online {
		q = 0
	}
	return len(d) == 0 || d[0] == q|byte(lu.Attrs.DeviceType)
}

func contract_C19_Inquiry(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	vRequires(vApart(cmd, lu, st))
	cmd.Target = t
	vRequires(lu.Attrs.DeviceType < 0x20)
	vRequires(len(t.Name) <= 223)
	vRequires(vPorts(t))
	n := len(cmd.InSDBBuffer.Buffer)
	evpd, page, alloc := cmd.SCB[1]&1 != 0, cmd.SCB[2], uint32(vBE(cmd.SCB, 3, 2))
	r := SPCInquiry(0, cmd)
	supported := page == 0 || evpd && (page == 0x80 || page == 0x83 || page == 0xb0 || page == 0xb2)
	vEnsures("INQUIRY.ends in GOOD for every page there is", (r.Stat == api.SAM_STAT_GOOD) == supported)
	if r.Stat == api.SAM_STAT_GOOD {
		d := vReturned(cmd)
		vEnsures("INQUIRY.no more than the allocation length and the buffer", len(d) <= n && uint64(len(d)) <= uint64(alloc))
		vEnsures("INQUIRY.device type", vInquiryType(d, lu))
		if evpd {
			if len(d) >= 2 {
				vEnsures("INQUIRY.page code", d[1] == page)
			}
			if len(d) >= 4 {
				vEnsures("INQUIRY.page length", len(d) == vAnswered(4+int(vBE(d, 2, 2)), alloc, n))
			}
		} else if len(d) >= 5 {
			vEnsures("INQUIRY.additional length", len(d) == vAnswered(5+int(d[4]), alloc, n))
		}
	}
	vEnsures("INQUIRY.does not touch the medium", st.untouched())
}

// The designation descriptors of page 83h follow each other without a gap, to the end of the page.
func contract_C19_InquiryPage83(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, t *api.SCSITarget) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && t != nil)
	cmd.Target = t
	vRequires(len(t.Name) <= 223)
	vRequires(vPorts(t))
	buf, n := InquiryPage0x83(0, cmd)
	b := buf.Bytes()
	vEnsures("page 83h.length", len(b) == 4+int(n) && vBE(b, 2, 2) == uint64(n))
	at := 8 + len(t.Name)
	vEnsures("page 83h.target name", len(b) > at && int(b[7]) == len(t.Name) && string(b[8:at]) == t.Name)
	vEnsures("page 83h.NAA", len(b) >= at+12 && b[at+3] == 8 && vBE(b, at+4, 8) == lu.UUID|3<<60)
	vEnsures("page 83h.port group and port", len(b) >= at+28 && b[at+15] == 4 && b[at+23] == 4 &&
		vBE(b, at+24, 4) == uint64(cmd.RelTargetPortID))
	vEnsures("page 83h.port name ends the page", len(b) == at+28 || len(b) >= at+32 && len(b) == at+32+int(b[at+31]))
}

func vPageHead(p api.ModePage) int {
	if p.SubPageCode == 0 {
		return 2
	}
	return 4
}

// vPageIn: b holds the header of the mode page p at position at.
func vPageIn(b []byte, at int, p api.ModePage) bool {
	if p.SubPageCode == 0 {
		return b[at] == p.PageCode && b[at+1] == p.Size
	}
	return b[at] == p.PageCode|0x40 && b[at+1] == p.SubPageCode && b[at+2] == 0 && b[at+3] == p.Size
}

// vPageValues: b holds the values of the mode page p, whose header is at position at.
func vPageValues(b []byte, at int, p api.ModePage) bool {
	at += vPageHead(p)
	return vForall(0, int(p.Size), func(i int) bool { return b[at+i] == p.Data[i] })
}

func contract_C19_ModeSenseOne(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && len(lu.ModeBlockDescriptor) == 8)
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires(op == 0x1a || op == 0x5a)
	page, sub := cmd.SCB[2]&0x3f, cmd.SCB[3]
	vRequires(page != 0x3f)
	dbd, pctrl := cmd.SCB[1]&0x08 != 0, cmd.SCB[2]>>6
	vSplit(op == 0x1a, dbd)
	start, bd, alloc := 8, 8, uint32(vBE(cmd.SCB, 7, 2))
	if op == 0x1a {
		start, alloc = 4, uint32(cmd.SCB[4])
	}
	if dbd {
		bd = 0
	}
	start += bd
	n := len(cmd.InSDBBuffer.Buffer)
	vRequires(vForall(0, len(lu.ModePages), func(i int) bool { return lu.ModePages[i].Size < 200 }))
	wanted := func(p api.ModePage) bool { return p.PageCode == page && p.SubPageCode == sub }
	vInvariant("not found so far", func(i int) bool { return vForall(0, i, func(k int) bool { return !wanted(lu.ModePages[k]) }) })
	r := SPCModeSense(0, cmd)
	known := vExists(0, len(lu.ModePages), func(i int) bool { return wanted(lu.ModePages[i]) })
	vEnsures("MODE SENSE of a page.ends in GOOD for a page there is", (r.Stat == api.SAM_STAT_GOOD) == (known && pctrl != 3))
	if r.Stat == api.SAM_STAT_GOOD {
		d := vReturned(cmd)
		vEnsures("MODE SENSE of a page.no more than the allocation length and the buffer", len(d) <= n && uint64(len(d)) <= uint64(alloc))
		if op == 0x1a && len(d) >= 4 {
			vEnsures("MODE SENSE(6) of a page.header", len(d) == vAnswered(int(d[0])+1, alloc, n) && int(d[3]) == bd)
		}
		if op == 0x5a && len(d) >= 8 {
			vEnsures("MODE SENSE(10) of a page.header", len(d) == vAnswered(int(vBE(d, 0, 2))+2, alloc, n) && int(vBE(d, 6, 2)) == bd)
		}
		if len(d) > start+4 {
			vEnsures("MODE SENSE of a page.page code", d[start]&0x3f == page && (d[start]&0x40 == 0) == (sub == 0))
			h := 2 + int(d[start+1])
			if sub != 0 {
				h = 4 + int(vBE(d, start+2, 2))
				vEnsures("MODE SENSE of a page.subpage code", d[start+1] == sub)
			}
			vEnsures("MODE SENSE of a page.page length", len(d) == vAnswered(start+h, alloc, n))
		}
		if len(d) == start+2 || len(d) == start+4 || len(d) > start+4 {
			vEnsures("MODE SENSE of a page.is one of the unit", pctrl == 1 || vExists(0, len(lu.ModePages), func(i int) bool {
				p := lu.ModePages[i]
				return wanted(p) && (len(d) != start+vPageHead(p)+int(p.Size) || vPageIn(d, start, p) && vPageValues(d, start, p))
			}))
		}
	}
}

// All pages follow each other: at[k] is where page k begins.
func contract_C19_ModeSenseAll(cmd *api.SCSICommand, lu *api.SCSILu, st *vStore, at []int, k, j int) {
	vRequires(vLU(lu, st) && vCmd(cmd, lu) && len(lu.ModeBlockDescriptor) == 8)
	vRequires(vApart(cmd, lu, st))
	op := cmd.SCB[0]
	vRequires((op == 0x1a || op == 0x5a) && cmd.SCB[2]&0x3f == 0x3f && cmd.SCB[2]>>6 != 3)
	dbd, pctrl := cmd.SCB[1]&0x08 != 0, cmd.SCB[2]>>6
	vSplit(op == 0x1a, dbd)
	start, bd, alloc := 8, 8, uint32(vBE(cmd.SCB, 7, 2))
	if op == 0x1a {
		start, alloc = 4, uint32(cmd.SCB[4])
	}
	if dbd {
		bd = 0
	}
	start += bd
	n, pages := len(cmd.InSDBBuffer.Buffer), lu.ModePages
	np := len(pages)
	next := func(i int) bool {
		return i < 0 || i >= np || at[i+1] == at[i]+vPageHead(pages[i])+int(pages[i].Size)
	}
	vRequires(np < 1<<30 && len(at) == np+1 && at[0] == start && k >= 0 && k < np && j >= 0 && j < int(pages[k].Size))
	// the mode parameters fit into their length field
	vRequires(at[np] >= start && (op == 0x1a && at[np] <= 256 || op == 0x5a && at[np] <= 65537))
	pk := pages[k]
	vInvariant("the pages so far", func(data []byte, i int) bool {
		vDefinition(next(i))
		vDefinition(next(i + 1))
		return len(data) == at[i+1]
	})
	vInvariant("the code of page k", func(data []byte, i int) bool {
		return i < k || data[at[k]] == pk.PageCode && pk.SubPageCode == 0 || data[at[k]] == pk.PageCode|0x40 && pk.SubPageCode != 0
	})
	vInvariant("the size of page k", func(data []byte, i int) bool {
		return i < k || pk.SubPageCode != 0 || data[at[k]+1] == pk.Size
	})
	vInvariant("the subpage code of page k", func(data []byte, i int) bool {
		return i < k || pk.SubPageCode == 0 || data[at[k]+1] == pk.SubPageCode
	})
	vInvariant("the size of subpage k", func(data []byte, i int) bool {
		return i < k || pk.SubPageCode == 0 || data[at[k]+2] == 0 && data[at[k]+3] == pk.Size
	})
	vInvariant("its values", func(data []byte, i int) bool { return i < k || pctrl == 1 || data[at[k]+vPageHead(pk)+j] == pk.Data[j] })
	vInvariant("where page k is", func(i int) bool {
		return i < k || at[k] >= start && at[k] < 1<<56
	})
	vInvariant("where page k ends", func(i int) bool {
		vDefinition(next(k))
		return i < k || at[k]+vPageHead(pk)+int(pk.Size) <= at[i+1]
	})
	r := SPCModeSense(0, cmd)
	vEnsures("MODE SENSE of all pages.ends in GOOD", r.Stat == api.SAM_STAT_GOOD)
	d := vReturned(cmd)
	vEnsures("MODE SENSE of all pages.no more than the allocation length and the buffer", len(d) <= n && uint64(len(d)) <= uint64(alloc))
	vEnsures("MODE SENSE of all pages.is as long as the pages", len(d) == vAnswered(at[np], alloc, n))
	if op == 0x1a && len(d) >= 4 {
		vEnsures("MODE SENSE(6) of all pages.header", int(d[0])+1 == at[np] && int(d[3]) == bd)
	}
	if op == 0x5a && len(d) >= 8 {
		vEnsures("MODE SENSE(10) of all pages.header", int(vBE(d, 0, 2))+2 == at[np] && int(vBE(d, 6, 2)) == bd)
	}
	if at[k]+vPageHead(pk)+int(pk.Size) <= len(d) {
		vEnsures("MODE SENSE of all pages.page code and length", vPageIn(d, at[k], pk))
		vEnsures("MODE SENSE of all pages.page values", pctrl == 1 || d[at[k]+vPageHead(pk)+j] == pk.Data[j])
	}
}
