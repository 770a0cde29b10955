import os,subprocess,json,sys,textwrap
R=os.environ.get('SEEDREPO','/repo'); S='/verif/seeded'
def sh(*a,**k): return subprocess.run(a,cwd=R,text=True,capture_output=True,**k)
DEMO='''#!/bin/bash
# Runs demo.go.txt as an in-package test of PKG through an overlay; nothing is written to the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKG/zz_demo_test.go" "$t/zz_demo_test.go" > "$t/overlay.json"
go test -vet=off -count=1 -overlay "$t/overlay.json" -run 'TestZZDemo$' "./PKG"
'''
def seed(id,prop,edits,pkg,needs,breaks,test):
    assert sh('git','status','--porcelain').stdout=='' , 'dirty'
    try:
        for f,old,new,*nth in edits:
            s=open(f'{R}/{f}').read()
            assert nth or s.count(old)==1,(id,f,old,s.count(old))
            p=s.split(old); n=nth[0] if nth else 0
            open(f'{R}/{f}','w').write(old.join(p[:n+1])+new+old.join(p[n+1:]))
        d=sh('git','diff').stdout
        b=sh('go','build','./...')
        if b.returncode: print(id,b.stderr); return
        os.makedirs(f'{S}/{id}',exist_ok=True)
        open(f'{S}/{id}/patch.diff','w').write(d)
        open(f'{S}/{id}/demo.sh','w').write(DEMO.replace('PKG',pkg)); os.chmod(f'{S}/{id}/demo.sh',0o755)
        open(f'{S}/{id}/demo.go.txt','w').write(test.lstrip())
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{S}/{id}/meta.json','w'),indent=1)
        r=sh('bash',f'{S}/{id}/demo.sh')
        print(id,'with patch: exit',r.returncode,(r.stdout+r.stderr)[-300:] if r.returncode==0 or 'build failed' in r.stdout+r.stderr else 'ok')
    finally:
        sh('git','checkout','--','.')
    r=sh('bash',f'{S}/{id}/demo.sh')
    print(id,'clean: exit',r.returncode,'' if r.returncode==0 else (r.stdout+r.stderr)[-600:])
STORE='''
type demoStore struct {
	BaseBackingStore
	reads, writes, syncs, unmaps []string
	wlen  int
	fail  error
}

func (s *demoStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *demoStore) Close(dev *api.SCSILu) error             { return nil }
func (s *demoStore) Init(dev *api.SCSILu, o string) error    { return nil }
func (s *demoStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *demoStore) Size(dev *api.SCSILu) uint64             { return 0 }
func (s *demoStore) Read(offset, tl int64) ([]byte, error) {
	s.reads = append(s.reads, fmt.Sprintf("%d+%d", offset, tl))
	if s.fail != nil {
		return nil, s.fail
	}
	return make([]byte, tl), nil
}
func (s *demoStore) Write(b []byte, offset int64) error {
	s.writes = append(s.writes, fmt.Sprintf("%d+%d", offset, len(b)))
	return s.fail
}
func (s *demoStore) DataSync(offset, tl int64) error {
	s.syncs = append(s.syncs, fmt.Sprintf("%d+%d", offset, tl))
	return s.fail
}
func (s *demoStore) DataAdvise(offset, length int64, advise uint32) error { return s.fail }
func (s *demoStore) Unmap(d []api.UnmapBlockDescriptor) error {
	s.unmaps = append(s.unmaps, fmt.Sprint(d))
	return s.fail
}

func demoLU(st *demoStore, size uint64) *api.SCSILu {
	lu := &api.SCSILu{Storage: st, Size: size, BlockShift: 9}
	lu.Attrs.Online = true
	lu.ModePages = []api.ModePage{{PageCode: 8, Data: make([]byte, 18)}}
	lu.ModePages[0].Data[0] = 0x04
	return lu
}

func demoCmd(lu *api.SCSILu, in, out int, cdb ...byte) *api.SCSICommand {
	for len(cdb) < 16 {
		cdb = append(cdb, 0)
	}
	return &api.SCSICommand{
		SCB: cdb, SCBLength: len(cdb), Device: lu, Target: &api.SCSITarget{},
		InSDBBuffer:  &api.SCSIDataBuffer{Length: uint32(in), Buffer: make([]byte, in)},
		OutSDBBuffer: &api.SCSIDataBuffer{Length: uint32(out), Buffer: make([]byte, out)},
	}
}
'''
SCSIHEAD='''
package scsi

import (
	"fmt"
	"testing"

	"github.com/gostor/gotgt/pkg/api"
)
'''+STORE
