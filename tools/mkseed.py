#!/usr/bin/env python3
"""mkseed.py SPEC.json : builds /verif/seeded/<id>/ from {id,property,needs,breaks,edits:[[file,old,new]...],doc,expect|fails, flags | gotest}"""
import json,os,subprocess,sys,shutil
SH_DOC='''#!/bin/bash
# exit 0 when the program's output is the documented one
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp "$here"/*.yisp "$here"/*.yaml "$here"/*.json "$w"/ 2>/dev/null
go build -o "$w/yisp" . || exit 3
cd "$w"
timeout 60 ./yisp build main.yisp FLAGS > out.txt 2> err.txt; rc=$?
'''
SH_GO='''#!/bin/bash
# exit 0 when the test passes against the code in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$w/overlay.json"
go test -count=1 -timeout 120s -overlay "$w/overlay.json" -run TestDemo ./PKG
'''
def main():
    for s in eval(open(sys.argv[1]).read()):
        d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        for f,old,new in s['edits']:
            p='/repo/'+f; t=open(p).read(); assert t.count(old)==1,(s['id'],f,t.count(old),old)
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.check_output(['git','-C','/repo','diff'],text=True)
        subprocess.check_call(['git','-C','/repo','checkout','--','.'])
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        if 'gotest' in s:
            open(d+'/demo_test.go.txt','w').write(s['gotest'])
            sh=SH_GO.replace('PKG',s.get('pkg','internal/verifdemo'))
        else:
            open(d+'/main.yisp','w').write(s['doc'])
            for n,t in s.get('files',{}).items(): open(d+'/'+n,'w').write(t)
            sh=SH_DOC.replace('FLAGS',s.get('flags',''))
            if s.get('fails'):
                sh+='[ $rc -eq 0 ] && grep -q "^Error:" out.txt\n'
            else:
                open(d+'/expect.txt','w').write(s['expect'])
                sh+='[ $rc -eq 0 ] || { cat err.txt; exit 1; }\ndiff "$here/expect.txt" out.txt\n'
        open(d+'/demo.sh','w').write(sh)
main()
