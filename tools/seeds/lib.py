import os,subprocess,json,shutil
SEED='/verif/seeded'
def wr(p,s):
    os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(s)
def mk(id,prop,edits,needs,breaks,demo=None,files={},host=False,pc=None,tjs=None):
    d=SEED+'/'+id
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True).stdout==b''
    try:
        for f,old,new in edits:
            p='/repo/'+f; s=open(p,newline='',encoding='latin1').read()
            if '\r\n' in s: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w',newline='',encoding='latin1').write(s.replace(old,new))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    T='/tmp/wcpl-demo-'+id
    if pc is not None:
        files=dict(files); files['p.c']=pc; files['t.js']="'use strict';\nconst fs = require('fs'), host = require('./host');\nconst mod = (pages) => { const b = fs.readFileSync(process.argv[2]); return new WebAssembly.Module(pages === undefined ? b : host.limitMemory(b, (min) => min + pages).bin); };\nconst fail = (s) => { console.log('FAIL: ' + s); process.exit(1); };\n"+tjs
        host=True
        demo=demo or '''_build/wcpl -q -L _build/lib/ -I lib/include/ -o %s/p.wasm "$D/p.c" || exit 2
timeout 60 node "$D/t.js" %s/p.wasm
'''%(T,T)
    if host:
        for f in ('host.js','fs.js'): shutil.copy('/verif/sim/'+f,d+'/'+f)
    wr(d+'/demo.sh','''#!/bin/bash
# run with cwd = the repository, after its build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
rm -rf %s; mkdir -p %s; trap 'rm -rf %s' EXIT
%s'''%(T,T,T,demo))
    for f,s in files.items(): wr(d+'/'+f,s)
    print(id,'written')
