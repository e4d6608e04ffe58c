#!/bin/bash
# blame.sh PATCH: are all the lines a patch removes from the original repository (not from a commit of ours)?
cd /repo
python3 - "$1" <<'P'
import re,subprocess,sys
f=None
for l in open(sys.argv[1],encoding='latin1',newline=''):
    m=re.match(r'--- a/(\S+)',l)
    if m: f=m.group(1); b=subprocess.run(['git','blame','-s','-l',f],capture_output=True,text=True,encoding='latin1').stdout.split('\n'); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None or l.startswith(('+++','diff','index')): continue
    if l.startswith('-'):
        print('orig' if b[n-1].startswith('^') else 'OURS', f, n, l.rstrip()[:100]); n+=1
    elif l.startswith(' '): n+=1
P
