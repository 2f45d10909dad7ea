#!/usr/bin/env python3
# tools/fixed.py COMMIT=PXX ... : record repairs committed in /repo
import subprocess, sys
kf='/verif/known_findings.txt'; s=open(kf).read()
for a in sys.argv[1:]:
    c,p=a.split('=')
    subj=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s',c],text=True).strip()
    h,t=subj.split(' ',1)
    if h not in s: s+=f'fixed: property={p} {h} {t.removeprefix("fix: ")}\n'
open(kf,'w').write(s)
