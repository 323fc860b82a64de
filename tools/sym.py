#!/usr/bin/env python3
"""sym.py EXE PC...: function names"""
import subprocess,sys,bisect
t=sorted((int(l.split()[0],16),' '.join(l.split()[2:])) for l in subprocess.run(['nm','-C',sys.argv[1]],stdout=subprocess.PIPE,text=True).stdout.split('\n') if len(l.split())>2 and l.split()[1] in 'tTwW')
for a in sys.argv[2:]:
    a=int(a,16); i=bisect.bisect_right(t,(a,'~'))-1; print(hex(a),t[i][1][:300],hex(a-t[i][0]))
