#!/usr/bin/env python3
"""finding.py fixed PROP SIG 'commit subject' 'what'  |  finding.py open PROP SIG 'what'   -- edit known-findings.json"""
import json,sys,subprocess
p='/verif/known-findings.json'; d=json.load(open(p))
kind,prop,sig=sys.argv[1:4]
if kind=='fixed':
    subj,what=sys.argv[4:6]
    h=[l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines() if l.split(' ',1)[1]==subj]
    assert len(h)==1,(subj,h)
    e=dict(property=prop,sig=sig,status='fixed',commit=h[0],what='fixed: property=%s %s %s'%(prop,h[0],what))
else:
    e=dict(property=prop,sig=sig,status='open',what=sys.argv[4])
d['findings']=[x for x in d['findings'] if not (x['property']==prop and x['sig']==sig)]+[e]
open(p,'w').write('{\n "findings": [\n'+',\n'.join('  '+json.dumps(x) for x in d['findings'])+'\n ]\n}\n')
