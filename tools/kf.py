#!/usr/bin/env python3
# kf.py fixed|open ID PROP KEY MATCH WHAT
import json,sys
st,i,p,k,m,w=sys.argv[1:]
f='/verif/known_findings.json'; d=json.load(open(f)); d['findings']=[x for x in d['findings'] if x['id']!=i]
d['findings'].append(dict(id=i,property=p,key=k,match=m,status=st,what=w)); json.dump(d,open(f,'w'),indent=1)
