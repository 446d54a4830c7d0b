#!/usr/bin/env python3
# claim.py PROP TECHNIQUE NOTE  - marks a property as claimed in props_src.py
import sys,re
p,t,n=sys.argv[1:]; f='/verif/tools/props_src.py'; s=open(f).read()
i=s.index("prop('%s'"%p); j=s.find("\nprop('",i+5); j=len(s.rstrip()) if j<0 else j
b=s[i:j].rstrip(); b=re.sub(r",\n level='model_checking'.*$","",b,flags=re.S); b=b[:-1] if b.endswith("])") else b
assert b.endswith(']'),b[-50:]
s=s[:i]+b+",\n level='model_checking', technique=%r,\n note=%r)"%(t,n)+s[j:]
open(f,'w').write(s)
