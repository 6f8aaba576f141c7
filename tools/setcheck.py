#!/usr/bin/env python3
# setcheck.py ID key=value... : edits contracts/checks.json ; entries/tags comma separated
import json,sys
p='contracts/checks.json'; c=json.load(open(p)); d=c[sys.argv[1]]
for a in sys.argv[2:]:
    k,v=a.split('=',1)
    d[k]=[x for x in v.split(';') if x] if k in('entries','tags','deps') else v
json.dump(c,open(p,'w'),indent=1); open(p,'a').write('\n')
