#!/usr/bin/env python3
# add a fixed entry: fixed.py PROPERTY COMMIT "what failed"
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../known_findings.json')
d=json.load(open(p))
d["findings"].append({"property":sys.argv[1],"id":"fixed-"+sys.argv[2],"status":"fixed","what":"fixed: property=%s %s %s"%tuple(sys.argv[1:4])})
open(p,'w').write('{"findings":[\n '+',\n '.join(json.dumps(x,ensure_ascii=False) for x in d["findings"])+'\n]}\n')
