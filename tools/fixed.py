#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT 'what failed' — record a repaired defect in known-findings.json"""
import json,sys
f='/verif/known-findings.json'; d=json.load(open(f)); d.setdefault('fixed',[])
d['fixed'].append('fixed: property=%s %s %s'%(sys.argv[1],sys.argv[2],sys.argv[3]))
json.dump(d,open(f,'w'),indent=1)
