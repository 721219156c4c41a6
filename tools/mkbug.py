#!/usr/bin/env python3
"""mkbug.py SPEC.py : SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]; writes /verif/seeded/<id>/ (patch made in the scratch copy /tmp/pl/repo)."""
import sys,os,subprocess,json,shutil,runpy
R='/tmp/pl/repo'
sh=lambda *a:subprocess.check_output(a,cwd=R,text=True)
sh('git','checkout','-q','--','.'); sh('git','fetch','-q',os.environ.get('VG_SRC','/repo'),'HEAD'); sh('git','reset','-q','--hard','FETCH_HEAD')
for b in runpy.run_path(sys.argv[1])['BUGS']:
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    for f,o,n in b['edits']:
        p=R+'/packages/'+f; s=open(p).read(); assert s.count(o)==1,(b['id'],f,s.count(o)); open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git','diff')); sh('git','checkout','-q','--','.')
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cjs','w').write("'use strict';\nconst { vg, full, view, fire, assert, attrs } = require('./h.cjs');\n"+b['demo'].strip()+"\n")
    for f in ('demo.sh','bundle.cjs','h.cjs'): shutil.copy('/verif/tools/demo/'+f,d)
    print(b['id'])
