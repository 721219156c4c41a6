#!/bin/bash
# show.sh N ID: the N latest replay files of ID
for f in $(ls -t /verif/replay/$2* | head -$1); do node -e "const c=require('$f');console.log(c.scenario,c.message);const k=c.case;for(const p of Object.keys(k)){if(Array.isArray(k[p])&&p==='ops')k.ops.forEach((o,i)=>console.log(' ',i,JSON.stringify(o).slice(0,300)));else console.log(p,JSON.stringify(k[p]).slice(0,900))};if(c.detail)console.log(JSON.stringify(c.detail).slice(0,1200))"; done
