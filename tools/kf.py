"""python3 tools/kf.py PROP COMMIT WHAT — record a repaired defect"""
import json,sys
p='/verif/KNOWN_FINDINGS.json';d=json.load(open(p))
fx=[i for i,e in enumerate(d['findings']) if e['status']=='fixed']
e=dict(next(d['findings'][i] for i in fx)) 
print(e) if len(sys.argv)<3 else None
if len(sys.argv)>3:
    prop,c,what=sys.argv[1:4]
    d['findings'].insert(fx[-1]+1,{"property":prop,"status":"fixed","commit":c,"what":f"fixed: property={prop} {c} {what}"})
    json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write('\n')
