import json
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
exec(open('/verif/tools/claims.py').read())
checks=[];na=[]
for i in sorted(props):
    if i in claims:
        t,lvl,note=claims[i]
        checks.append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough","technique":t,"level":lvl,"level_note":note})
    else:
        na.append({"property":i,"reason":reasons.get(i,"no check for this property has been built yet")})
m={"version":1,"setup_cmd":"cd /verif/tool && . /opt/vp/env.sh && go build -o /verif/bin/aitchcheck .","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
