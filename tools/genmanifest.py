import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
exec(open(here+'/tools/manifest_data.py').read())
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in CHECKS:
        t,lvl,note=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash ./check.sh {i} quick","thorough_cmd":f"bash ./check.sh {i} thorough","technique":t,"level":lvl,"level_note":note})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check yet: the rule for this property is being built")})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(m["checks"]),"claimed",len(m["not_applicable"]),"not")
