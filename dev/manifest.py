import json,importlib,sys,os
sys.path.insert(0,'/verif')
NA={}
checks=[]
for i in range(1,21):
    p=f"C{i:02d}"
    if not os.path.exists(f'/verif/sa/props/{p}.py'):
        NA[p]="not built yet"; continue
    m=importlib.import_module('sa.props.'+p)
    checks.append(dict(property=p,quick_cmd=f"/usr/bin/python3 -m sa.run {p} --tier quick",thorough_cmd=f"/usr/bin/python3 -m sa.run {p} --tier thorough",
        evidence_file=f"evidence/{p}.json",technique="static analysis: flow-sensitive interprocedural abstract interpretation of the library source over a relational sign/order domain with trace partitioning; "+m.RULE,
        level="other",level_note=m.EXPLAIN))
json.dump(dict(version=1,setup_cmd="/usr/bin/python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in NA.items()]),open('/verif/MANIFEST.json','w'),indent=1)
