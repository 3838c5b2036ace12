import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); p=d["payload"]
    print(f, d["key"], d["what"][:200]); t=p.get("trace",{}) if isinstance(p,dict) else {}
    if "tb" in t: print(t.get("tb","")[-300:])
    print("case", json.dumps(p.get("case"))[:350])
    for s,c in p.get("mismatches",[])[:3]:
        print("  ",s,c[:200]); print("     ",json.dumps(t["ev"][s-1])[:200])
