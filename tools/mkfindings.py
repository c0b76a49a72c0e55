import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
P={"data file":"U05","rank tree":"U02","falling factorial":"U06","checked sub":"U01","hash table rem":"T04","RTA* ignores":"S09","f-hat-LRTA* reads":"S09","LSS-LRTA* and":"S09","resetting RTA":"S11","RTA* stores":"S09","beam search":"S07","temporal network":"T06","reverse of a life-cost":"M06","four-way life-cost":"M07","tiles reader":"M08","pancake reader":"M08","read from an open":"M08","unknown terrain":"M08","traffic reader":"M08","traffic maps divide":"M10","vacuum estimate":"M09","vacuum states on":"M09","unsorted piles":"M11","segment boards read":"M12","segment boards made":"M12","platformer levels":"M13","platformer declares":"M13","platformer stops":"M13"}
f=[]
for l in log:
    h,m=l.split(" ",1)
    if not m.startswith("fix: "): continue
    p=[v for k,v in P.items() if k in m]
    assert len(p)==1,(l,p)
    f.append({"id":h,"property":p[0],"status":"fixed","what":"fixed: property=%s %s %s"%(p[0],h,m[5:])})
json.dump({"findings":f},open("/verif/known-findings.json","w"),indent=1)
