import runpy,sys
for f in sys.argv[1:]:
    for m in runpy.run_path(f)["MUTS"]:
        cur={}
        for p,o,n in m["edits"]:
            t=cur.get(p) or open("/repo/"+p).read()
            if o and t.count(o)!=1: print(m["name"],p,t.count(o),repr(o[:70]))
            cur[p]=t.replace(o,n)
