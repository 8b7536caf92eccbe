import runpy,sys,shutil,subprocess,os
spec=runpy.run_path(sys.argv[1])["MUTS"]; W="/tmp/w/one"
shutil.rmtree(W,ignore_errors=True); os.makedirs("/tmp/w",exist_ok=True); subprocess.run(["cp","-a","/repo",W])
for m in spec:
    if m["name"]==sys.argv[2]:
        for f,o,n in m["edits"]:
            p=os.path.join(W,f); c=open(p).read(); open(p,"w").write(c.replace(o,n) if o else c+n)
