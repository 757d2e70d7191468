import subprocess,json
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"]).decode().split("\n")
M={"armci_check_contiguous":"C01","strided MPI datatypes":"C01","comex_fence_proc did nothing":"C05","comex_destroy_mutexes":"C04","overtook contiguous":"C05","comex_nbaccs computed":"C02","freed their origin":"C02","vector accumulates used only":"C02","left unordered":"C05","comex_test never":"C06","comex_wait_proc aborted":"C06"}
D=json.load(open("/verif/tools/fixed.json")) if __import__("os").path.exists("/verif/tools/fixed.json") else {}
M.update(D)
out=[]
for l in reversed(log):
    if " fix: " not in l: continue
    h,s=l.split(" fix: ",1)
    p=[v for k,v in M.items() if k in s]; assert len(p)==1,(l,p)
    out.append({"status":"fixed","property":p[0],"commit":h,"what":s,"line":"fixed: property=%s %s %s"%(p[0],h,s)})
known=[json.loads(l) for l in open("/verif/tools/known.jsonl") if l.strip()]
with open("/verif/known-findings.jsonl","w") as f:
    for k in out+known: f.write(json.dumps(k)+"\n")
