"""survey.py PID [harness-extra-args]: runs a check's harnesses without a limit on violations and groups what they report."""
import sys,os,json,collections,re,tempfile,shutil
sys.path[:0]=['/verif','/verif/lib']
import registry,check
os.environ["VC_MAX_VIO"]="1000000"; os.environ.setdefault("VC_HANG","2")
pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else "quick"
d="/tmp/survey."+pid; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
allv=[]
for h in registry.CHECKS[pid]["harnesses"]:
    r=check.run_harness(pid,h,tier,1,d)
    allv+=r["violations"]; print(h["name"],r["cases"],r["evaluations"],r["extra"])
json.dump(allv,open(d+"/all.json","w"))
g=collections.defaultdict(list)
for v in allv:
    head=re.split(r"[|(]",v["key"])[0]
    msg=re.sub(r"with N=.*?: ","",v["msg"].split("\n")[0]); msg=re.sub(r"-?\d+(\.\d+)?","#",msg); msg=re.sub(r"\b[A-HTUXYZ]\d?\b","X",msg); msg=re.sub(r"__daisy\w*","__d",msg)
    g[(head,msg[:90]) if "|" in v["key"] else (v["key"],"")].append(v)
for k,v in list(sorted(g.items(),key=lambda x:(x[0][0],-len(x[1]))))[:60]:
    v=sorted(v,key=lambda x:len(x["desc"]))
    print(f"{len(v):6d} {k[0]} :: {k[1]}\n         e.g. {v[0]['key'].split('|')[0]} | {v[0]['desc'][:200]}")
