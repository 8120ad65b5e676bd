# Every behaviour-preserving rewrite that the other generator variants have.
import runpy,os
GOOD={}; BAD={}
for f in ("c10","c11","c13","c20","c21","fresh","fresh2","big","cross"):
    p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"var_"+f+".py")
    if os.path.exists(p):
        for k,v in runpy.run_path(p)["GOOD"].items(): GOOD[f+":"+k]=("C25",v[1])
