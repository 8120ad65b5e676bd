"""All behaviour-preserving variants of the generator and the reader, against all checks that look at them."""
import runpy,os
h=os.path.dirname(os.path.abspath(__file__))
GOOD,BAD={},{}
for f in ("c10","c11","c13","c20","c21"):
    for n,v in runpy.run_path(f"{h}/var_{f}.py")["GOOD"].items():
        if n == "goroutine": continue  # C20 allows no goroutines
        GOOD[f+":"+n]=("C07 C08 C09 C10 C11 C13 C18 C20 C21 C22",v[1])
