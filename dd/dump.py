"""Pretty-prints MIR facts: dump.py <path substring>"""
import json,sys,glob,re
sys.path.insert(0,'/verif')
from dd import facts
def pl(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e=="*": s="(*%s)"%s
        elif "n" in e: s+="."+e["n"]
        elif "d" in e: s+=" as "+e["d"]
        elif "i" in e: s+="[_%d]"%e["i"]
        else: s+=str(e)
    return s
def op(o):
    if "c" in o: return pl(o["c"])
    if "m" in o: return "mv "+pl(o["m"])
    if "fn" in o:
        f=o["fn"]; return "FN<"+f["p"]+("|r="+f["r"]["p"] if "r" in f else "")+">"
    return "K(%s%s)"%(o["k"][:60], " b="+o["b"] if "b" in o else "")
def rv(r):
    out=[]
    for x in r:
        if isinstance(x,dict) and ("c" in x or "m" in x or "fn" in x or "t" in x) and x.get("k") not in ("adt","closure","tuple","array","other"): out.append(op(x))
        elif isinstance(x,list) and len(x)==2 and isinstance(x[0],int) and isinstance(x[1],list): out.append(pl(x))
        elif isinstance(x,list): out.append("["+",".join(op(y) if isinstance(y,dict) else str(y) for y in x)+"]")
        else: out.append(str(x))
    return " ".join(out)
if __name__=="__main__":
    out=facts.build_facts()
    for f in sorted(glob.glob(out+"/*.json")):
        d=json.load(open(f))
        for b in d["bodies"]:
            if sys.argv[1] in b["p"]:
                print("==",b["p"],b["file"],b["line"],"self=",b.get("self"),"tr=",b.get("trf"), b.get("ups"))
                if len(sys.argv)>2: continue
                for i,l in enumerate(b["locals"]): print("  _%d: %s"%(i," ".join(l)))
                for i,bb in enumerate(b["bbs"]):
                    if bb["c"]: continue
                    print(" bb%d:"%i)
                    for s in bb["s"]: print("   ",s[0],pl(s[1]),"=",rv(s[2]))
                    t=bb["t"]
                    print("   ",bb["l"],t[0], rv(t[1:]))
