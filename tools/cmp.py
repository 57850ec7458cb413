import json,sys
a=json.load(open(sys.argv[1])); b=json.load(open(sys.argv[2]))
det = sys.argv[3] if len(sys.argv)>3 else None
bad=[];n=0;samesh=0
for k in a:
    if k not in b: print("missing",k) if not det else 0; continue
    if a[k][0]!="ok" or b[k][0]!="ok":
        if a[k][0]!=b[k][0]: print("status",k,a[k][0],b[k][0])
        continue
    n+=1
    x={tuple(i[:4]) for i in a[k][1]}; y={tuple(i[:4]) for i in b[k][1]}
    if x!=y:
        sh = a[k][3]==b[k][3]
        wk = set(a[k][2])==set(b[k][2])
        bad.append((k,len(x-y),len(y-x),len(x),"same-shape" if sh else "shape %s->%s"%(a[k][3],b[k][3]),"weak-ok" if wk else "WEAK"))
        if det and det in k:
            X={tuple(i[:4]):i for i in a[k][1]}; Y={tuple(i[:4]):i for i in b[k][1]}
            print("=====",k,a[k][3],b[k][3])
            for z in X:
                if z not in Y: print("  -",z,X[z][4],X[z][5:7])
            for z in Y:
                if z not in X: print("  +",z,Y[z][4],Y[z][5:7])
            for z in set(a[k][2])-set(b[k][2]): print("  w-",z[:300])
            for z in set(b[k][2])-set(a[k][2]): print("  w+",z[:300])
new=[k for k in b if k not in a]
print(n,"compared,",len(bad),"differ,",len(new),"new")
if not det:
    for k in bad:
        if "Visitor" not in k[0]: print(*k)
