import json,sys,glob,os
sys.path.insert(0,os.path.dirname(__file__))
import facts
def load():
    d=facts.ensure(); B={}
    for f in glob.glob(d+"/*.json"):
        j=json.load(open(f))
        for b in j["bodies"]: B[b["name"]]=b
    return B
def P(p):
    s=f"_{p[0]}"
    for e in p[1:]: s=f"(*{s})" if e=="*" else s+e if e[0]!="@" else f"({s}{e})"
    return s
def C(k):
    if k is None: return "null"
    if "fn" in k: return k["fn"]+("=>"+k["res"] if "res" in k else "")+("<"+",".join(k.get("ga",[]))+">" if k.get("ga") else "")
    return json.dumps(k.get("v"))+(" #"+k["item"] if "item" in k else "")+(f" prom{k['prom']}" if "prom" in k else "")
def O(o):
    return P(o["c"]) if "c" in o else "move "+P(o["m"]) if "m" in o else "const "+C(o["k"])
def R(r):
    k=r[0]
    if k=="use": return O(r[1])
    if k in("ref","rawptr"): return f"&{r[1]} {P(r[2])}"
    if k=="cast": return f"{O(r[2])} as[{r[1]}] {r[3]}"
    if k=="bin": return f"{r[1]}({O(r[2])}, {O(r[3])})"
    if k=="un": return f"{r[1]}({O(r[2])})"
    if k=="discr": return f"discr({P(r[1])}:{r[2]})"
    if k=="agg": return f"{json.dumps(r[1]) if not isinstance(r[1],dict) else (r[1].get('adt','')+'::'+r[1].get('var','') if 'adt' in r[1] else 'closure '+str(r[1].get('closure')))}[{', '.join(O(o) for o in r[2])}]"
    return json.dumps(r)
def show(b):
    print("fn",b["name"],b["span"],"args",b["args"])
    for i,l in enumerate(b["locals"]): print(f"  _{i}: {l}", b["vars"].get(str(i),""))
    for i,bb in enumerate(b["bb"]):
        if bb.get("cl"): continue
        print(f" bb{i}:")
        for s in bb["s"]:
            if s[0]=="=": print(f"    {P(s[1])} = {R(s[2])}")
            elif s[0]!="dead": print("   ",s)
        t=bb["t"]
        if t[0]=="call": print(f"    {P(t[3])} = {O(t[1])}({', '.join(O(a) for a in t[2])}) -> bb{t[4]}")
        elif t[0]=="switch": print(f"    switch {O(t[1])} {t[2]} else bb{t[3]}")
        elif t[0]=="drop": print(f"    drop {P(t[1])} -> bb{t[2]}")
        elif t[0]=="assert": print(f"    assert {O(t[1])}=={t[2]} {t[3]} -> bb{t[4]}")
        else: print("   ",*t)
if __name__=="__main__":
    B=load()
    for n in sorted(B):
        if any(a==n or (a.endswith("*") and a[:-1] in n) for a in sys.argv[1:]): show(B[n])
