"""usage: run.py BUNDLEFILE [pids...]: apply EDITS=[(module,old,new)] to a scratch copy, run repo tests and all checks"""
import sys,subprocess,shutil,os,importlib.util,concurrent.futures as cf,json
spec=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
name=os.path.basename(sys.argv[1])[:-3]
d=f"/tmp/rf/{name}_repo"
if os.path.exists(d): shutil.rmtree(d)
shutil.copytree("/repo",d,symlinks=True,ignore=shutil.ignore_patterns(".git","__pycache__"))
only=os.environ.get("ONLY")
for k,(f,old,new) in enumerate(getattr(m,"EDITS",[])):
    if only and str(k) not in only.split(","): continue
    p=f"{d}/src/tvemoves_rufbad/{f}.py"; s=open(p).read()
    if s.count(old)<1: sys.exit(f"edit {k}: NOT FOUND in {f}: {old[:80]!r}")
    s=s.replace(old,new) if getattr(m,"ALL",None) and k in m.ALL else s.replace(old,new,1)
    open(p,"w").write(s)
import ast,textwrap
def span(src,q):
    body=ast.parse(src).body
    node=None
    for part in q.split("."):
        node=next(n for n in body if getattr(n,"name",None)==part); body=node.body
    first=min([node.lineno]+[x.lineno for x in node.decorator_list])
    return first-1,node.end_lineno,node.col_offset
for k,(f,q,new) in enumerate(getattr(m,"FUNCS",[])):
    if only and f"f{k}" not in only.split(","): continue
    p=f"{d}/src/tvemoves_rufbad/{f}.py"; s=open(p).read(); L=s.splitlines(keepends=True)
    before=q.startswith("^"); a,b,c=span(s,q.lstrip("^"))
    new=textwrap.indent(textwrap.dedent(new).strip("\n")+"\n"," "*c)
    L[a:(a if before else b)]=[new+("\n" if before else "")]
    open(p,"w").write("".join(L))
for f,src in getattr(m,"NEWFILES",{}).items(): open(f"{d}/src/tvemoves_rufbad/{f}.py","w").write(src)
env={**os.environ,"PYTHONPATH":f"{d}/src"}
r=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider",f"{d}/tests",f"--rootdir={d}"]+[f"--deselect={x}" for x in []],cwd=d,env=env,capture_output=True,text=True)
print("tests:",r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-500:])
if r.returncode and "--force" not in sys.argv: print(r.stdout[-3000:]);
v=f"/tmp/rf/{name}_v"
if os.path.exists(v): shutil.rmtree(v)
shutil.copytree("/verif",v,ignore=shutil.ignore_patterns(".git","seeded","evidence"))
os.makedirs(v+"/evidence",exist_ok=True)
pids=[a for a in sys.argv[2:] if a.startswith("C")] or [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if True else None
def one(pid):
    try: r=subprocess.run([sys.executable,"check.py",pid],cwd=v,env={**os.environ,"VERIF_REPO":d},capture_output=True,text=True,timeout=1500)
    except subprocess.TimeoutExpired: return pid,"TIMEOUT",""
    und=[l for l in r.stdout.splitlines() if "UNDECIDED" in l]
    det=[l.strip() for l in r.stdout.splitlines() if l.startswith("    ")]
    tail=r.stdout.strip().splitlines()[-1:] 
    return pid,r.returncode,und,det,tail,r.stderr[-300:]
slow=["C35","C36","C10","C09","C32","C37","C39","C02"]
pids=sorted(pids,key=lambda p:(p not in slow,p))
with cf.ThreadPoolExecutor(7) as ex:
    for r in ex.map(one,pids):
        if r[1]!=0 or r[2]:
            print(r[0],"rc",r[1],"undecided",len(r[2])); 
            for l in (r[3] if r[1]==1 else [])[:4]: print("     V",l[:400])
            for l in r[2][:4]: print("     U",l[:400])
            if r[1] not in (0,1): print("     E",r[5])
            sys.stdout.flush()
print("done")
