#!/usr/bin/env python3
"""mkseed.py [id...]: writes seeded/<id>/ from tools/seeds/*.py (bug definitions) against /repo's HEAD."""
import sys,os,glob,subprocess,json,shutil,difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=__import__("os").environ.get("SRC","/repo")
S=[]
def seed(id,prop,edits,needs,breaks,demo,deps="abe",extra=""):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,deps=deps,extra=extra))
for f in sorted(glob.glob(V+"/tools/seeds/*.py")): exec(open(f).read())
DEPS={
 "abe":'abe = { path = "@R@/crates/abe" }',
 "bf":'abe = { path = "@R@/crates/abe" }\nbyte-fmt = { path = "@R@/crates/byte-fmt" }',
 "cr":'linkspace-cryptography = { path = "@R@/crates/cryptography" }',
 "id":'linkspace-cryptography = { path = "@R@/crates/cryptography" }\nlinkspace-argon2-identity = { path = "@R@/crates/argon2-identity" }',
 "ipc":'ipcbus = { path = "@R@/crates/ipcbus" }',
 "pkt":'linkspace-pkt = { path = "@S@/mirror/pkt" }\nabe = { path = "@R@/crates/abe" }\nbyte-fmt = { path = "@R@/crates/byte-fmt" }\nlinkspace-cryptography = { path = "@R@/crates/cryptography" }\nblake3 = "1"',
}
DEPS["core"]=DEPS["pkt"]+'\nlinkspace-core = { path = "@S@/mirror/core" }\nanyhow = "1"\nlibc = "0.2"\ntracing = "0.1"\nlmdb-rkv-sys = { path = "@S@/shim/lmdb-sys" }'
DEPS["lk"]=DEPS["core"]+'\nlinkspace-common = { path = "@S@/mirror/common" }\nlinkspace = { path = "@S@/mirror/linkspace" }'
# the command line programs: built by the demo next to it, from /repo
DEPS["cli"]=DEPS["core"]+'''
linkspace = { path = "@S@/mirror/linkspacecli" }
linkspace-common = { path = "@S@/mirror/commoncli" }
linkspace-argon2-identity = { path = "@R@/crates/argon2-identity" }
base64 = "0.21"
tracing-subscriber = { path = "@S@/shim/tracing-subscriber" }
clap = { path = "@S@/shim/clap" }
serde_json = { path = "@S@/shim/serde_json" }
crossbeam-channel = { path = "@S@/shim/crossbeam-channel" }
memmap2 = "0.9"
either = "1"
serde = "1"'''
BINS="".join(f'''
[[bin]]
name = "{n}"
path = "@R@/cli/{d}/src/main.rs"''' for n,d in(("lk","linkspace"),("lns","lns"),("handshake","handshake")))+'''
[[bin]]
name = "demo"
path = "src/main.rs"'''
BIG=("pkt","core","lk","cli")
SH='''#!/bin/bash
# Builds demo.rs against the crates of the current directory (/repo) in a scratch directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
S="$(mktemp -d)" || exit 99
trap 'find "$S" -depth -delete' EXIT
mkdir -p "$S/demo/src" "$S/tmp"
cp "$D/demo.rs" "$S/demo/src/main.rs" && cp "$D/Cargo.lock" "$S/demo/Cargo.lock"
sed "s|@R@|$R|; s|@S@|$S|" > "$S/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"@BINS@
[workspace]
[dependencies]
@DEPS@
T
@UNPACK@export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-11-04 RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" TMPDIR="$S/tmp"
cd "$S/demo" || exit 99
@RUSTENV@cargo build --offline -q || { echo "demo does not build"; exit 98; }
timeout 60 "$S/target/debug/demo"
'''
# the crates that do not build offline as they are: the same sources, with stand-ins for what cannot be fetched
UNPACK='''tar xzf "$D/crates.tgz" -C "$S" || exit 97
find "$S/mirror" "$S/shim" -name Cargo.toml -exec sed -i "s|@R@|$R|; s|@S@|$S|" {} +
'''
def crates(out,cli):
    import tarfile,gzip,io
    b=io.BytesIO()
    with tarfile.open(fileobj=b,mode="w") as t:
        for top in("mirror","shim"):
            for root,ds,fs in os.walk(V+"/"+top):
                ds[:]=sorted(x for x in ds if x!="target" and (cli or x not in("clap","clap-derive","linkspacecli","commoncli")) and not(cli and x in("linkspace","common")))
                for f in sorted(fs):
                    if f=="Cargo.lock": continue
                    c=open(root+"/"+f,"rb").read()
                    if f=="Cargo.toml": c=c.replace(b"/repo/",b"@R@/").replace(b"/verif/",b"@S@/")
                    i=tarfile.TarInfo(os.path.relpath(root+"/"+f,V)); i.size=len(c); i.mode=0o644
                    t.addfile(i,io.BytesIO(c))
    g=gzip.GzipFile(out,"wb",mtime=0); g.write(b.getvalue()); g.close()
want=sys.argv[1:]
if __name__=="__main__":
    for s in S:
        if want and s["id"] not in want: continue
        d=f"{V}/seeded/{s['id']}"
        os.makedirs(d,exist_ok=True)
        byf={}
        for f,o,n in s["edits"]:
            p=f if f.startswith("cli/") else "crates/"+f
            t=byf.get(p)
            if t is None:
                src=subprocess.check_output(["git","-C",R,"show","HEAD:"+p],text=True); t=(src,src)
            assert t[1].count(o)==1,(s["id"],p,t[1].count(o),o)
            byf[p]=(t[0],t[1].replace(o,n))
        for p,(a,b) in byf.items():
            o=set(subprocess.check_output(["git","-C",R,"show","63c52ef:"+p],text=True).splitlines())
            gone=[l[2:] for l in difflib.ndiff(a.splitlines(),b.splitlines()) if l.startswith("- ")]
            if not any(l in o for l in gone): print("!!",s["id"],"changes no original line",gone)
        out=""
        for p,(a,b) in byf.items():
            out+=f"diff --git a/{p} b/{p}\n"+"".join(difflib.unified_diff(a.splitlines(True),b.splitlines(True),"a/"+p,"b/"+p))
        open(d+"/patch.diff","w").write(out)
        open(d+"/demo.rs","w").write(s["demo"].strip()+"\n")
        open(d+"/demo.sh","w").write(SH.replace("@BINS@",BINS if s["deps"]=="cli" else "").replace("@RUSTENV@",'export VERGEN_GIT_BRANCH=x VERGEN_GIT_DESCRIBE=x VERGEN_RUSTC_SEMVER=x\n' if s["deps"]=="cli" else "").replace("@UNPACK@",UNPACK if s["deps"] in BIG else "").replace("@DEPS@",DEPS[s["deps"]]+("\n"+s["extra"] if s["extra"] else "")))
        os.chmod(d+"/demo.sh",0o755)
        shutil.copy(V+("/h/cli" if s["deps"]=="cli" else "/h/lk" if s["deps"] in BIG else "/h/base")+"/Cargo.lock",d+"/Cargo.lock")
        if s["deps"] in BIG: crates(d+"/crates.tgz",s["deps"]=="cli")
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        open(d+"/meta.json","a").write("\n")
    print(len(S),"seeds")
