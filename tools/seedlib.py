import sys,subprocess,os,json,textwrap
# usage: seed(id, prop, edits, needs, breaks, main)
DEMO='''#!/bin/bash
# exit 0 when the program beside this file finds what the property says, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX)
trap '/bin/rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$here/main.rs" "$T/src/main.rs"
cp "$repo/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
hodu_core = { path = "$repo/crates/hodu_core", features = ["openblas", "serde"] }
@DEPS@
EOF
cd "$T" && cargo build --offline --quiet 2> "$T/log" || { tail -40 "$T/log" >&2; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
def seed(id,prop,edits,needs,breaks,main,deps=''):
    os.chdir('/tmp/sw'); subprocess.check_call(['git','checkout','-q','--','.'])
    for f,a,b in edits:
        s=open(f).read(); assert s.count(a)>=1,(f,a); 
        assert s.count(a)==1,(f,'count',s.count(a))
        open(f,'w').write(s.replace(a,b))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','diff'],text=True))
    open(d+'/main.rs','w').write(textwrap.dedent(main).lstrip())
    open(d+'/demo.sh','w').write(DEMO.replace('@DEPS@',deps)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    subprocess.check_call(['git','checkout','-q','--','.'])
    print(id,'ok')
