#!/bin/bash
# farm.sh DIR: makes copies of /repo and /verif in DIR with all mutants built in.
set -e
D=$1; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $D
CARGO_TARGET_DIR=$D/tool cargo build --offline --release --manifest-path $H/Cargo.toml -q
rm -rf $D/repo $D/verif
mkdir -p $D/repo $D/verif
cp -a /repo/akasa-core $D/repo/orig; for x in /repo/*; do [ "$x" = /repo/akasa-core ] || [ "$x" = /repo/target ] || cp -a $x $D/repo/; done
cp -a /verif/harness /verif/mqtt-proto $D/verif/
[ -f /verif/known-findings.json ] && cp /verif/known-findings.json $D/verif/
sed -i "s#/repo/akasa#$D/repo/akasa#" $D/verif/harness/Cargo.toml $D/verif/harness/cli/Cargo.toml
sed -i "s#VERIF_DIR: &str = \"/verif\"#VERIF_DIR: \&str = \"$D/verif\"#" $D/verif/harness/src/runner.rs
[ -f $D/skip ] || : > $D/skip
for i in $(seq 40); do
    rm -rf $D/repo/akasa-core; cp -a $D/repo/orig $D/repo/akasa-core
    $D/tool/release/mutate $D/repo/akasa-core/src $D/skip $D/list
    find $D/repo/akasa-core/src -name '*.rs' -exec touch {} +
    if (cd $D/verif/harness && CARGO_TERM_COLOR=never cargo build --offline -p verif-harness -p akasa --message-format short > $D/build.log 2>&1); then echo built after $i; exit 0; fi
    python3 - $D <<'P'
import re,sys
D=sys.argv[1]
ms=[l.split('\t') for l in open(D+'/list')]
by={}
for m in ms:
    a,b,c=m[2].split(':'); by.setdefault(m[1],[]).append((int(m[0]),int(a),int(b)))
sk=set()
for l in open(D+'/build.log'):
    m=re.match(r'(\S+?\.rs):(\d+):(\d+): error',l)
    if not m: continue
    f=[k for k in by if k.endswith(m[1].split('akasa-core/')[-1])]
    if not f: continue
    ln=int(m[2]); c=[x for x in by[f[0]] if x[1]==ln]
    if not c:
        e=[x for x in by[f[0]] if x[1]<=ln<=x[2]]
        if e:
            w=min(x[2]-x[1] for x in e); c=[x for x in e if x[2]-x[1]==w]
    if not c: c=[x for x in by[f[0]] if ln-4<=x[1]<=ln+4]
    sk|={x[0] for x in c}
old=set(open(D+'/skip').read().split())
print('skip',len(sk),'more')
if not sk: print(open(D+'/build.log').read()[-3000:]); sys.exit(1)
open(D+'/skip','w').write('\n'.join(sorted(old|{str(x) for x in sk},key=int))+'\n')
P
done
