#!/bin/bash
# Validates planted bugs as vcheck does: tools/seedcheck.sh ID... Each is applied to a copy of /repo which is mounted over
# /repo in a namespace of its own, built, tested, demonstrated and given to the check of its property (SEED_CHECKS overrides).
one() {
    id=$1; s=/verif/seeded/$id
    d=$(mktemp -d /tmp/sc.XXXXXX)
    cp -a /repo "$d/repo"; cp -a /verif/build "$d/build"; cp -a "$s" "$d/seed"
    python3 - "$s/patch.diff" <<'P' || { echo "$id: PATCH changes lines of our own commits"; }
import re,subprocess,sys
f=None; bad=0; orig=0
for l in open(sys.argv[1]):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m.group(1).strip(); bl=subprocess.run(["git","-C","/repo","blame","-s",f],capture_output=True,text=True).stdout.split("\n"); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if f is None or l[:3] in("+++","dif","ind"): continue
    if l[0]=='-':
        if not bl[n-1].startswith("^"): print("   own line:",bl[n-1]); bad+=1
        else: orig+=1
        n+=1
    elif l[0]==' ': n+=1
if not orig: print("   no original line removed")
sys.exit(1 if bad or not orig else 0)
P
    git -C "$d/repo" apply "$s/patch.diff" || { echo "$id: does not apply"; /bin/rm -rf "$d"; return; }
    prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    (cd /repo && bash "$d/seed/demo.sh" >"$d/demo0.log" 2>&1) && r0=ok || r0="FAILS($?)"
    unshare -Urm bash -c "
        mount --bind $d/repo /repo; mkdir $d/ev $d/rp; mount --bind $d/build /verif/build; mount --bind $d/ev /verif/evidence; mount --bind $d/rp /verif/replays; cd /repo
        bash /opt/vp/test.sh $d/out.json >$d/build.log 2>&1
        python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$d/out.json'))
miss=[t for t in b if t not in o['passed']]
print('$id: tests', 'ok' if not miss else 'BROKEN '+str(miss[:5]))
P
        bash $d/seed/demo.sh >$d/demo1.log 2>&1; r=\$?
        if [ \$r = 0 ]; then echo '$id: demo NOT failing with the patch'; else echo \"$id: demo on unchanged $r0, with patch exit \$r\"; fi
        for c in \${SEED_CHECKS:-$prop}; do
            timeout 1200 python3 /verif/run.py \$c ${SEED_OPTS:---tier quick} >$d/check.log 2>&1; r=\$?
            echo \"$id: \$c exit \$r \$(grep -m1 VIOLATION $d/check.log)\"
            [ \$r = 1 ] || tail -5 $d/check.log
        done
    "
    [ "$r0" = ok ] || { tail -5 "$d/demo0.log"; }
    grep -q BROKEN /dev/null || true
    [ -n "$SEED_KEEP" ] && echo "kept $d" || /bin/rm -rf "$d"
}
for i in "$@"; do one $i; done
