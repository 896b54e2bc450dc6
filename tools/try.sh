#!/bin/bash
# Runs checks against a changed copy of /repo: tools/try.sh PATCH|-R:COMMIT CHECK... (PATCH may be a sed script file ending in .sh run in the copy)
p=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$d/repo"
case "$p" in
    -R:*) git -C "$d/repo" show "${p#-R:}" | git -C "$d/repo" apply -R ;;
    *.sh) (cd "$d/repo" && bash "$p") ;;
    *) git -C "$d/repo" apply "$p" ;;
esac || { echo "does not apply"; exit 2; }
for c in "$@"; do
    PBT_REPO=$d/repo PBT_BUILD=$d/build python3 /verif/run.py $c ${TRYOPTS:---variants A --time 20}
    echo "$c: exit $?"
done
/bin/rm -rf "$d"
