#!/bin/bash
# Which lines of the library the harnesses reach: tools/cov.sh [SECONDS] [ID...] writes /tmp/pbt-cov/report.txt
t=${1:-5}; shift
ids=${*:-$(ls /verif/harness/props | sed -n 's/\.cpp$//p' | tr c C)}
out=/tmp/pbt-cov; mkdir -p $out
objs=
for i in $ids; do
    LLVM_PROFILE_FILE="$out/$i-%m%c.profraw" PBT_BUILD=$out/build python3 /verif/run.py $i --variants P --time $t 2>&1 | tail -1
    b=$out/build/P/prop_${i,}
    llvm-profdata-18 merge -sparse $out/$i-*.profraw -o $out/$i.profdata 2>/dev/null || llvm-profdata merge -sparse $out/$i-*.profraw -o $out/$i.profdata
    /bin/rm -f $out/$i-*.profraw
    objs="$objs -object $b"
done
P=$(command -v llvm-profdata-18 || echo llvm-profdata); C=$(command -v llvm-cov-18 || echo llvm-cov)
$P merge -sparse $out/*.profdata -o $out/all.merged
$C show ${objs/-object /} -instr-profile=$out/all.merged $(find /repo/src/jnivm /repo/src/fake-jni /repo/src/baron /repo/include/jnivm /repo/include/fake-jni /repo/include/baron -name '*.cpp' -o -name '*.h' | grep -v '/jni.h') > $out/report.txt
$C report ${objs/-object /} -instr-profile=$out/all.merged $(find /repo/src/jnivm /repo/src/fake-jni /repo/src/baron /repo/include/jnivm /repo/include/fake-jni /repo/include/baron -name '*.cpp' -o -name '*.h' | grep -v '/jni.h')
