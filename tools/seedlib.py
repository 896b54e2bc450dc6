import os,subprocess,tempfile,json,shutil
R="/repo"
HEAD='''#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include <jnivm/class.h>
#include <jnivm/internal/jValuesfromValist.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <memory>
#define CHECK(c) do { if(!(c)) { std::fprintf(stderr, "line %d: %s does not hold\\n", __LINE__, #c); std::fflush(stderr); std::_Exit(1); } } while(0)
'''
SH='''#!/bin/bash
# Run with cwd /repo after the build; fails if the property does not hold
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -g -w %s-DEnableJNIVMGC -DJNI_DEBUG -Iinclude "$here/demo.cpp" -o "$out/demo" %s -lpthread -ldl || exit 3
timeout 100 "$out/demo"
'''
LIBS="_build/default/libbaron.a _build/default/libfake-jni.a _build/default/libjnivm.a"
SRCS="$(find src/jnivm src/fake-jni src/baron -name '*.cpp')"
TSANFLAGS="-fsanitize=thread -DJNI_RETURN_NON_ZERO -DJNIVM_FAKE_JNI_SYNTAX=0 -Isrc/jnivm "
TEMPL=None
def seed(id,prop,edits,demo,needs,breaks,tsan=False,asan=False,sh=None):
    d=tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git","-C",R,"worktree","list"],capture_output=True)
    diffs=[]
    dst="/verif/seeded/"+id
    shutil.rmtree(dst,ignore_errors=True); os.makedirs(dst)
    w=d+"/w"; os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x"%(w,w),shell=True,check=True)
    for f,old,new in edits:
        s=open(w+"/"+f,newline="").read()
        if "\r\n" in s: old,new=old.replace("\n","\r\n"),new.replace("\n","\r\n")
        if s.count(old)!=1: raise SystemExit("%s: %d matches in %s of %r"%(id,s.count(old),f,old))
        open(w+"/"+f,"w",newline="").write(s.replace(old,new))
    p=subprocess.run(["git","-C",w,"diff"],capture_output=True).stdout
    open(dst+"/patch.diff","wb").write(p)
    open(dst+"/demo.cpp","w").write(HEAD+demo)
    if sh is None:
        sh=SH%((TSANFLAGS if tsan else "-fsanitize=address -DJNI_RETURN_NON_ZERO -DJNIVM_FAKE_JNI_SYNTAX=0 " if asan else ""),(SRCS if tsan or asan else LIBS))
    open(dst+"/demo.sh","w").write(sh); os.chmod(dst+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(dst+"/meta.json","w"),indent=1)
    shutil.rmtree(d)
    print(id,len(p.splitlines()))
