// Runs the recorded lookups against a VM which the generated file was bound to. Included by the programs C20 compiles.
#pragma once
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#if C20_FAKE
#include <fake-jni/fake-jni.h>
#else
#include <jnivm.h>
#endif

struct Row {
    char kind;  // C: class, m/M: instance/static method, i: constructor, f/F: instance/static field
    const char *cls, *name, *sig;
};
static int failures;
static void fail(const Row& r, const char* what) {
    printf("%s: class %s member %s %s\n", what, r.cls, r.name, r.sig);
    failures++;
}
static std::vector<jvalue> zeros() { return std::vector<jvalue>(64, jvalue{}); }

static void call(JNIEnv* env, const Row& r, jclass c, jobject o, jmethodID id) {
    auto a = zeros();
    char t = strchr(r.sig, ')')[1];
    bool zero = true, st = r.kind == 'M';
    if (!st && !o) return;
#define X(C, N)                                                                                                                  \
    case C: zero = !(st ? env->CallStatic##N##MethodA(c, id, a.data()) : env->Call##N##MethodA(o, id, a.data())); break;
    switch (t) {
        X('Z', Boolean) X('B', Byte) X('C', Char) X('S', Short) X('I', Int) X('J', Long) X('F', Float) X('D', Double) X('L', Object) X('[', Object)
        case 'V': st ? env->CallStaticVoidMethodA(c, id, a.data()) : env->CallVoidMethodA(o, id, a.data()); break;
        default: fail(r, "unknown result type");
    }
#undef X
    if (!zero) fail(r, "the stub does not return nothing");
    if (env->ExceptionCheck()) {
        fail(r, "calling the stub throws");
        env->ExceptionClear();
    }
}
static void field(JNIEnv* env, const Row& r, jclass c, jobject o, jfieldID id) {
    bool st = r.kind == 'F';
    if (!st && !o) return;
    bool zero = true, back = true;
#define X(C, N, T)                                                                           \
    case C:                                                                                  \
        zero = !st || !env->GetStatic##N##Field(c, id);                                      \
        st ? env->SetStatic##N##Field(c, id, (T)1) : env->Set##N##Field(o, id, (T)1);        \
        back = (st ? env->GetStatic##N##Field(c, id) : env->Get##N##Field(o, id)) == (T)1;   \
        break;
    switch (r.sig[0]) {
        X('Z', Boolean, jboolean) X('B', Byte, jbyte) X('C', Char, jchar) X('S', Short, jshort) X('I', Int, jint) X('J', Long, jlong) X('F', Float, jfloat) X('D', Double, jdouble)
        default:
            zero = !(st ? env->GetStaticObjectField(c, id) : env->GetObjectField(o, id));
            st ? env->SetStaticObjectField(c, id, nullptr) : env->SetObjectField(o, id, nullptr);
    }
#undef X
    if (!zero) fail(r, "the field is not empty");
    if (!back) fail(r, "the field does not keep its value");
}

static int drive(JNIEnv* env, const Row* rows, size_t n) {
    auto a = zeros();
    for (size_t i = 0; i < n; i++) {
        const Row& r = rows[i];
        env->PushLocalFrame(10);
        jclass c = env->FindClass(r.cls);
        if (!c) {
            fail(r, "the class is not found");
            continue;
        }
        // an object made by the first constructor, or without one
        jobject o = nullptr;
        if (r.kind == 'm' || r.kind == 'f') {
            const Row* k = nullptr;
            for (size_t j = 0; j < n && !k; j++)
                if (rows[j].kind == 'i' && !strcmp(rows[j].cls, r.cls)) k = &rows[j];
            if (k) {
                jmethodID id = env->GetMethodID(c, "<init>", k->sig);
                if (id) o = env->NewObjectA(c, id, a.data());
            } else {
                auto e = jnivm::ENV::FromJNIEnv(env);
                auto cl = jnivm::JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(e, c);
                if (!cl->Instantiate) fail(r, "the class cannot be constructed");
                else o = jnivm::JNITypes<std::shared_ptr<jnivm::Object>>::ToJNIType(e, cl->Instantiate(e));
            }
            if (!o) fail(r, "no object can be made");
        }
        switch (r.kind) {
            case 'i': {
                jmethodID id = env->GetMethodID(c, "<init>", r.sig);
                if (!id) {
                    fail(r, "the constructor is not found");
                    break;
                }
                jobject x = env->NewObjectA(c, id, a.data());
                if (!x || !env->IsInstanceOf(x, c)) fail(r, "the constructor makes no object of the class");
                break;
            }
            case 'm': case 'M': {
                jmethodID id = r.kind == 'M' ? env->GetStaticMethodID(c, r.name, r.sig) : env->GetMethodID(c, r.name, r.sig);
                if (id) call(env, r, c, o, id);
                else fail(r, "the method is not found");
                break;
            }
            case 'f': case 'F': {
                jfieldID id = r.kind == 'F' ? env->GetStaticFieldID(c, r.name, r.sig) : env->GetFieldID(c, r.name, r.sig);
                if (id) field(env, r, c, o, id);
                else fail(r, "the field is not found");
                break;
            }
            default: break;
        }
        env->PopLocalFrame(nullptr);
    }
    // what was never used is not there
    if (env->FindClass("no/such/Class")) {
        printf("an unknown class is found\n");
        failures++;
    }
    return failures ? 1 : 0;
}
