// C25: objects of the wrong type are refused.
#include "scene.hpp"

const char* const kProperty = "C25";
const char* const kRule =
    "pairs of a typed position (class, string, array of each element type, object array, buffer, throwable, element of a typed array, global or weak reference to delete, receiver and parameter of a hook in every form, owner "
    "and value of a field, native conversion) and an existing object of any other type, through references of all kinds, on a scene whose whole contents are compared before and after, with and without a pending exception, mixed "
    "with accepted objects; non-trivial: four refused positions of different sorts, one of them a hook; identity: the draws";

enum Sort { CLS, STR, PRI, OBJ, BUFS, THR, DEL, HOOK, FLD, NAT };
struct Pos {
    const char* name;
    Sort sort;
    std::function<bool(int)> takes;        // objects of the scene
    std::function<void(jobject, Refs&)> act;  // Refs: for other arguments
};

struct W {
    Case& c;
    Scene w{c, true};
    JNIEnv* e = w.e;
    int ran = 0;
    uint32_t a = 0, b = 0, x = 0;
    char u[64], u0[64];
    std::vector<Pos> pos;
    char names[16][8], sigs[16][64];
    int hooks = 0;
    using S = Scene;
    static bool isclass(int i) { return i >= S::CT && i <= S::CTHR; }
    static bool isstr(int i) { return i >= S::STR0 && i <= S::STR2; }
    static bool isobjarr(int i) { return i >= S::OARR && i <= S::IIARR; }
    static bool isprim(int i) { return i >= S::ARRI && i <= S::ARRZ; }
    static bool isarr(int i) { return isprim(i) || isobjarr(i); }
    static bool isT(int i) { return i >= S::T0 && i <= S::U0; }
    static bool isthr(int i) { return i == S::THR0 || i == S::THR1; }

    std::string snapshot(Refs& refs) {
        e->PushLocalFrame(0);
        std::string r;
        for (int i : {S::T0, S::T1, S::U0}) {
            auto t = native<T>(e, w.objs[i]);
            r += w.names[i] + ": " + Scene::str(t->n) + " " + Scene::str(t->j) + " " + Scene::str(t->d) + " " + Scene::str(t->z) + " " + w.who(t->o) + " " + w.who(t->s) + " " + w.who(t->a) + "\n";
        }
        for (int i = S::STR0; i <= S::STR2; i++) r += *native<String>(e, w.objs[i]) + "\n";
        for (int i = S::ARRI; i <= S::ARRZ; i++) {
            auto q = native<Array<void>>(e, w.objs[i]);
            r += Scene::str(q->getSize()) + " ";
            static const int size[] = {4, 1, 2, 2, 8, 4, 8, 1};
            for (int k = 0; k < 5 * size[i - S::ARRI]; k++) r += Scene::str((int)((unsigned char*)q->getArray())[k]) + ",";
        }
        for (int i = S::OARR; i <= S::IIARR; i++) {
            int n = e->GetArrayLength((jarray)w.objs[i]);
            r += "\n" + w.names[i] + " " + Scene::str(n);
            for (int k = 0; k < n; k++) r += " " + w.who(e->GetObjectArrayElement((jobjectArray)w.objs[i], k));
        }
        auto buf = native<ByteBuffer>(e, w.objs[S::BUF]);
        r += "\n" + Scene::str((long)((char*)buf->buffer - w.bytes)) + " " + Scene::str(buf->capacity) + " " + std::string(w.bytes, 32);
        r += "\nstatic " + Scene::str(w.sint) + " " + w.who(w.sobj) + " " + w.who(w.sstr);
        r += "\nglobals " + Scene::str(w.vm->globals.size() - refs.globals.size() - refs.weaks.size());
        for (int i = S::CT; i <= S::CTHR; i++) {
            auto k = native<jnivm::Class>(e, w.objs[i]);
            r += " " + Scene::str(k->methods.size()) + "/" + Scene::str(k->fields.size()) + "/" + Scene::str(k->natives.size());
        }
        for (int i = 0; i < S::NOBJ; i++) r += w.objs[i] == nullptr ? "!" : "";
        r += "\n" + std::string(u, sizeof u) + "\npending " + w.who(jenv(e)->current_exception);
        e->PopLocalFrame(nullptr);
        return r;
    }
    template <class X, class A> void prim(int type, const char* n, X* (JNIEnv::*el)(A, jboolean*), void (JNIEnv::*get)(A, jsize, jsize, X*), void (JNIEnv::*set)(A, jsize, jsize, const X*)) {
        auto takes = [type](int i) { return i == type; };
        pos.push_back({n, PRI, takes, [this, el](jobject o, Refs&) { (e->*el)((A)o, nullptr); }});
        pos.push_back({n, PRI, takes, [this, get](jobject o, Refs&) { (e->*get)((A)o, (jsize)(a % 3), (jsize)(b % 3), (X*)u); memcpy(u, u0, sizeof u); }});
        pos.push_back({n, PRI, takes, [this, set](jobject o, Refs&) { X in[3] = {1, 2, 3}; (e->*set)((A)o, (jsize)(a % 3), (jsize)(b % 3), in); }});
    }
    jobject ref(Refs& r, int i) { return r.make(w.objs[i], (int)(x++ % 6)); }
    // a call with one argument of a checked type, in a random form
    void call1(const char* n, const char* sig, jobject o, Refs& r, bool stat) {
        jvalue v[2];
        memset(v, 0, sizeof v);
        v[0].l = o;
        v[1].i = 77;
        jclass k = (jclass)ref(r, S::CT);
        jobject self = ref(r, S::T0 + b % 3);
        jmethodID m = stat ? e->GetStaticMethodID(k, n, sig) : e->GetMethodID(k, n, sig);
        jint got = -1;
        switch (a % 3 + (stat ? 6 : b / 3 % 2 * 3)) {
            case 0: got = e->CallIntMethod(self, m, o, 77); break;
            case 1: got = Scene::viaV<jint>(e, 0, self, k, m, o, 77); break;
            case 2: got = e->CallIntMethodA(self, m, v); break;
            case 3: got = e->CallNonvirtualIntMethod(self, k, m, o, 77); break;
            case 4: got = Scene::viaV<jint>(e, 1, self, k, m, o, 77); break;
            case 5: got = e->CallNonvirtualIntMethodA(self, k, m, v); break;
            case 6: got = e->CallStaticIntMethod(k, m, o, 77); break;
            case 7: got = Scene::viaV<jint>(e, 2, nullptr, k, m, o, 77); break;
            default: got = e->CallStaticIntMethodA(k, m, v);
        }
        if (got != 0 && got != 77) c.fail("a call yields %d", got);
    }
    template <class P> void hook(const char* n, std::function<bool(int)> takes) {
        auto k = w.cls[0];
        int z = hooks++;
        std::string sig = "(" + jnivm::JNITypes<P>::GetJNISignature(w.je) + "I)I";
        snprintf(names[z], 8, "h%d", z);
        snprintf(sigs[z], 64, "%s", sig.c_str());
        k->Hook(w.je, names[z], [this](ENV*, jnivm::Class*, P p, jint i) -> jint { ran++; return i; });
        k->HookInstanceFunction(w.je, names[z], [this](ENV*, T*, P p, jint i) -> jint { ran++; return i; });
        // all identifiers exist beforehand
        jclass jc = (jclass)w.objs[S::CT];
        if (!e->GetStaticMethodID(jc, names[z], sigs[z]) || !e->GetMethodID(jc, names[z], sigs[z])) abort();
        for (bool st : {false, true}) pos.push_back({n, HOOK, takes, [this, z, st](jobject o, Refs& r) { call1(names[z], sigs[z], o, r, st); }});
    }
    explicit W(Case& c) : c(c) {
        memset(u, 0x33, sizeof u);
        memcpy(u0, u, sizeof u);
        jmethodID inst = e->GetMethodID((jclass)w.objs[S::CT], "v", "(Ljava/lang/Object;)V");
        jmethodID stat = e->GetStaticMethodID((jclass)w.objs[S::CT], "w", "([Lp/T;[Ljava/lang/String;F)J");
        jmethodID ctor = e->GetMethodID((jclass)w.objs[S::CT], "<init>", "(Ljava/lang/String;Ljava/lang/Object;)V");
        jmethodID unk = e->GetStaticMethodID((jclass)w.objs[S::CT], "unknown", "()I");
        // classes
#define CL(N, ...) pos.push_back({N, CLS, isclass, [=](jobject o, Refs& r) { jclass k = (jclass)o; __VA_ARGS__; }})
        CL("GetSuperclass", e->GetSuperclass(k));
        CL("IsAssignableFrom", e->IsAssignableFrom(k, (jclass)ref(r, S::CU)));
        CL("IsAssignableFrom (second)", e->IsAssignableFrom((jclass)ref(r, S::CU), k));
        CL("IsInstanceOf", e->IsInstanceOf(ref(r, S::U0), k));
        CL("GetMethodID", e->GetMethodID(k, "v", "(Ljava/lang/Object;)V"));
        CL("GetStaticMethodID", e->GetStaticMethodID(k, "w", "([Lp/T;[Ljava/lang/String;F)J"));
        CL("GetMethodID <init>", e->GetMethodID(k, "<init>", "(I)V"));
        CL("GetFieldID", e->GetFieldID(k, "n", "I"));
        CL("GetStaticFieldID", e->GetStaticFieldID(k, "si", "I"));
        CL("NewObject", jvalue v[2]; v[0].l = v[1].l = nullptr; a % 2 ? e->NewObject(k, ctor, nullptr, nullptr) : e->NewObjectA(k, ctor, v));
        CL("CallStatic", jvalue v[3]; memset(v, 0, sizeof v); a % 2 ? e->CallStaticLongMethod(k, stat, nullptr, nullptr, 1.0) : e->CallStaticLongMethodA(k, stat, v));
        CL("CallStatic (unknown)", e->CallStaticIntMethod(k, unk));
        CL("CallNonvirtual", e->CallNonvirtualVoidMethod(ref(r, S::U0), k, inst, nullptr));
        CL("GetStaticIntField", e->GetStaticIntField(k, e->GetStaticFieldID((jclass)w.objs[S::CT], "si", "I")));
        CL("SetStaticObjectField", e->SetStaticObjectField(k, e->GetStaticFieldID((jclass)w.objs[S::CT], "so", "Ljava/lang/Object;"), nullptr));
        CL("RegisterNatives", JNINativeMethod nm{(char*)"nat", (char*)"()V", (void*)+[](JNIEnv*, jobject) {}}; e->RegisterNatives(k, &nm, 1));
        CL("UnregisterNatives", e->UnregisterNatives(k));
        CL("NewObjectArray", e->NewObjectArray(a % 3, k, nullptr));
        // strings
#define ST(N, ...) pos.push_back({N, STR, isstr, [=](jobject o, Refs& r) { jstring t = (jstring)o; __VA_ARGS__; memcpy(u, u0, sizeof u); }})
        ST("GetStringLength", e->GetStringLength(t));
        ST("GetStringUTFLength", e->GetStringUTFLength(t));
        ST("GetStringUTFChars", jboolean cp; const char* q = e->GetStringUTFChars(t, &cp); e->ReleaseStringUTFChars(t, q));
        ST("GetStringChars", jboolean cp; const jchar* q = e->GetStringChars(t, &cp); e->ReleaseStringChars(t, q));
        ST("GetStringCritical", jboolean cp; const jchar* q = e->GetStringCritical(t, &cp); e->ReleaseStringCritical(t, q));
        ST("GetStringRegion", e->GetStringRegion(t, 0, 0, (jchar*)u));
        ST("GetStringUTFRegion", e->GetStringUTFRegion(t, 0, 0, u));
        // arrays
        prim<jint, jintArray>(S::ARRI, "int array", &JNIEnv::GetIntArrayElements, &JNIEnv::GetIntArrayRegion, &JNIEnv::SetIntArrayRegion);
        prim<jbyte, jbyteArray>(S::ARRB, "byte array", &JNIEnv::GetByteArrayElements, &JNIEnv::GetByteArrayRegion, &JNIEnv::SetByteArrayRegion);
        prim<jchar, jcharArray>(S::ARRC, "char array", &JNIEnv::GetCharArrayElements, &JNIEnv::GetCharArrayRegion, &JNIEnv::SetCharArrayRegion);
        prim<jshort, jshortArray>(S::ARRS, "short array", &JNIEnv::GetShortArrayElements, &JNIEnv::GetShortArrayRegion, &JNIEnv::SetShortArrayRegion);
        prim<jlong, jlongArray>(S::ARRJ, "long array", &JNIEnv::GetLongArrayElements, &JNIEnv::GetLongArrayRegion, &JNIEnv::SetLongArrayRegion);
        prim<jfloat, jfloatArray>(S::ARRF, "float array", &JNIEnv::GetFloatArrayElements, &JNIEnv::GetFloatArrayRegion, &JNIEnv::SetFloatArrayRegion);
        prim<jdouble, jdoubleArray>(S::ARRD, "double array", &JNIEnv::GetDoubleArrayElements, &JNIEnv::GetDoubleArrayRegion, &JNIEnv::SetDoubleArrayRegion);
        prim<jboolean, jbooleanArray>(S::ARRZ, "boolean array", &JNIEnv::GetBooleanArrayElements, &JNIEnv::GetBooleanArrayRegion, &JNIEnv::SetBooleanArrayRegion);
        pos.push_back({"GetArrayLength", OBJ, isarr, [this](jobject o, Refs&) { e->GetArrayLength((jarray)o); }});
        // an object array is no primitive array, but not refused
        pos.push_back({"GetPrimitiveArrayCritical", PRI, isarr, [this](jobject o, Refs&) { e->ReleasePrimitiveArrayCritical((jarray)o, e->GetPrimitiveArrayCritical((jarray)o, nullptr), 0); }});
        pos.push_back({"GetObjectArrayElement", OBJ, isobjarr, [this](jobject o, Refs&) { e->GetObjectArrayElement((jobjectArray)o, a % 3); }});
        pos.push_back({"SetObjectArrayElement", OBJ, isobjarr, [this](jobject o, Refs&) { e->SetObjectArrayElement((jobjectArray)o, a % 3, nullptr); }});
        pos.push_back({"element of T[]", OBJ, isT, [this](jobject o, Refs& r) { e->SetObjectArrayElement((jobjectArray)ref(r, S::TARR), a % 4, o); }});
        pos.push_back({"element of String[]", OBJ, isstr, [this](jobject o, Refs& r) { e->SetObjectArrayElement((jobjectArray)ref(r, S::SARR), a % 4, o); }});
        pos.push_back({"GetDirectBufferAddress", BUFS, [](int i) { return i == S::BUF; }, [this](jobject o, Refs&) { e->GetDirectBufferAddress(o); }});
        pos.push_back({"GetDirectBufferCapacity", BUFS, [](int i) { return i == S::BUF; }, [this](jobject o, Refs&) { e->GetDirectBufferCapacity(o); }});
        pos.push_back({"Throw", THR, isthr, [this](jobject o, Refs&) { e->Throw((jthrowable)o); }});
        // hooks
        hook<std::shared_ptr<String>>("hook parameter String", isstr);
        hook<std::shared_ptr<T>>("hook parameter T", isT);
        hook<std::shared_ptr<U>>("hook parameter U", [](int i) { return i == S::U0; });
        hook<std::shared_ptr<jnivm::Class>>("hook parameter Class", isclass);
        hook<std::shared_ptr<Throwable>>("hook parameter Throwable", isthr);
        hook<std::shared_ptr<ByteBuffer>>("hook parameter ByteBuffer", [](int i) { return i == S::BUF; });
        hook<std::shared_ptr<Array<jint>>>("hook parameter int[]", [](int i) { return i == S::ARRI; });
        hook<std::shared_ptr<Array<jbyte>>>("hook parameter byte[]", [](int i) { return i == S::ARRB; });
        hook<std::shared_ptr<Array<Object>>>("hook parameter Object[]", isobjarr);
        hook<std::shared_ptr<Array<T>>>("hook parameter T[]", [](int i) { return i == S::TARR; });
        hook<std::shared_ptr<Array<String>>>("hook parameter String[]", [](int i) { return i == S::SARR; });
        hook<T*>("hook parameter T*", isT);
        hook<String*>("hook parameter String*", isstr);
        hook<T&>("hook parameter T&", isT);
        // the receiver
        auto k = w.cls[0];
        k->HookInstanceFunction(w.je, "recv", [this](ENV*, T* self) -> jint { ran++; return self->n; });
        k->HookInstance(w.je, "memb", [this](T* self) -> jint { ran++; return self->n; });
        jmethodID m = e->GetMethodID((jclass)w.objs[S::CT], "recv", "()I");
        if (!m) abort();
        pos.push_back({"receiver", HOOK, isT, [this, m](jobject o, Refs& r) { jvalue v[1]; a % 2 ? e->CallIntMethod(o, m) : e->CallIntMethodA(o, m, v); }});
        pos.push_back({"receiver (non-virtual)", HOOK, isT, [this, m](jobject o, Refs& r) { jvalue v[1]; jclass k = (jclass)ref(r, S::CT); a % 2 ? e->CallNonvirtualIntMethod(o, k, m) : e->CallNonvirtualIntMethodA(o, k, m, v); }});
        // fields
        jfieldID n = e->GetFieldID((jclass)w.objs[S::CT], "n", "I"), of = e->GetFieldID((jclass)w.objs[S::CT], "o", "Ljava/lang/Object;"), sf = e->GetFieldID((jclass)w.objs[S::CT], "str", "Ljava/lang/String;"),
                 af = e->GetFieldID((jclass)w.objs[S::CT], "a", "[I"), ss = e->GetStaticFieldID((jclass)w.objs[S::CT], "ss", "Ljava/lang/String;");
        pos.push_back({"owner of an int field", FLD, isT, [=](jobject o, Refs&) { a % 2 ? (void)e->GetIntField(o, n) : e->SetIntField(o, n, 12); }});
        pos.push_back({"owner of an object field", FLD, isT, [=](jobject o, Refs&) { a % 2 ? (void)e->GetObjectField(o, of) : e->SetObjectField(o, of, nullptr); }});
        pos.push_back({"value of a String field", FLD, isstr, [=](jobject o, Refs& r) { e->SetObjectField(ref(r, S::T1), sf, o); }});
        pos.push_back({"value of an int[] field", FLD, [](int i) { return i == S::ARRI; }, [=](jobject o, Refs& r) { e->SetObjectField(ref(r, S::T1), af, o); }});
        pos.push_back({"value of a static String field", FLD, isstr, [=](jobject o, Refs& r) { e->SetStaticObjectField((jclass)ref(r, S::CT), ss, o); }});
        // native conversions
        pos.push_back({"native String", NAT, isstr, [this](jobject o, Refs&) { native<String>(e, o); }});
        pos.push_back({"native T", NAT, isT, [this](jobject o, Refs&) { native<T>(e, o); }});
        pos.push_back({"native T*", NAT, isT, [this](jobject o, Refs&) { (void)jnivm::JNITypes<T*>::JNICast(jenv(e), o); }});
        pos.push_back({"native T[]", NAT, [](int i) { return i == S::TARR; }, [this](jobject o, Refs&) { native<Array<T>>(e, o); }});
        pos.push_back({"native long[]", NAT, [](int i) { return i == S::ARRJ; }, [this](jobject o, Refs&) { native<Array<jlong>>(e, o); }});
        // references to delete
        pos.push_back({"DeleteGlobalRef", DEL, nullptr, [this](jobject o, Refs&) { e->DeleteGlobalRef(o); }});
        pos.push_back({"DeleteWeakGlobalRef", DEL, nullptr, [this](jobject o, Refs&) { e->DeleteWeakGlobalRef(o); }});
    }
};

void property_case(Case& c) {
    Src& s = c.s;
    W w(c);
    JNIEnv* e = w.e;
    unsigned sorts = 0;
    size_t refused = 0;
    for (size_t step = 0, n = 2 + s.len(30); step < n; step++) {
        if (s.chance(1, 4)) {  // something which is accepted, in between
            Op o = Op::gen(s);
            w.w.trace.clear();
            if (o.op != OP_NAT) {
                jthrowable t = e->ExceptionOccurred();
                e->ExceptionClear();
                w.w.run(o);
                e->Throw(t);
                w.w.trace.clear();
            }
            PBT_NOTE(c, "operation %d", o.op);
            continue;
        }
        if (s.chance(1, 6)) {
            bool set = s.chance(1, 2);
            PBT_NOTE(c, "%s", set ? "an exception is pending" : "no exception is pending");
            if (set) e->Throw((jthrowable)w.w.objs[Scene::THR0]);
            else e->ExceptionClear();
        }
        Pos& p = s.pick(w.pos);
        int i = (int)s.below(Scene::NOBJ), kind = (int)s.below(6);
        w.a = s.below(60);
        w.b = s.below(60);
        w.x = s.below(60);
        Refs refs(e);
        e->PushLocalFrame(0);
        jobject o = refs.make(w.w.objs[i], kind);
        bool takes = p.takes ? p.takes(i) : false;
        if (p.sort == DEL) {
            // the references of Refs are deleted by it
            bool weak = kind == 3 || kind == 5, global = kind == 2 || kind == 4;
            if (!strcmp(p.name, "DeleteGlobalRef") ? global : weak) {
                e->PopLocalFrame(nullptr);
                continue;
            }
        }
        PBT_NOTE(c, "%s: %s (%s)%s", p.name, w.w.names[i].c_str(), Refs::kind_name(kind), takes ? ", accepted" : "");
        jobject pend0 = (jobject)jenv(e)->current_exception.get();
        if (takes) {
            // may change something; must not fail
            int ran = w.ran;
            try {
                p.act(o, refs);
            } catch (const pbt::Fail&) {
                throw;
            } catch (const std::exception& x) {
                c.fail("%s refuses %s: %s", p.name, w.w.names[i].c_str(), x.what());
            }
            if (p.sort == HOOK) PBT_CHECK(c, w.ran == ran + 1, "%s: the hook did not run", p.name);
            if (p.sort != THR) PBT_CHECK(c, (jobject)jenv(e)->current_exception.get() == pend0, "%s with %s changes the pending exception", p.name, w.w.names[i].c_str());
        } else {
            // some things are made by the lookups of the action
            std::string before = w.snapshot(refs);
            int ran = w.ran;
            bool thrown = false;
            try {
                p.act(o, refs);
            } catch (const pbt::Fail&) {
                throw;
            } catch (const std::exception&) {
                thrown = true;
            }
            if (p.sort == HOOK) {
                PBT_CHECK(c, w.ran == ran, "%s: the hook ran with %s", p.name, w.w.names[i].c_str());
                PBT_CHECK(c, !thrown, "%s: an error is thrown instead of leaving it pending", p.name);
                PBT_CHECK(c, e->ExceptionCheck() && (jobject)jenv(e)->current_exception.get() != pend0, "%s: no exception is pending after passing %s", p.name, w.w.names[i].c_str());
                bool stdexc = false;
                try {
                    std::rethrow_exception(jenv(e)->current_exception->except);
                } catch (const std::exception&) {
                    stdexc = true;
                } catch (...) {
                }
                PBT_CHECK(c, stdexc, "%s: the pending exception is not catchable", p.name);
                if (pend0) e->Throw((jthrowable)w.w.objs[Scene::THR0]);
                else e->ExceptionClear();
            } else
                PBT_CHECK(c, thrown, "%s accepts %s (%s)", p.name, w.w.names[i].c_str(), Refs::kind_name(kind));
            if (p.sort == HOOK && pend0) before = "", pend0 = nullptr;
            if (!before.empty()) {
                std::string after = w.snapshot(refs);
                if (before != after) {
                    size_t d = 0;
                    while (d < before.size() && d < after.size() && before[d] == after[d]) d++;
                    size_t l = before.rfind('\n', d) == std::string::npos ? 0 : before.rfind('\n', d) + 1;
                    c.fail("%s with %s changes something: %s / %s", p.name, w.w.names[i].c_str(), before.substr(l, before.find('\n', d) - l).c_str(), after.substr(l, after.find('\n', d) - l).c_str());
                }
            }
            refused++;
            sorts |= 1u << p.sort;
        }
        e->PopLocalFrame(nullptr);
        if (!pend0 && s.chance(1, 4)) e->ExceptionClear();
    }
    // nothing is left locked
    if (s.chance(1, 16)) {
        Worker other;
        VM* vm = w.w.vm;
        other.run([&] {
            JNIEnv* e2;
            vm->GetJavaVM()->AttachCurrentThread(&e2, nullptr);
            jclass k = e2->FindClass("p/T");
            e2->GetMethodID(k, "another", "()V");
            e2->GetFieldID(k, "another", "I");
            e2->DeleteGlobalRef(e2->NewGlobalRef(k));
            for (int i = 0; i < Scene::NOBJ; i++) {
                jobject g = e2->NewLocalRef(w.w.objs[i]);
                e2->MonitorEnter(g);
                e2->MonitorExit(g);
            }
            vm->GetJavaVM()->DetachCurrentThread();
        });
    }
    e->ExceptionClear();
    c.nontrivial = __builtin_popcount(sorts) >= 4 && (sorts >> HOOK & 1) && refused >= 5;
}
