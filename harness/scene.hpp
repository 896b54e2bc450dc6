// One set of objects of every kind and the operations of the whole function table on them (C23, C24)
#pragma once
#include "jnitable.hpp"
#include "jvmutil.hpp"
#include <atomic>
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
#include <jnivm/bytebuffer.h>
#include <jnivm/throwable.h>
using jnivm::Array;
using jnivm::ByteBuffer;
using jnivm::Object;
using jnivm::String;
using jnivm::Throwable;
using pbt::Case;
using pbt::Src;

struct T : Object {
    static std::atomic<int>& live() { static std::atomic<int> n; return n; }
    T() { live()++; }
    T(const T&) = delete;
    ~T() { live()--; }
    jint n = 7;
    jlong j = 8;
    jdouble d = 1.5;
    jboolean z = 0;
    std::shared_ptr<Object> o;
    std::shared_ptr<String> s;
    std::shared_ptr<Array<jint>> a;
};
struct U : jnivm::Extends<T> {};

enum { OP_SUPER, OP_ASSIGN, OP_INST, OP_CLASSOF, OP_SAME, OP_THROW, OP_THROWNEW, OP_NEW, OP_NEWUNKNOWN, OP_IDS, OP_CALL, OP_NONVIRT, OP_STATIC, OP_CALLU, OP_FIELD, OP_SFIELD, OP_FIELDU,
       OP_STR, OP_STRREG, OP_PRIM, OP_PRIMREG, OP_OARR, OP_OARRSET, OP_NEWOARR, OP_LEN, OP_BUF, OP_MON, OP_REFL, OP_REFS, OP_FRAME, OP_NAT, OP_MIXED, OP_KIND, OP_COUNT };

struct Op {
    int op;
    uint32_t a, b, x, y;
    int k[5];  // reference kinds
    static Op gen(Src& s) {
        Op p;
        p.op = (int)s.below(OP_COUNT);
        p.a = s.below(840);
        p.b = s.below(840);
        p.x = s.below(210);
        p.y = s.below(210);
        for (int& k : p.k) k = (int)s.below(6);
        return p;
    }
};

struct Scene {
    Case& c;
    std::unique_ptr<VM> plain;
    std::unique_ptr<Baron::Jvm> baron;
    VM* vm;
    JNIEnv* e;
    ENV* je;
    bool kinds;
    std::vector<std::string> trace;
    std::vector<jobject> objs;
    std::vector<std::string> names;
    std::shared_ptr<String> sstr;
    std::shared_ptr<Object> sobj;
    jint sint = 3;
    char bytes[32];
    std::vector<std::shared_ptr<jnivm::Class>> cls;
    enum { T0, T1, U0, STR0, STR1, STR2, ARRI, ARRB, ARRC, ARRS, ARRJ, ARRF, ARRD, ARRZ, OARR, TARR, SARR, IIARR, THR0, THR1, BUF, PLAIN, CT, CU, CSTR, COBJ, CUNK, CTHR, NOBJ };
    static bool any(int i) { return i < NOBJ; }

    void add(int want, const char* n, jobject o) {
        if ((int)objs.size() != want) abort();
        objs.push_back(o);
        names.push_back(n);
    }
    std::string who(jobject o) {
        if (!o) return "null";
        std::shared_ptr<Object> p;
        p = native<Object>(e, o);
        if (!p) return "dead";
        for (size_t i = 0; i < objs.size(); i++)
            if ((Object*)objs[i] == p.get()) return names[i];
        std::string r = "a " + cname(o);
        if (auto s = std::dynamic_pointer_cast<String>(p)) r += " '" + *s + "'";
        return r;
    }
    std::string who(const std::shared_ptr<Object>& p) {
        if (!p) return "null";
        for (size_t i = 0; i < objs.size(); i++)
            if ((Object*)objs[i] == p.get()) return names[i];
        return "another object";
    }
    std::string cname(jobject o) {
        auto p = native<Object>(e, o);
        auto k = p ? p->getClassInternal(je) : nullptr;
        return k ? k->getName() : "no class";
    }
    void log(std::string s) { trace.push_back(std::move(s)); }
    template <class P> static std::string str0(const P& s) { return s ? std::string(*s) : "null"; }
    template <class X> static std::string str(X v) { return std::to_string(v); }

    static VM* make(std::unique_ptr<VM>& plain, std::unique_ptr<Baron::Jvm>& baron, bool b) {
        if (b) baron.reset(new Baron::Jvm);
        else plain.reset(new VM());
        return b ? VM::FromJavaVM(baron.get()) : plain.get();
    }
    std::string pkg;  // the package of the scene's classes
    Scene(Case& c, bool kinds, bool usebaron = false, const char* package = "p") : c(c), vm(make(plain, baron, usebaron)), e(vm->GetJNIEnv()), je(jenv(e)), kinds(kinds), pkg(package) {
        for (int i = 0; i < 32; i++) bytes[i] = (char)i;
        auto ct = je->GetClass<T>((pkg + "/T").data());
        auto cu = je->GetClass<U>((pkg + "/U").data());
        cls = {ct, cu};
        Scene* me = this;
        // hooks: what they see goes to the trace
        ct->HookInstanceFunction(je, "f", [me](ENV* e, T* self, std::shared_ptr<Object> o, std::shared_ptr<String> s, jint i) -> std::shared_ptr<Object> {
            me->log("f on " + me->who(self ? self->shared_from_this() : nullptr) + ": " + me->who(o) + ", " + str0(s) + ", " + str(i));
            return i % 3 == 0 ? o : i % 3 == 1 ? s : nullptr;
        });
        ct->HookInstanceFunction(je, "g", [me](ENV* e, T* self, std::shared_ptr<Array<jint>> a, std::shared_ptr<jnivm::Class> k, jdouble d) -> jint {
            me->log("g on " + me->who(self->shared_from_this()) + ": " + me->who(a) + ", " + me->who(k) + ", " + str(d));
            return self->n + (a ? (*a)[0] : 0);
        });
        ct->HookInstanceFunction(je, "v", [me](ENV* e, T* self, std::shared_ptr<Object> r) {
            self->n++;
            me->log("v on " + me->who(self->shared_from_this()) + ": " + me->who(r));
        });
        cu->HookInstanceFunction(je, "v", [me](ENV* e, U* self, std::shared_ptr<Object> r) {
            self->n += 2;
            me->log("U.v on " + me->who(self->shared_from_this()) + ": " + me->who(r));
        });
        ct->Hook(je, "s", [me](ENV* e, jnivm::Class* k, std::shared_ptr<T> t, std::shared_ptr<Array<Object>> a, std::shared_ptr<Throwable> th, jlong j) -> std::shared_ptr<Object> {
            me->log("s on " + me->who(k->shared_from_this()) + ": " + me->who(t) + ", " + me->who(a) + ", " + me->who(th) + ", " + str(j));
            return j & 1 ? std::shared_ptr<Object>(t) : std::shared_ptr<Object>(a);
        });
        ct->Hook(je, "r", [me](ENV* e, jnivm::Class* k, T* t, ByteBuffer* b, jint i, String* s) -> jdouble {
            me->log("r on " + me->who(k->shared_from_this()) + ": " + me->who(t ? t->shared_from_this() : nullptr) + ", " + (b ? str(b->capacity) : "null") + ", " + str(i) + ", " + str0(s));
            return i / 2.0;
        });
        ct->Hook(je, "w", [me](ENV* e, jnivm::Class* k, std::shared_ptr<Array<T>> t, std::shared_ptr<Array<String>> s, jfloat f) -> jlong {
            me->log("w: " + me->who(t) + ", " + me->who(s) + ", " + str(f));
            return t ? t->getSize() : -1;
        });
        ct->Hook(je, "<init>", [me](ENV* e, jnivm::Class* k, std::shared_ptr<String> s, std::shared_ptr<Object> o) -> std::shared_ptr<T> {
            auto t = std::make_shared<T>();
            t->s = s;
            t->o = o;
            me->log("new " + me->who(k->shared_from_this()) + ": " + str0(s) + ", " + me->who(o));
            return t;
        });
        ct->HookInstance(je, "n", &T::n);
        ct->HookInstance(je, "j", &T::j);
        ct->HookInstance(je, "d", &T::d);
        ct->HookInstance(je, "z", &T::z);
        ct->HookInstance(je, "o", &T::o);
        ct->HookInstance(je, "str", &T::s);
        ct->HookInstance(je, "a", &T::a);
        ct->HookGetterFunction(je, "so", [me](ENV* e, jnivm::Class* k) -> std::shared_ptr<Object> { me->log("get so of " + me->who(k->shared_from_this())); return me->sobj; });
        ct->HookSetterFunction(je, "so", [me](ENV* e, jnivm::Class* k, std::shared_ptr<Object> v) { me->log("set so of " + me->who(k->shared_from_this())); me->sobj = v; });
        ct->HookGetterFunction(je, "ss", [me](ENV* e, jnivm::Class* k) -> std::shared_ptr<String> { return me->sstr; });
        ct->HookSetterFunction(je, "ss", [me](ENV* e, jnivm::Class* k, std::shared_ptr<String> v) { me->sstr = v; });
        ct->HookGetterFunction(je, "si", [me](ENV* e, jnivm::Class* k) -> jint { return me->sint; });
        ct->HookSetterFunction(je, "si", [me](ENV* e, jnivm::Class* k, jint v) { me->sint = v; });
        add(T0, "T0", local(e, std::make_shared<T>()));
        add(T1, "T1", local(e, std::make_shared<T>()));
        add(U0, "U0", local(e, std::make_shared<U>()));
        add(STR0, "STR0", e->NewStringUTF("hello"));
        add(STR1, "STR1", e->NewStringUTF(""));
        add(STR2, "STR2", e->NewStringUTF("gr\xc3\xbc\xc3\x9f"));
        jintArray ia = e->NewIntArray(5);
        jint iv[5] = {1, -2, 3, -4, 5};
        e->SetIntArrayRegion(ia, 0, 5, iv);
        add(ARRI, "ARRI", ia);
        add(ARRB, "ARRB", e->NewByteArray(5));
        add(ARRC, "ARRC", e->NewCharArray(5));
        add(ARRS, "ARRS", e->NewShortArray(5));
        add(ARRJ, "ARRJ", e->NewLongArray(5));
        add(ARRF, "ARRF", e->NewFloatArray(5));
        add(ARRD, "ARRD", e->NewDoubleArray(5));
        add(ARRZ, "ARRZ", e->NewBooleanArray(5));
        add(OARR, "OARR", e->NewObjectArray(4, e->FindClass("java/lang/Object"), nullptr));
        add(TARR, "TARR", local(e, std::make_shared<Array<T>>(4)));
        add(SARR, "SARR", local(e, std::make_shared<Array<String>>(4)));
        add(IIARR, "IIARR", e->NewObjectArray(3, e->FindClass("[I"), ia));
        native<Object>(e, objs[TARR])->clazz = je->GetClass(("[L" + pkg + "/T;").data());
        native<Object>(e, objs[SARR])->clazz = je->GetClass("[Ljava/lang/String;");
        auto thr = [&](const char* m) -> jobject {
            e->ThrowNew(e->FindClass("java/lang/Exception"), m);
            jobject o = e->ExceptionOccurred();
            e->ExceptionClear();
            return o;
        };
        add(THR0, "THR0", thr("first"));
        add(THR1, "THR1", thr("second"));
        add(BUF, "BUF", e->NewDirectByteBuffer(bytes, 32));
        add(PLAIN, "PLAIN", local(e, std::make_shared<Object>()));
        add(CT, "class T", e->FindClass((pkg + "/T").data()));
        add(CU, "class U", e->FindClass((pkg + "/U").data()));
        add(CSTR, "class String", e->FindClass("java/lang/String"));
        add(COBJ, "class Object", e->FindClass("java/lang/Object"));
        add(CUNK, "class Unknown", e->FindClass("x/Unknown"));
        add(CTHR, "class Throwable", e->FindClass("java/lang/Throwable"));
    }
    ~Scene() {
        e->ExceptionClear();
        // the objects refer to each other in rings
        for (int i : {T0, T1, U0})
            if (auto t = native<T>(e, objs[i])) t->o = nullptr, t->s = nullptr, t->a = nullptr;
        for (int i : {OARR, TARR, SARR, IIARR})
            for (int k = 0; k < e->GetArrayLength((jarray)objs[i]); k++) e->SetObjectArrayElement((jobjectArray)objs[i], k, nullptr);
        sstr = nullptr;
        sobj = nullptr;
    }
    template <class R> void field(const Op& p, jobject o, jclass oc, jclass k, const char* n, const char* t, R v) {
        bool st = !o;
        jfieldID f = st ? e->GetStaticFieldID(k, n, t) : e->GetFieldID(k, n, t);
        R r;
        if (p.x & 1) st ? Fields<R>::sset(e, oc, f, v) : Fields<R>::set(e, o, f, v);
        r = st ? Fields<R>::sget(e, oc, f) : Fields<R>::get(e, o, f);
        log(std::string(n) + " " + str(r));
    }
    void ofield(const Op& p, jobject o, jclass oc, jclass k, const char* n, const char* t, jobject v) {
        bool st = !o;
        jfieldID f = st ? e->GetStaticFieldID(k, n, t) : e->GetFieldID(k, n, t);
        if (p.x & 1) st ? e->SetStaticObjectField(oc, f, v) : e->SetObjectField(o, f, v);
        jobject r = st ? e->GetStaticObjectField(oc, f) : e->GetObjectField(o, f);
        log(std::string(n) + " " + who(r));
    }
    template <class R> static R viaV(JNIEnv* e, int how, jobject o, jclass k, jmethodID m, ...) {
        va_list l;
        va_start(l, m);
        struct End { va_list& l; ~End() { va_end(l); } } end{l};
        return how == 0 ? Calls<R>::v(e, o, m, l) : how == 1 ? Calls<R>::nv(e, o, k, m, l) : Calls<R>::sv(e, k, m, l);
    }
    // how: 0 virtual, 1 non-virtual, 2 static; way: 0 variadic, 1 va_list, 2 array
    template <class R, class... A> R call(int how, int way, jobject o, jclass k, jmethodID m, jvalue* v, A... a) {
        if (way == 0) return how == 0 ? Calls<R>::d(e, o, m, a...) : how == 1 ? Calls<R>::nd(e, o, k, m, a...) : Calls<R>::sd(e, k, m, a...);
        if (way == 1) return viaV<R>(e, how, o, k, m, a...);
        return how == 0 ? Calls<R>::a(e, o, m, v) : how == 1 ? Calls<R>::na(e, o, k, m, v) : Calls<R>::sa(e, k, m, v);
    }
    void instcall(const Op& p, const std::function<jobject(int, int)>& ref, bool nonvirt) {
        static const int recv[] = {T0, T1, U0};
        jobject o = ref(recv[p.a % 3], 0);
        jclass k = (jclass)ref(p.a % 3 == 2 && p.y % 2 ? CU : CT, 1);
        jclass idk = (jclass)ref(p.b % 2 ? CT : recv[p.a % 3] == U0 ? CU : CT, 2);
        int way = p.x % 3, how = nonvirt ? 1 : 0;
        jvalue v[3];
        memset(v, 0, sizeof v);
        switch (p.y / 2 % 3) {
            case 0: {
                jobject a = ref(p.b % NOBJ, 3), s = ref(p.b % 5 == 0 ? -1 : STR0 + p.b % 3, 4);
                jint i = p.x % 7;
                v[0].l = a; v[1].l = s; v[2].i = i;
                log("-> " + who(call<jobject>(how, way, o, k, e->GetMethodID(idk, "f", "(Ljava/lang/Object;Ljava/lang/String;I)Ljava/lang/Object;"), v, a, s, i)));
                break;
            }
            case 1: {
                jobject a = ref(p.b % 5 == 0 ? -1 : ARRI, 3), s = ref(CT + p.b % 6, 4);
                v[0].l = a; v[1].l = s; v[2].d = 2.5;
                log("-> " + str(call<jint>(how, way, o, k, e->GetMethodID(idk, "g", "([ILjava/lang/Class;D)I"), v, a, s, 2.5)));
                break;
            }
            default: {
                jobject a = ref(p.b % NOBJ, 3);
                v[0].l = a;
                call<void>(how, way, o, k, e->GetMethodID(idk, "v", "(Ljava/lang/Object;)V"), v, a);
                log("n " + str(native<T>(e, objs[recv[p.a % 3]])->n));
            }
        }
    }
    template <class X, class A> void prim(const Op& p, const std::function<jobject(int, int)>& ref, int i, X* (JNIEnv::*el)(A, jboolean*), void (JNIEnv::*rel)(A, X*, jint), void (JNIEnv::*get)(A, jsize, jsize, X*),
                                          void (JNIEnv::*set)(A, jsize, jsize, const X*)) {
        A a = (A)ref(i, 0);
        X buf[5] = {}, in[5] = {(X)p.x, (X)p.y, (X)p.b, 1, 0};
        if (p.op == OP_PRIM) {
            jboolean cp = 9;
            X* q = p.y % 2 ? (X*)e->GetPrimitiveArrayCritical(a, &cp) : (e->*el)(a, &cp);
            log("elements " + str(q[0]) + " " + str(q[4]) + " " + str(cp));
            q[p.x % 5] = (X)p.b;
            if (p.y % 2) e->ReleasePrimitiveArrayCritical((A)ref(i, 1), q, 0);
            else (e->*rel)((A)ref(i, 1), q, 0);
        } else {
            int st = p.x % 5, n = p.y % (6 - st);
            (e->*set)(a, st, n, in);
        }
        (e->*get)((A)ref(i, 2), 0, 5, buf);
        std::string r = "now";
        for (X v : buf) r += " " + str(v);
        log(r);
    }
    void run(const Op& p) {
        e->PushLocalFrame(0);
        Refs refs(e);
        std::function<jobject(int, int)> ref = [&](int i, int slot) -> jobject {
            if (i < 0) return nullptr;
            return refs.make(objs[i], kinds ? p.k[slot] : 0);
        };
        std::string err;
        try {
            exec(p, ref, refs);
        } catch (const pbt::Fail&) {
            throw;
        } catch (const std::exception& x) {
            log(std::string("throws ") + x.what());
        }
        if (jthrowable t = e->ExceptionOccurred()) {
            log("pending " + who(t));
            e->ExceptionClear();
        }
        e->PopLocalFrame(nullptr);
    }
    void exec(const Op& p, const std::function<jobject(int, int)>& ref, Refs& refs) {
        int any = p.a % NOBJ, any2 = p.b % NOBJ, k = CT + p.a % 6, k2 = CT + p.b % 6;
        switch (p.op) {
            case OP_SUPER: log("super " + who(e->GetSuperclass((jclass)ref(k, 0)))); break;
            case OP_ASSIGN: log("assignable " + str(e->IsAssignableFrom((jclass)ref(k, 0), (jclass)ref(k2, 1)))); break;
            case OP_INST: log("instance " + str(e->IsInstanceOf(ref(any, 0), (jclass)ref(k2, 1)))); break;
            case OP_CLASSOF: log("class of " + names[any] + " " + native<jnivm::Class>(e, e->GetObjectClass(ref(any, 0)))->getName()); break;
            case OP_SAME: log("same " + str(e->IsSameObject(ref(any, 0), ref(p.x % 2 ? any : any2, 1))) + str(e->IsSameObject(nullptr, ref(any, 2)))); break;
            case OP_THROW: log("throw " + str(e->Throw((jthrowable)ref(THR0 + p.a % 2, 0))) + str(e->ExceptionCheck())); break;
            case OP_THROWNEW: {
                log("throw " + str(e->ThrowNew((jclass)ref(k, 0), "text")));
                try {
                    std::rethrow_exception(native<Throwable>(e, e->ExceptionOccurred())->except);
                } catch (const std::exception& x) { log(x.what()); }
                e->ExceptionClear();
                break;
            }
            case OP_NEW: {
                jmethodID m = e->GetMethodID((jclass)ref(CT, 0), "<init>", "(Ljava/lang/String;Ljava/lang/Object;)V");
                jobject s = ref(STR0 + p.b % 3, 2), o = ref(any2, 3);
                jclass k = (jclass)ref(CT, 1);
                jvalue v[2];
                v[0].l = s;
                v[1].l = o;
                jobject r = p.x % 2 ? e->NewObjectA(k, m, v) : e->NewObject(k, m, s, o);
                log("made " + who(r));
                auto t = native<T>(e, r);
                log(str0(t->s) + " " + who(t->o));
                break;
            }
            case OP_NEWUNKNOWN: {
                jmethodID m = e->GetMethodID((jclass)ref(CUNK, 0), "<init>", "(Ljava/lang/Object;)V");
                log("made " + who(e->NewObject((jclass)ref(CUNK, 1), m, ref(any2, 2))));
                break;
            }
            case OP_IDS: {
                jclass a = (jclass)ref(k, 0), b = (jclass)ref(k, 1);
                static const char* n[] = {"f", "zz", "v", "so"};
                const char* nm = n[p.b % 4];
                jmethodID m = e->GetMethodID(a, nm, "(Ljava/lang/Object;)V"), m2 = e->GetMethodID(b, nm, "(Ljava/lang/Object;)V");
                jmethodID s = e->GetStaticMethodID(a, nm, "()I"), s2 = e->GetStaticMethodID(b, nm, "()I");
                jfieldID f = e->GetFieldID(a, nm, "I"), f2 = e->GetFieldID(b, nm, "I");
                jfieldID g = e->GetStaticFieldID(a, nm, "Ljava/lang/Object;"), g2 = e->GetStaticFieldID(b, nm, "Ljava/lang/Object;");
                log("ids " + str(m == m2) + str(s == s2) + str(f == f2) + str(g == g2) + str(!m) + str(!s) + str(!f) + str(!g) + " " + str(native<jnivm::Class>(e, objs[k])->methods.size()) + " " + str(native<jnivm::Class>(e, objs[k])->fields.size()));
                break;
            }
            case OP_CALL: instcall(p, ref, false); break;
            case OP_NONVIRT: instcall(p, ref, true); break;
            case OP_STATIC: {
                jclass k = (jclass)ref(CT, 0), idk = (jclass)ref(CT, 1);
                jvalue v[4];
                memset(v, 0, sizeof v);
                int way = p.x % 3;
                switch (p.y % 3) {
                    case 0: {
                        jobject t = ref(T0 + p.a % 3, 2), a = ref(p.b % 2 ? OARR : TARR, 3), th = ref(p.b % 3 ? THR0 : -1, 4);
                        jlong j = p.y;
                        v[0].l = t; v[1].l = a; v[2].l = th; v[3].j = j;
                        log("-> " + who(call<jobject>(2, way, nullptr, k, e->GetStaticMethodID(idk, "s", ("(L" + pkg + "/T;[Ljava/lang/Object;Ljava/lang/Throwable;J)Ljava/lang/Object;").data()), v, t, a, th, j)));
                        break;
                    }
                    case 1: {
                        jobject t = ref(T0 + p.a % 3, 2), b = ref(BUF, 3), s = ref(STR0 + p.b % 3, 4);
                        v[0].l = t; v[1].l = b; v[2].i = p.y; v[3].l = s;
                        log("-> " + str(call<jdouble>(2, way, nullptr, k, e->GetStaticMethodID(idk, "r", ("(L" + pkg + "/T;Ljava/nio/ByteBuffer;ILjava/lang/String;)D").data()), v, t, b, (jint)p.y, s)));
                        break;
                    }
                    default: {
                        jobject t = ref(p.a % 3 ? TARR : -1, 2), s = ref(SARR, 3);
                        v[0].l = t; v[1].l = s; v[2].f = 2;
                        log("-> " + str(call<jlong>(2, way, nullptr, k, e->GetStaticMethodID(idk, "w", ("([L" + pkg + "/T;[Ljava/lang/String;F)J").data()), v, t, s, (jdouble)2)));
                    }
                }
                break;
            }
            case OP_CALLU: {  // nothing implements it
                jclass k = (jclass)ref(k2, 0);
                jobject o = ref(any, 1), a = ref(any2, 2);
                jmethodID m = e->GetMethodID(k, "unk", "(Ljava/lang/Object;)Ljava/lang/String;"), s = e->GetStaticMethodID(k, "unk", "(Ljava/lang/Object;)[I");
                log("-> " + who(e->CallObjectMethod(o, m, a)) + ", " + who(e->CallNonvirtualObjectMethod(o, (jclass)ref(k2, 3), m, a)) + ", " + who(e->CallStaticObjectMethod((jclass)ref(k2, 4), s, a)));
                break;
            }
            case OP_FIELD: {
                jobject o = ref(T0 + p.a % 3, 0);
                jclass k = (jclass)ref(CT, 1);
                switch (p.y % 7) {
                    case 0: field<jint>(p, o, nullptr, k, "n", "I", (jint)p.b); break;
                    case 1: field<jlong>(p, o, nullptr, k, "j", "J", p.b); break;
                    case 2: field<jdouble>(p, o, nullptr, k, "d", "D", p.b); break;
                    case 3: field<jboolean>(p, o, nullptr, k, "z", "Z", p.b & 1); break;
                    case 4: ofield(p, o, nullptr, k, "o", "Ljava/lang/Object;", ref(any2, 2)); break;
                    case 5: ofield(p, o, nullptr, k, "str", "Ljava/lang/String;", ref(STR0 + p.b % 3, 2)); break;
                    default: ofield(p, o, nullptr, k, "a", "[I", ref(p.b % 4 ? ARRI : -1, 2));
                }
                break;
            }
            case OP_SFIELD: {
                jclass oc = (jclass)ref(CT, 0), k = (jclass)ref(CT, 1);
                switch (p.y % 3) {
                    case 0: field<jint>(p, nullptr, oc, k, "si", "I", (jint)p.b); break;
                    case 1: ofield(p, nullptr, oc, k, "so", "Ljava/lang/Object;", ref(any2, 2)); break;
                    default: ofield(p, nullptr, oc, k, "ss", "Ljava/lang/String;", ref(STR0 + p.b % 3, 2));
                }
                break;
            }
            case OP_FIELDU: {
                jclass k = (jclass)ref(k2, 0);
                jobject o = ref(any, 1);
                jfieldID f = e->GetFieldID(k, "unk", "J"), s = e->GetStaticFieldID(k, "unk", "Ljava/lang/String;");
                e->SetLongField(o, f, 5);
                e->SetStaticObjectField((jclass)ref(k2, 2), s, ref(any2, 3));
                log("-> " + str(e->GetLongField(o, f)) + " " + who(e->GetStaticObjectField((jclass)ref(k2, 2), s)));
                break;
            }
            case OP_STR: {
                int i = STR0 + p.a % 3;
                jstring a = (jstring)ref(i, 0), b = (jstring)ref(i, 1);
                jboolean cp = 9;
                switch (p.x % 5) {
                    case 0: log("length " + str(e->GetStringLength(a)) + " " + str(e->GetStringUTFLength(b))); break;
                    case 1: {
                        const char* q = e->GetStringUTFChars(a, &cp);
                        log("utf " + std::string(q));
                        e->ReleaseStringUTFChars(b, q);
                        break;
                    }
                    case 2: case 3: {
                        const jchar* q = p.x % 5 == 2 ? e->GetStringChars(a, &cp) : e->GetStringCritical(a, &cp);
                        std::string r = "chars";
                        for (int n = e->GetStringLength((jstring)objs[i]), z = 0; z < n; z++) r += " " + str(q[z]);
                        log(r);
                        p.x % 5 == 2 ? e->ReleaseStringChars(b, q) : e->ReleaseStringCritical(b, q);
                        break;
                    }
                    default: log("native " + *native<String>(e, a) + " " + *native<Object>(e, b)->getClassInternal(je)->getName().data());
                }
                break;
            }
            case OP_STRREG: {
                int i = STR0 + p.a % 3;
                jsize n = e->GetStringLength((jstring)objs[i]);
                jsize st = p.x % (n + 1), l = p.y % (n - st + 1);
                jchar w[16];
                char u[40];
                memset(w, 0x55, sizeof w);
                memset(u, 0x55, sizeof u);
                e->GetStringRegion((jstring)ref(i, 0), st, l, w);
                e->GetStringUTFRegion((jstring)ref(i, 1), st, l, u);
                log("region " + std::string((char*)w, sizeof w) + std::string(u, sizeof u));
                break;
            }
            case OP_PRIM: case OP_PRIMREG:
#define PR(I, X, A, N) case I: prim<X, A>(p, ref, I, &JNIEnv::Get##N##ArrayElements, &JNIEnv::Release##N##ArrayElements, &JNIEnv::Get##N##ArrayRegion, &JNIEnv::Set##N##ArrayRegion); break;
                switch (ARRI + p.a % 8) {
                    PR(ARRI, jint, jintArray, Int) PR(ARRB, jbyte, jbyteArray, Byte) PR(ARRC, jchar, jcharArray, Char) PR(ARRS, jshort, jshortArray, Short)
                    PR(ARRJ, jlong, jlongArray, Long) PR(ARRF, jfloat, jfloatArray, Float) PR(ARRD, jdouble, jdoubleArray, Double) PR(ARRZ, jboolean, jbooleanArray, Boolean)
                }
                break;
            case OP_OARR: case OP_OARRSET: {
                int i = OARR + p.a % 4, l = i == IIARR ? 3 : 4;
                jobjectArray a = (jobjectArray)ref(i, 0);
                if (p.op == OP_OARRSET) {
                    int v = i == OARR ? any2 : i == TARR ? T0 + p.b % 3 : i == SARR ? STR0 + p.b % 3 : ARRI;
                    if (v == i) v = -1;
                    if (p.y % 9 == 0) v = -1;
                    e->SetObjectArrayElement(a, p.x % l, ref(v, 1));
                    // and natively
                    if (i == TARR) log(who((*native<Array<T>>(e, ref(i, 2)))[p.x % l]));
                    if (i == SARR) log(who((*native<Array<String>>(e, ref(i, 2)))[p.x % l]));
                }
                for (int z = 0; z < l; z++) log("element " + who(e->GetObjectArrayElement((jobjectArray)ref(i, 3), z)));
                break;
            }
            case OP_NEWOARR: {
                int init = k == CT || k == CU ? (p.b % 2 ? U0 : -1) : k == CSTR ? STR0 + p.b % 3 : k == CTHR ? THR0 : k == COBJ ? any2 : -1;
                jobject r = e->NewObjectArray(p.x % 4, (jclass)ref(k, 0), ref(init, 1));
                std::string d = "array " + cname(r);
                for (uint32_t z = 0; z < p.x % 4; z++) d += " " + who(e->GetObjectArrayElement((jobjectArray)r, z));
                log(d);
                break;
            }
            case OP_LEN: log("length " + str(e->GetArrayLength((jarray)ref(ARRI + p.a % 12, 0)))); break;
            case OP_BUF: {
                char* q = (char*)e->GetDirectBufferAddress(ref(BUF, 0));
                log("buffer " + str((long)(q - bytes)) + " " + str(e->GetDirectBufferCapacity(ref(BUF, 1))));
                break;
            }
            case OP_MON: {
                log("enter " + str(e->MonitorEnter(ref(any, 0))) + str(e->MonitorEnter(ref(any, 1))));
                log("exit " + str(e->MonitorExit(ref(any, 2))) + str(e->MonitorExit(ref(any, 3))));
                break;
            }
            case OP_REFL: {
                jmethodID m = e->GetMethodID((jclass)objs[CT], "v", "(Ljava/lang/Object;)V");
                jfieldID f = e->GetFieldID((jclass)objs[CT], "n", "I");
                jobject a = e->ToReflectedMethod((jclass)ref(CT, 0), m, false), b = e->ToReflectedField((jclass)ref(CT, 1), f, false);
                jobject ra = refs.make(a, kinds ? p.k[2] : 0), rb = refs.make(b, kinds ? p.k[3] : 0);
                log("reflect " + cname(ra) + " " + cname(rb) + str(e->FromReflectedMethod(ra) == m) + str(e->FromReflectedField(rb) == f) + str(!e->FromReflectedMethod(rb)) + str(!e->FromReflectedField(ref(any, 4))));
                break;
            }
            case OP_REFS: {
                jobject l = e->NewLocalRef(ref(any, 0));
                jobject g = e->NewGlobalRef(ref(any, 1));
                jweak w = e->NewWeakGlobalRef(ref(any, 2));
                log("refs " + who(l) + " " + who(g) + " " + who(w) + " " + str(e->GetObjectRefType(g)) + str(e->GetObjectRefType(w)) + str(e->IsSameObject(g, w)));
                e->DeleteGlobalRef(g);
                e->DeleteWeakGlobalRef(w);
                log("still " + who(ref(any, 3)));
                break;
            }
            case OP_FRAME: {
                e->PushLocalFrame(4);
                jobject r = e->PopLocalFrame(ref(any, 0));
                log("pop " + who(r) + str(e->IsSameObject(r, objs[any])));
                break;
            }
            case OP_NAT: {
                JNINativeMethod nm{(char*)"nat", (char*)"()V", (void*)+[](JNIEnv*, jobject) {}};
                log("register " + str(e->RegisterNatives((jclass)ref(k, 0), &nm, 1)) + " " + str(native<jnivm::Class>(e, objs[k])->natives.size()));
                if (p.x % 2) log("unregister " + str(e->UnregisterNatives((jclass)ref(k, 1))) + " " + str(native<jnivm::Class>(e, objs[k])->natives.size()));
                break;
            }
            case OP_MIXED: {  // natively: a method object
                jmethodID m = e->GetMethodID((jclass)objs[CT], "f", "(Ljava/lang/Object;Ljava/lang/String;I)Ljava/lang/Object;");
                jvalue r = ((jnivm::Method*)m)->invoke(*e, native<Object>(e, objs[T0 + p.a % 3]).get(), ref(any2, 0), ref(STR0 + p.b % 3, 1), (jint)p.x);
                log("-> " + who(r.l));
                break;
            }
            default: {  // natively: conversions
                auto o = native<Object>(e, ref(any, 0));
                log("native " + who(o));
                if (any <= U0) log(str(native<T>(e, ref(any, 1))->n));
                jobject l = local(e, o);
                log("back " + who(l));
            }
        }
    }
};
