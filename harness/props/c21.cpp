// C21: calls and reads which nothing implements.
#include "jnitable.hpp"
#include "jvmutil.hpp"
#include "siggen.hpp"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C21";
const char* const kRule =
    "calls through every entry of the function table, constructor calls and field reads and writes of members which nothing implements (invented ones on a VM or a Baron-like VM, the null identifier of "
    "VMs which refuse, fields with only a setter), with declared types of the whole grammar: primitives, classes nobody knows, natively constructible and not constructible ones, nested "
    "arrays of all of them; receivers of all reference kinds and arguments of all kinds, which are compared afterwards; non-trivial: object results of a known and an unknown "
    "class and of an array of arrays; identity: the draws";

#if defined(VARIANT_C)
static const bool kFabricates = false;
#else
static const bool kFabricates = true;
#endif

struct T : Object {};
struct U : jnivm::Extends<T> {};
struct N : Object {  // cannot be constructed
    explicit N(int) {}
};
static jint g_int;
static jboolean g_bool;

struct World {
    Case& c;
    Src& s;
    JNIEnv* env;
    bool refuses;  // unknown symbols yield null
    bool typed;
    bool known = false, unknown = false, nested = false;
    std::string cls() {
        static const char* l[] = {"p/T", "p/U", "p/N", "x/Unknown", "x/y/Other", "x/Unknown$Inner", "java/lang/Object", "java/lang/String", "java/lang/Throwable", "java/nio/ByteBuffer", "Bare", "p/Dummy", "q/N", "N", "p/N$N", "java/nio/ByteBuffe", "p/n/N"};
        return s.pick(l);
    }
    std::string type() {
        std::string r(s.chance(1, 2) ? 0 : s.weighted({0, 5, 3, 2, 1}), '[');
        if (s.chance(1, 2)) return r + "L" + cls() + ";";
        return r + "ZBCSIJFD"[s.below(8)];
    }
    bool constructible(const std::string& n) { return !((typed && n == "p/N") || n == "java/nio/ByteBuffer"); }
    // a result of the declared type t
    void result(const std::string& t, jobject r, const char* what) {
        if (!kFabricates || (t[0] == 'L' && !constructible(t.substr(1, t.size() - 2)))) {
            PBT_CHECK(c, !r, "%s of type %s yields an object", what, t.data());
            return;
        }
        PBT_CHECK(c, r, "%s of type %s yields null", what, t.data());
        std::string n = t[0] == 'L' ? t.substr(1, t.size() - 2) : t;
        auto k = native<jnivm::Class>(env, env->GetObjectClass(r));
        PBT_CHECK(c, k, "%s of type %s yields an object without class", what, t.data());
        PBT_CHECK(c, k->getName() == n, "%s of type %s yields an object of class %s", what, t.data(), k->getName().data());
        jclass f = env->FindClass(n.data());
        PBT_CHECK(c, f && env->IsInstanceOf(r, f), "%s of type %s yields an object which is no instance of it", what, t.data());
        if (t[0] == '[') {
            PBT_CHECK(c, env->GetArrayLength((jarray)r) == 0, "%s of type %s yields an array which is not empty", what, t.data());
            if (t[1] == '[') nested = true;
            static const char prims[] = "ZBCSIJFD";
            if (const char* p = strchr(prims, t[1])) {
                bool ok = true;
                switch (*p) {
                    case 'Z': ok = (bool)native<jnivm::Array<jboolean>>(env, r); break;
                    case 'B': ok = (bool)native<jnivm::Array<jbyte>>(env, r); break;
                    case 'C': ok = (bool)native<jnivm::Array<jchar>>(env, r); break;
                    case 'S': ok = (bool)native<jnivm::Array<jshort>>(env, r); break;
                    case 'I': ok = (bool)native<jnivm::Array<jint>>(env, r); break;
                    case 'J': ok = (bool)native<jnivm::Array<jlong>>(env, r); break;
                    case 'F': ok = (bool)native<jnivm::Array<jfloat>>(env, r); break;
                    default: ok = (bool)native<jnivm::Array<jdouble>>(env, r);
                }
                PBT_CHECK(c, ok, "%s of type %s yields something else", what, t.data());
            } else
                PBT_CHECK(c, native<jnivm::Array<Object>>(env, r), "%s of type %s is no object array", what, t.data());
        } else if (typed && (n == "p/T" || n == "p/U")) {
            known = true;
            PBT_CHECK(c, native<T>(env, r) && (n == "p/T" || native<U>(env, r)), "%s of type %s yields another native type", what, t.data());
        } else if (n == "java/lang/String")
            PBT_CHECK(c, env->GetStringUTFLength((jstring)r) == 0, "%s yields a string which is not empty", what);
        else if (n[0] == 'x')
            unknown = true;
    }
};

template <class R> static R vform(int f, JNIEnv* e, jobject o, jclass c, jmethodID m, ...) {
    va_list l;
    va_start(l, m);
    struct End {
        va_list& l;
        ~End() { va_end(l); }
    } end{l};
    return f == 0 ? Calls<R>::v(e, o, m, l) : f == 1 ? Calls<R>::nv(e, o, c, m, l) : Calls<R>::sv(e, c, m, l);
}
static jobject vnew(JNIEnv* e, jclass c, jmethodID m, ...) {
    va_list l;
    va_start(l, m);
    jobject r = e->functions->NewObjectV(e, c, m, l);
    va_end(l);
    return r;
}

struct Args {
    jobject a, b;
    jint i;
    jlong j;
    jdouble d;
};
static const char* kParams[] = {"()", "(ILjava/lang/Object;)", "([ID)", "(JZ[Ljava/lang/Object;)", "(Lx/Arg;Lx/Arg$In;FJ)"};
// form: 0 virtual, 1 non-virtual, 2 static; way: 0 variadic, 1 va_list, 2 array
template <class R> static R call(int form, int way, int p, JNIEnv* e, jobject o, jclass c, jmethodID m, const Args& x) {
    if (way == 2) {
        jvalue v[5];
        memset(v, 0x5a, sizeof v);
        switch (p) {
            case 1: v[0].i = x.i; v[1].l = x.a; break;
            case 2: v[0].l = x.b; v[1].d = x.d; break;
            case 3: v[0].j = x.j; v[1].z = 1; v[2].l = x.a; break;
            case 4: v[0].l = x.a; v[1].l = x.b; v[2].f = 1; v[3].j = x.j;
        }
        return form == 0 ? Calls<R>::a(e, o, m, v) : form == 1 ? Calls<R>::na(e, o, c, m, v) : Calls<R>::sa(e, c, m, v);
    }
#define WAY(...)                                                                                                    \
    return way ? vform<R>(form, e, o, c, m, ##__VA_ARGS__)                                                          \
               : form == 0 ? Calls<R>::d(e, o, m, ##__VA_ARGS__) : form == 1 ? Calls<R>::nd(e, o, c, m, ##__VA_ARGS__) : Calls<R>::sd(e, c, m, ##__VA_ARGS__)
    switch (p) {
        case 0: WAY();
        case 1: WAY(x.i, x.a);
        case 2: WAY(x.b, x.d);
        case 3: WAY(x.j, 1, x.a);
        default: WAY(x.a, x.b, 1.0, x.j);
    }
#undef WAY
}
static jobject construct(int way, int p, JNIEnv* e, jclass c, jmethodID m, const Args& x) {
    jvalue v[5];
    memset(v, 0x5a, sizeof v);
#define WAY(...) return way ? vnew(e, c, m, ##__VA_ARGS__) : e->NewObject(c, m, ##__VA_ARGS__)
    switch (p) {
        case 0:
            if (way == 2) return e->NewObjectA(c, m, v);
            WAY();
        case 1:
            v[0].i = x.i; v[1].l = x.a;
            if (way == 2) return e->NewObjectA(c, m, v);
            WAY(x.i, x.a);
        case 2:
            v[0].l = x.b; v[1].d = x.d;
            if (way == 2) return e->NewObjectA(c, m, v);
            WAY(x.b, x.d);
        case 3:
            v[0].j = x.j; v[1].z = 1; v[2].l = x.a;
            if (way == 2) return e->NewObjectA(c, m, v);
            WAY(x.j, 1, x.a);
        default:
            v[0].l = x.a; v[1].l = x.b; v[2].f = 1; v[3].j = x.j;
            if (way == 2) return e->NewObjectA(c, m, v);
            WAY(x.a, x.b, 1.0, x.j);
    }
#undef WAY
}
template <class R> static bool zero(R r) {
    char z[sizeof(R)] = {};
    return memcmp(&r, z, sizeof(R)) == 0;
}

static void one(World& w) {
    Case& c = w.c;
    Src& s = w.s;
    JNIEnv* e = w.env;
    Refs refs(e);
    // arguments: an array with contents and an object
    jintArray ia = e->NewIntArray(3);
    jint in[3] = {1, (jint)s.below(1000), -3}, out[3];
    e->SetIntArrayRegion(ia, 0, 3, in);
    jstring st = e->NewStringUTF("text");
    Args x{refs.any(s, st), refs.any(s, ia), 5, 6, 7.5};
    auto t = std::make_shared<T>();
    jobject o = s.chance(1, 8) ? nullptr : refs.any(s, s.chance(1, 2) ? local(e, t) : (jobject)st);
    std::string cn = w.refuses ? "java/lang/Object" : w.cls();
    jclass cl = e->FindClass(cn.data());
    PBT_CHECK(c, cl, "class %s was not found", cn.data());
    jclass cr = (jclass)refs.any(s, cl);
    int p = (int)s.below(5), way = (int)s.below(3), form = (int)s.below(3);
    static const char* ways[] = {"variadic", "va_list", "array"};
    static const char* forms[] = {"virtual", "non-virtual", "static"};
    size_t what = s.weighted({8, 2, 3, 2, 2});
    switch (what) {
        case 0: {  // a call
            std::string t = s.chance(1, 8) ? "V" : w.type(), sig = kParams[p] + t;
            std::string n = s.chance(1, 2) ? "f" : "g";
            jmethodID m = form == 2 ? e->GetStaticMethodID(cl, n.data(), sig.data()) : e->GetMethodID(cl, n.data(), sig.data());
            PBT_CHECK(c, w.refuses == !m, "the identifier of %s is%s null", sig.data(), m ? " not" : "");
            PBT_NOTE(c, "%s call (%s) of %s of %s%s", forms[form], ways[way], sig.data(), cn.data(), o ? "" : ", no receiver");
            bool ok = true;
            switch (t[0]) {
                case 'V': call<void>(form, way, p, e, o, cr, m, x); break;
                case 'Z': ok = zero(call<jboolean>(form, way, p, e, o, cr, m, x)); break;
                case 'B': ok = zero(call<jbyte>(form, way, p, e, o, cr, m, x)); break;
                case 'C': ok = zero(call<jchar>(form, way, p, e, o, cr, m, x)); break;
                case 'S': ok = zero(call<jshort>(form, way, p, e, o, cr, m, x)); break;
                case 'I': ok = zero(call<jint>(form, way, p, e, o, cr, m, x)); break;
                case 'J': ok = zero(call<jlong>(form, way, p, e, o, cr, m, x)); break;
                case 'F': ok = zero(call<jfloat>(form, way, p, e, o, cr, m, x)); break;
                case 'D': ok = zero(call<jdouble>(form, way, p, e, o, cr, m, x)); break;
                default: {
                    jobject r = call<jobject>(form, way, p, e, o, cr, m, x);
                    if (m)
                        w.result(t, r, "a call");
                    else
                        ok = !r;
                }
            }
            PBT_CHECK(c, ok, "a call of type %s does not yield zero", t.data());
            break;
        }
        case 1: {  // a constructor
            std::string sig = kParams[p] + std::string("V");
            jmethodID m = e->GetMethodID(cl, "<init>", sig.data());
            PBT_NOTE(c, "construct (%s) %s with %s", ways[way], cn.data(), sig.data());
            PBT_CHECK(c, w.refuses == !m, "the identifier of a constructor is%s null", m ? " not" : "");
            jobject r = construct(way, p, e, cr, m, x);
            if (m)
                w.result("L" + cn + ";", r, "a constructor");
            else
                PBT_CHECK(c, !r, "the null constructor yields an object");
            break;
        }
        case 2: case 3: {  // a field, read or written and read
            std::string t = w.type(), n = s.chance(1, 2) ? "v" : "w";
            bool st = form == 2;
            jfieldID f = st ? e->GetStaticFieldID(cl, n.data(), t.data()) : e->GetFieldID(cl, n.data(), t.data());
            PBT_CHECK(c, w.refuses == !f, "the identifier of a field of type %s is%s null", t.data(), f ? " not" : "");
            PBT_NOTE(c, "%s%s field of type %s of %s%s", what == 3 ? "write and " : "", st ? "read static" : "read", t.data(), cn.data(), o ? "" : ", no receiver");
            bool ok = true;
#define F(R, V)                                                                               \
    {                                                                                         \
        if (what == 3) st ? Fields<R>::sset(e, cr, f, V) : Fields<R>::set(e, o, f, V);        \
        ok = zero(st ? Fields<R>::sget(e, cr, f) : Fields<R>::get(e, o, f));                  \
        break;                                                                                \
    }
            switch (t[0]) {
                case 'Z': F(jboolean, 1)
                case 'B': F(jbyte, 1)
                case 'C': F(jchar, 1)
                case 'S': F(jshort, 1)
                case 'I': F(jint, 1)
                case 'J': F(jlong, 1)
                case 'F': F(jfloat, 1)
                case 'D': F(jdouble, 1)
                default: {
                    if (what == 3) st ? e->SetStaticObjectField(cr, f, x.a) : e->SetObjectField(o, f, x.a);
                    jobject r = st ? e->GetStaticObjectField(cr, f) : e->GetObjectField(o, f);
                    if (f)
                        w.result(t, r, "a field");
                    else
                        ok = !r;
                }
            }
            PBT_CHECK(c, ok, "a field of type %s does not yield zero", t.data());
            break;
        }
        default: {  // a field which can only be written
            auto k = native<jnivm::Class>(e, e->FindClass("java/lang/Object"));
            ENV* n = jenv(e);
            jclass ob = e->FindClass("java/lang/Object");
            static const char* types[] = {"I", "Z", "Ljava/lang/String;", "[I", "[Z", "[Ljava/lang/String;", "[[I", "[[Ljava/lang/String;", "Lp/T;", "[Lp/T;", "[[D"};
            int i = (int)s.below(11);
            if (!w.typed && (i == 8 || i == 9)) break;
            std::string nm = "only" + std::to_string(i);
            switch (i) {
                case 0: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, jint v) { g_int = v; }); break;
                case 1: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, jboolean v) { g_bool = v; }); break;
                case 2: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::String>) {}); break;
                case 3: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jint>>) {}); break;
                case 4: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jboolean>>) {}); break;
                case 5: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jnivm::String>>) {}); break;
                case 6: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jnivm::Array<jint>>>) {}); break;
                case 7: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jnivm::Array<jnivm::String>>>) {}); break;
                case 8: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<T>) {}); break;
                case 9: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<T>>) {}); break;
                default: k->HookSetterFunction(n, nm, [](ENV*, jnivm::Class*, std::shared_ptr<jnivm::Array<jnivm::Array<jdouble>>>) {});
            }
            PBT_NOTE(c, "read a static field of type %s which has only a setter", types[i]);
            jfieldID f = e->GetStaticFieldID(ob, nm.data(), types[i]);
            PBT_CHECK(c, f, "a hooked field was not found");
            if (i == 0)
                PBT_CHECK(c, e->GetStaticIntField(ob, f) == 0, "a field yields a number");
            else if (i == 1)
                PBT_CHECK(c, e->GetStaticBooleanField(ob, f) == 0, "a field yields true");
            else
                w.result(types[i], e->GetStaticObjectField(ob, f), "a field with only a setter");
        }
    }
    PBT_CHECK(c, !e->ExceptionCheck(), "an exception is pending");
    e->GetIntArrayRegion((jintArray)x.b, 0, 3, out);
    PBT_CHECK(c, memcmp(in, out, sizeof in) == 0 && e->GetArrayLength(ia) == 3 && !strcmp(e->GetStringUTFChars((jstring)x.a, nullptr), "text"), "an argument changed");
    PBT_CHECK(c, e->IsSameObject(x.a, st) && e->IsSameObject(x.b, ia) && e->IsSameObject(cr, cl), "an argument refers to another object");
}

void property_case(Case& c) {
    Src& s = c.s;
    std::unique_ptr<VM> plain;
    std::unique_ptr<FakeJni::Jvm> fake;
    VM* vm;
    bool refuses;
    switch (s.weighted({5, 2, 2})) {
        case 0:
            plain.reset(new VM(false, false));
            vm = plain.get();
            refuses = false;
            break;
        case 1:
            plain.reset(new VM(false, true));
            vm = plain.get();
            refuses = true;
            break;
        default:
            fake.reset(new FakeJni::Jvm);
            vm = VM::FromJavaVM(fake.get());
            refuses = true;
    }
    JNIEnv* env = vm->GetJNIEnv();
    World w{c, s, env, refuses, s.chance(3, 4)};
    env->PushLocalFrame(0);
    if (w.typed) {
        jenv(env)->GetClass<T>("p/T");
        jenv(env)->GetClass<U>("p/U");
        jenv(env)->GetClass<N>("p/N");
    }
    if (s.chance(1, 2)) jenv(env)->GetClass("p/Dummy");
    PBT_NOTE(c, "%s VM, classes %s", refuses ? "refusing" : "inventing", w.typed ? "declared" : "unknown");
    for (size_t n = 1 + s.len(16); n-- > 0;) {
        env->PushLocalFrame(0);
        one(w);
        env->PopLocalFrame(nullptr);
    }
    env->PopLocalFrame(nullptr);
    c.label(refuses ? "refusing" : "inventing");
    c.nontrivial = kFabricates ? w.known && w.unknown && w.nested : w.typed && s.ndraws > 60;
}
