// C10: every form of hook, its signature, staticness and context.
// PARTS: 4
#include "graph.hpp"
#include "jnitable.hpp"
#include <fake-jni/fake-jni.h>
#include <jnivm/string.h>
#include <map>
#include <set>
using pbt::Case;
using pbt::Src;
using Obj = jnivm::Object;
using Str = jnivm::String;
using IntArr = jnivm::Array<jint>;

// what the function which ran last saw
struct Log {
    int runs = 0, tag = 0;
    const void *env = nullptr, *recv = nullptr, *cls = nullptr;
    std::vector<uint64_t> args;
};
inline Log g_log;
inline std::shared_ptr<Str> g_str;

struct TObj : jnivm::Extends<> {
    template <int N, class R, class... A> R m(A... a);
    template <int N, class R, class... A> R mc(A... a) const;
    template <int N, class R, class... A> R me(ENV* e, A... a);
    template <int N, class R, class... A> R mj(JNIEnv* e, A... a);
};
struct TSub : jnivm::Extends<TObj> {};

static inline uint64_t bits(jint v) { return (uint64_t)v; }
static inline uint64_t bits(jlong v) { return (uint64_t)v; }
static inline uint64_t bits(jboolean v) { return v; }
static inline uint64_t bits(jdouble v) {
    uint64_t r;
    memcpy(&r, &v, 8);
    return r;
}
template <class T> static inline uint64_t bits(const std::shared_ptr<T>& v) { return (uint64_t)(uintptr_t) static_cast<Obj*>(v.get()); }
template <class R> struct Result {
    static R get(int tag) { return (R)tag; }
};
template <> struct Result<void> {
    static void get(int) {}
};
template <> struct Result<std::shared_ptr<Str>> {
    static std::shared_ptr<Str> get(int) { return g_str; }
};
static inline const void* plain(const void* p) { return p; }
static inline const void* plain(ENV* p) { return p->GetJNIEnv(); }
static inline const void* plain(JNIEnv* p) { return p; }
static inline const void* plain(Obj* p) { return p; }
static inline const void* plain(jnivm::Class* p) { return static_cast<Obj*>(p); }
static inline const void* plain(jclass p) { return p; }
static inline const void* plain(TObj* p) { return static_cast<Obj*>(p); }
template <class R, class... A> static R rec(int tag, const void* env, const void* recv, const void* cls, A... a) {
    g_log = Log{g_log.runs + 1, tag, env, recv, cls, {bits(a)...}};
    return Result<R>::get(tag);
}
template <int N, class R, class... A> R TObj::m(A... a) { return rec<R>(-N, nullptr, plain(this), nullptr, a...); }
template <int N, class R, class... A> R TObj::mc(A... a) const { return rec<R>(-N, nullptr, static_cast<const Obj*>(this), nullptr, a...); }
template <int N, class R, class... A> R TObj::me(ENV* e, A... a) { return rec<R>(-N, plain(e), plain(this), nullptr, a...); }
template <int N, class R, class... A> R TObj::mj(JNIEnv* e, A... a) { return rec<R>(-N, plain(e), plain(this), nullptr, a...); }
template <int N, class R, class... A> static R fn(A... a) { return rec<R>(-N, nullptr, nullptr, nullptr, a...); }
template <int N, class R, class... A> static R fne(ENV* e, A... a) { return rec<R>(-N, plain(e), nullptr, nullptr, a...); }
template <int N, class R, class... A> static R fnc(jnivm::Class* c, A... a) { return rec<R>(-N, nullptr, nullptr, plain(c), a...); }
template <int N, class R, class... A> static R fnjc(JNIEnv* e, jnivm::Class* c, A... a) { return rec<R>(-N, plain(e), nullptr, plain(c), a...); }
template <int N, class R, class... A> static R fno(Obj* o, A... a) { return rec<R>(-N, nullptr, plain(o), nullptr, a...); }

struct Form {
    const char* what;
    bool st, e, o, c;  // static; gets the environment, the receiver, the class
    bool member;       // member functions of TObj
    bool typed;        // takes TObj* first
    bool fixed;        // its tag is the negative of its number
};
inline const Form kForms[] = {
    {"Hook [](A)", true, false, false, false, false, false, false},
    {"Hook [](ENV*, A)", true, true, false, false, false, false, false},
    {"Hook [](JNIEnv*, A)", true, true, false, false, false, false, false},
    {"Hook [](Class*, A)", true, false, false, true, false, false, false},
    {"Hook [](ENV*, Class*, A)", true, true, false, true, false, false, false},
    {"Hook [](JNIEnv*, Class*, A)", true, true, false, true, false, false, false},
    {"Hook function (A)", true, false, false, false, false, false, true},
    {"Hook function (ENV*, A)", true, true, false, false, false, false, true},
    {"Hook function (Class*, A)", true, false, false, true, false, false, true},
    {"Hook function (JNIEnv*, Class*, A)", true, true, false, true, false, false, true},
    {"Hook std::function (A)", true, false, false, false, false, false, false},
    {"HookInstanceFunction [](A)", false, false, false, false, false, false, false},
    {"HookInstanceFunction [](ENV*, A)", false, true, false, false, false, false, false},
    {"HookInstanceFunction [](JNIEnv*, A)", false, true, false, false, false, false, false},
    {"HookInstanceFunction [](Object*, A)", false, false, true, false, false, false, false},
    {"HookInstanceFunction [](ENV*, Object*, A)", false, true, true, false, false, false, false},
    {"HookInstanceFunction [](JNIEnv*, Object*, A)", false, true, true, false, false, false, false},
    {"HookInstanceFunction [](TObj*, A)", false, false, true, false, false, true, false},
    {"HookInstanceFunction [](ENV*, TObj*, A)", false, true, true, false, false, true, false},
    {"HookInstance function (Object*, A)", false, false, true, false, false, false, true},
    {"HookInstance [](A)", false, false, false, false, false, false, false},
    {"HookInstance [](ENV*, Object*, A)", false, true, true, false, false, false, false},
    {"Hook &TObj::m", false, false, true, false, true, false, true},
    {"Hook &TObj::m(ENV*)", false, true, true, false, true, false, true},
    {"Hook &TObj::m(JNIEnv*)", false, true, true, false, true, false, true},
    {"Hook &TObj::m const", false, false, true, false, true, false, true},
    {"HookInstanceFunction &TObj::m", false, false, true, false, true, false, true},
    {"HookInstance &TObj::m", false, false, true, false, true, false, true},
    {"Hook function pointer variable (A)", true, false, false, false, false, false, true},
    {"Hook member pointer variable", false, false, true, false, true, false, true},
    {"HookInstance function pointer variable (Object*, A)", false, false, true, false, false, false, true},
    {"HookInstanceFunction member pointer variable", false, false, true, false, true, false, true},
};
enum { NF = sizeof(kForms) / sizeof(*kForms) };

template <class R, class... A> static void install(int form, jnivm::Class* cl, ENV* e, const char* n, int tag) {
#define L [tag]
    switch (form) {
        case 0: return cl->Hook(e, n, L(A... a) -> R { return rec<R>(tag, nullptr, nullptr, nullptr, a...); });
        case 1: return cl->Hook(e, n, L(ENV* x, A... a) -> R { return rec<R>(tag, plain(x), nullptr, nullptr, a...); });
        case 2: return cl->Hook(e, n, L(JNIEnv* x, A... a) -> R { return rec<R>(tag, plain(x), nullptr, nullptr, a...); });
        case 3: return cl->Hook(e, n, L(jnivm::Class* k, A... a) -> R { return rec<R>(tag, nullptr, nullptr, plain(k), a...); });
        case 4: return cl->Hook(e, n, L(ENV* x, jnivm::Class* k, A... a) -> R { return rec<R>(tag, plain(x), nullptr, plain(k), a...); });
        case 5: return cl->Hook(e, n, L(JNIEnv* x, jnivm::Class* k, A... a) -> R { return rec<R>(tag, plain(x), nullptr, plain(k), a...); });
        case 6: return cl->Hook(e, n, &fn<6, R, A...>);
        case 7: return cl->Hook(e, n, &fne<7, R, A...>);
        case 8: return cl->Hook(e, n, &fnc<8, R, A...>);
        case 9: return cl->Hook(e, n, &fnjc<9, R, A...>);
        case 10: return cl->Hook(e, n, std::function<R(A...)>(L(A... a) -> R { return rec<R>(tag, nullptr, nullptr, nullptr, a...); }));
        case 11: return cl->HookInstanceFunction(e, n, L(A... a) -> R { return rec<R>(tag, nullptr, nullptr, nullptr, a...); });
        case 12: return cl->HookInstanceFunction(e, n, L(ENV* x, A... a) -> R { return rec<R>(tag, plain(x), nullptr, nullptr, a...); });
        case 13: return cl->HookInstanceFunction(e, n, L(JNIEnv* x, A... a) -> R { return rec<R>(tag, plain(x), nullptr, nullptr, a...); });
        case 14: return cl->HookInstanceFunction(e, n, L(Obj* o, A... a) -> R { return rec<R>(tag, nullptr, plain(o), nullptr, a...); });
        case 15: return cl->HookInstanceFunction(e, n, L(ENV* x, Obj* o, A... a) -> R { return rec<R>(tag, plain(x), plain(o), nullptr, a...); });
        case 16: return cl->HookInstanceFunction(e, n, L(JNIEnv* x, Obj* o, A... a) -> R { return rec<R>(tag, plain(x), plain(o), nullptr, a...); });
        case 17: return cl->HookInstanceFunction(e, n, L(TObj* o, A... a) -> R { return rec<R>(tag, nullptr, plain(o), nullptr, a...); });
        case 18: return cl->HookInstanceFunction(e, n, L(ENV* x, TObj* o, A... a) -> R { return rec<R>(tag, plain(x), plain(o), nullptr, a...); });
        case 19: return cl->HookInstance(e, n, &fno<19, R, A...>);
        case 20: return cl->HookInstance(e, n, L(A... a) -> R { return rec<R>(tag, nullptr, nullptr, nullptr, a...); });
        case 21: return cl->HookInstance(e, n, L(ENV* x, Obj* o, A... a) -> R { return rec<R>(tag, plain(x), plain(o), nullptr, a...); });
        case 22: return cl->Hook(e, n, &TObj::m<22, R, A...>);
        case 23: return cl->Hook(e, n, &TObj::me<23, R, A...>);
        case 24: return cl->Hook(e, n, &TObj::mj<24, R, A...>);
        case 25: return cl->Hook(e, n, &TObj::mc<25, R, A...>);
        case 26: return cl->HookInstanceFunction(e, n, &TObj::m<26, R, A...>);
        case 27: return cl->HookInstance(e, n, &TObj::m<27, R, A...>);
    }
    // pointers which are gone when the function is called
    R (*const p28)(A...) = &fn<28, R, A...>;
    R (TObj::*const p29)(A...) = &TObj::m<29, R, A...>;
    R (*const p30)(Obj*, A...) = &fno<30, R, A...>;
    R (TObj::*const p31)(A...) = &TObj::m<31, R, A...>;
    switch (form) {
        case 28: return cl->Hook(e, n, p28);
        case 29: return cl->Hook(e, n, p29);
        case 30: return cl->HookInstance(e, n, p30);
        default: return cl->HookInstanceFunction(e, n, p31);
    }
#undef L
}
using Install = void (*)(int, jnivm::Class*, ENV*, const char*, int);
extern const Install install1, install2, install3;
#if PART == 1
const Install install1 = &install<void>;
#elif PART == 2
const Install install2 = &install<jdouble, jlong, std::shared_ptr<Str>, std::shared_ptr<IntArr>>;
#elif PART == 3
const Install install3 = &install<std::shared_ptr<Str>, jboolean>;
#else

const char* const kProperty = "C10";
const char* const kRule =
    "native functions hooked in 32 forms (lambda, function, std::function, member function, pointers in variables; taking the environment, receiver or class first or not) with four signatures, under "
    "few names, in a native class, its subclass and a class without native type of a VM which invents nothing or whatever is looked up, hooking again and registering natives of the same names at will; lookups under every signature and both "
    "kinds of staticness, and calls from one of two threads through identifiers old and new, against a map from class, name, signature and staticness to the last function; or getters and "
    "setters in 24 forms likewise; or a class bound by fake-jni descriptors; non-trivial: a member was replaced after its identifier had been handed out and called afterwards; identity: the draws";

// a class bound by descriptors
static std::shared_ptr<Str> g_text;
struct FJ : Obj {
    DEFINE_CLASS_NAME("t/FJ")
    jint f = 0;
    std::shared_ptr<Str> t;
    jint made = 0;
    static inline jlong sv = 0;
    FJ() = default;
    FJ(jint a, std::shared_ptr<Str> b) : f(a), t(b), made(2) {}
    jint add(jint a) { return f += a; }
    jint peek(jlong a) const { return f + (jint)a; }
    std::shared_ptr<Str> swap(std::shared_ptr<Str> n) { t.swap(n); return n; }
    static jlong sum(jint a, jlong b) { return a + b; }
    static jint self(FJ* o, jint a) { return o->f * 2 + a; }
    void none() { f = -f; }
};
BEGIN_NATIVE_DESCRIPTOR(FJ)
{FakeJni::Constructor<FJ>{}},
{FakeJni::Constructor<FJ, FakeJni::JInt, std::shared_ptr<FakeJni::JString>>{}},
{FakeJni::Function<&FJ::add>{}, "add"},
{FakeJni::Function<&FJ::peek>{}, "peek", FakeJni::JMethodID::PUBLIC},
{FakeJni::Function<&FJ::swap>{}, "swap"},
{FakeJni::Function<&FJ::sum>{}, "sum", FakeJni::JMethodID::STATIC},
{FakeJni::Function<&FJ::sum>{}, "promoted", FakeJni::JMethodID::PUBLIC},
{FakeJni::Function<&FJ::self>{}, "self", FakeJni::JMethodID::PUBLIC},
{FakeJni::Function<&FJ::none>{}, "none"},
{FakeJni::Field<&FJ::f>{}, "f"},
{FakeJni::Field<&FJ::t>{}, "t"},
{FakeJni::Field<&FJ::sv>{}, "sv", FakeJni::JFieldID::STATIC},
END_NATIVE_DESCRIPTOR

static void descriptors(Case& c) {
    Src& s = c.s;
    FakeJni::Jvm jvm;
    FakeJni::LocalFrame frame(jvm);
    JNIEnv* env = &frame.getJniEnv();
    jvm.registerClass<FJ>();
    jclass cl = env->FindClass("t/FJ");
    PBT_CHECK(c, cl, "the registered class is not found");
    static const char *str = "Ljava/lang/String;";
    auto inst = [&](const char* n, const char* g) {
        jmethodID m = env->GetMethodID(cl, n, g);
        PBT_CHECK(c, m, "method %s%s is not found", n, g);
        PBT_CHECK(c, !env->GetStaticMethodID(cl, n, g) || n[0] == '<', "method %s%s is found as static", n, g);
        return m;
    };
    jmethodID c0 = inst("<init>", "()V"), c2 = inst("<init>", "(ILjava/lang/String;)V"), add = inst("add", "(I)I"), peek = inst("peek", "(J)I"),
              swap = inst("swap", "(Ljava/lang/String;)Ljava/lang/String;"), promoted = inst("promoted", "(IJ)J"), self = inst("self", "(I)I"), none = inst("none", "()V");
    jmethodID sum = env->GetStaticMethodID(cl, "sum", "(IJ)J");
    jfieldID f = env->GetFieldID(cl, "f", "I"), t = env->GetFieldID(cl, "t", str), sv = env->GetStaticFieldID(cl, "sv", "J");
    PBT_CHECK(c, sum && f && t && sv, "a described member is not found");
    PBT_CHECK(c, !env->GetMethodID(cl, "sum", "(IJ)J") && !env->GetStaticFieldID(cl, "f", "I") && !env->GetFieldID(cl, "sv", "J"), "a described member is found with the wrong staticness");
    jint a = (jint)s.raw64();
    jlong b = (jlong)s.raw64();
    auto strs = std::make_shared<Str>("s");
    jobject js = local(env, strs);
    bool two = s.chance(1, 2);
    jobject o = two ? env->NewObject(cl, c2, a, js) : env->NewObject(cl, c0);
    auto p = std::dynamic_pointer_cast<FJ>(native<Obj>(env, o));
    PBT_CHECK(c, p, "the constructor made no FJ");
    PBT_CHECK(c, p->made == (two ? 2 : 0) && p->f == (two ? a : 0) && p->t == (two ? strs : nullptr), "the constructor got other arguments");
    PBT_CHECK(c, env->IsSameObject(env->GetObjectClass(o), cl), "the object made has another class");
    FJ m;
    m.f = p->f;
    m.t = p->t;
    static jlong msv;
    msv = FJ::sv = b;
    for (size_t i = s.below(12); i-- > 0;) {
        int op = (int)s.below(11);
        jint x = (jint)s.range(-1000000, 1000000);
        PBT_NOTE(c, "member %d with %d", op, x);
        // keep the arithmetic away from overflow
        if (op != 7) m.f = p->f = m.f % 1000;
        switch (op) {
            case 0: PBT_CHECK(c, env->CallIntMethod(o, add, x) == (m.f += x) && p->f == m.f, "add"); break;
            case 1: PBT_CHECK(c, env->CallIntMethod(o, peek, (jlong)x) == m.f + x, "peek"); break;
            case 2: {
                jobject r = env->CallObjectMethod(o, swap, s.chance(1, 2) ? js : nullptr);
                PBT_CHECK(c, env->IsSameObject(r, local(env, m.t)), "swap");
                m.t = p->t;
                break;
            }
            case 3: PBT_CHECK(c, env->CallStaticLongMethod(cl, sum, x, (jlong)5) == x + 5, "sum"); break;
            case 4: PBT_CHECK(c, env->CallLongMethod(o, promoted, x, (jlong)7) == x + 7, "promoted"); break;
            case 5: PBT_CHECK(c, env->CallIntMethod(o, self, x) == m.f * 2 + x, "self"); break;
            case 6: env->CallVoidMethod(o, none); m.f = -m.f; PBT_CHECK(c, p->f == m.f, "none"); break;
            case 7: env->SetIntField(o, f, x); m.f = x; PBT_CHECK(c, p->f == x && env->GetIntField(o, f) == x, "f"); break;
            case 8: env->SetObjectField(o, t, js); m.t = strs; PBT_CHECK(c, p->t == strs && env->IsSameObject(env->GetObjectField(o, t), js), "t"); break;
            case 9: env->SetStaticLongField(cl, sv, x); msv = x; break;
            default: PBT_CHECK(c, env->GetStaticLongField(cl, sv) == msv && FJ::sv == msv, "sv");
        }
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending after member %d", op);
    }
    c.label("fake-jni descriptors");
    c.nontrivial = true;
}


// accessors of fields in all their forms
template <class T> static void set_get(int form, jnivm::Class* cl, ENV* e, const char* n, int tag) {
#define R(env, o, k) { return rec<T>(tag, env, o, k); }
    switch (form) {
        case 0: return cl->HookGetterFunction(e, n, [tag]() -> T R(nullptr, nullptr, nullptr));
        case 1: return cl->HookGetterFunction(e, n, [tag](ENV* x) -> T R(plain(x), nullptr, nullptr));
        case 2: return cl->HookGetterFunction(e, n, [tag](JNIEnv* x) -> T R(plain(x), nullptr, nullptr));
        case 3: return cl->HookGetterFunction(e, n, [tag](jnivm::Class* k) -> T R(nullptr, nullptr, plain(k)));
        case 4: return cl->HookGetterFunction(e, n, [tag](ENV* x, jnivm::Class* k) -> T R(plain(x), nullptr, plain(k)));
        case 5: return cl->HookGetterFunction(e, n, [tag](JNIEnv* x, jnivm::Class* k) -> T R(plain(x), nullptr, plain(k)));
        case 6: return cl->HookInstanceGetterFunction(e, n, [tag]() -> T R(nullptr, nullptr, nullptr));
        case 7: return cl->HookInstanceGetterFunction(e, n, [tag](ENV* x) -> T R(plain(x), nullptr, nullptr));
        case 8: return cl->HookInstanceGetterFunction(e, n, [tag](Obj* o) -> T R(nullptr, plain(o), nullptr));
        case 9: return cl->HookInstanceGetterFunction(e, n, [tag](ENV* x, Obj* o) -> T R(plain(x), plain(o), nullptr));
        case 10: return cl->HookInstanceGetterFunction(e, n, [tag](JNIEnv* x, Obj* o) -> T R(plain(x), plain(o), nullptr));
        default: return cl->HookInstanceGetterFunction(e, n, [tag](ENV* x, TObj* o) -> T R(plain(x), plain(o), nullptr));
    }
#undef R
}
template <class T> static void set_set(int form, jnivm::Class* cl, ENV* e, const char* n, int tag) {
#define R(env, o, k) { rec<void>(tag, env, o, k, v); }
    switch (form) {
        case 0: return cl->HookSetterFunction(e, n, [tag](T v) R(nullptr, nullptr, nullptr));
        case 1: return cl->HookSetterFunction(e, n, [tag](ENV* x, T v) R(plain(x), nullptr, nullptr));
        case 2: return cl->HookSetterFunction(e, n, [tag](JNIEnv* x, T v) R(plain(x), nullptr, nullptr));
        case 3: return cl->HookSetterFunction(e, n, [tag](jnivm::Class* k, T v) R(nullptr, nullptr, plain(k)));
        case 4: return cl->HookSetterFunction(e, n, [tag](ENV* x, jnivm::Class* k, T v) R(plain(x), nullptr, plain(k)));
        case 5: return cl->HookSetterFunction(e, n, [tag](JNIEnv* x, jnivm::Class* k, T v) R(plain(x), nullptr, plain(k)));
        case 6: return cl->HookInstanceSetterFunction(e, n, [tag](T v) R(nullptr, nullptr, nullptr));
        case 7: return cl->HookInstanceSetterFunction(e, n, [tag](ENV* x, T v) R(plain(x), nullptr, nullptr));
        case 8: return cl->HookInstanceSetterFunction(e, n, [tag](Obj* o, T v) R(nullptr, plain(o), nullptr));
        case 9: return cl->HookInstanceSetterFunction(e, n, [tag](ENV* x, Obj* o, T v) R(plain(x), plain(o), nullptr));
        case 10: return cl->HookInstanceSetterFunction(e, n, [tag](JNIEnv* x, Obj* o, T v) R(plain(x), plain(o), nullptr));
        default: return cl->HookInstanceSetterFunction(e, n, [tag](ENV* x, TObj* o, T v) R(plain(x), plain(o), nullptr));
    }
#undef R
}
static const struct {
    bool st, e, o, c;
} kAcc[] = {{true, false, false, false}, {true, true, false, false}, {true, true, false, false}, {true, false, false, true}, {true, true, false, true}, {true, true, false, true},
            {false, false, false, false}, {false, true, false, false}, {false, false, true, false}, {false, true, true, false}, {false, true, true, false}, {false, true, true, false}};

static void fields(Case& c) {
    Src& s = c.s;
    std::unique_ptr<VM> vm(new VM(false, true));
    ENV* e = vm->GetEnv().get();
    JNIEnv* env = vm->GetJNIEnv();
    std::unique_ptr<Worker> w;
    JNIEnv* wenv = nullptr;
    if (s.chance(1, 6)) {
        w.reset(new Worker);
        w->run([&] { vm->GetJavaVM()->AttachCurrentThread(&wenv, nullptr); });
    }
    e->GetClass<Obj>("java/lang/Object");
    e->GetClass<Str>("java/lang/String");
    // the class without native type may be a namesake of the native one
    static const char* const others[] = {"t/D", "u/T", "t/U$T", "T"};
    const char* cname[] = {"t/T", "t/S", others[s.below(4)]};
    std::shared_ptr<jnivm::Class> cls[] = {e->GetClass<TObj>("t/T"), e->GetClass<TSub>("t/S"), e->GetClass(cname[2])};
    static const char* fname[] = {"f", "g"};
    static const char* sig[] = {"I", "Ljava/lang/String;"};
    std::shared_ptr<Obj> recv[] = {std::make_shared<TObj>(), std::make_shared<TSub>(), std::make_shared<Obj>()};
    for (int i = 0; i < 3; i++) recv[i]->clazz = cls[i];
    g_str = std::make_shared<Str>("result");
    auto sarg = std::make_shared<Str>("arg");
    struct Acc {
        int form = -1, tag = 0;
    };
    struct Fld {
        Acc acc[2];  // getter, setter
        jfieldID id = nullptr;
        bool replaced = false;
    };
    using Key = std::tuple<bool, int, int>;  // static, name, type
    std::map<Key, Fld> fld[3];
    int tags = 0, n0 = 0, t0 = 0;
    bool nt = false;
    for (size_t steps = 6 + s.len(50); steps-- > 0;) {
        if (s.chance(1, 6)) n0 = (int)s.below(2), t0 = (int)s.below(2);
        int cl = (int)s.below(3);
        if (s.chance(1, 3)) {
            int form = (int)s.below(12), setter = (int)s.below(2);
            if (form == 11 && cl) continue;
            bool st = kAcc[form].st;
            (setter ? t0 ? set_set<std::shared_ptr<Str>> : set_set<jint> : t0 ? set_get<std::shared_ptr<Str>> : set_get<jint>)(form, cls[cl].get(), e, fname[n0], ++tags);
            Fld& f = fld[cl][Key{st, n0, t0}];
            f.replaced |= f.id && f.acc[setter].form >= 0;
            f.acc[setter] = {form, tags};
            PBT_NOTE(c, "%s of %s%s %s in %s: form %d (tag %d)", setter ? "setter" : "getter", st ? "static " : "", fname[n0], sig[t0], cname[cl], form, tags);
            continue;
        }
        Key k{s.chance(1, 2), n0, s.chance(1, 5) ? 1 - t0 : t0};
        bool st = std::get<0>(k), setter = s.chance(1, 2), on_worker = w && s.chance(1, 2);
        int ty = std::get<2>(k), at = fld[cl].count(k) ? cl : cl == 1 && fld[0].count(k) ? 0 : -1;
        auto work = [&] {
            JNIEnv* env1 = on_worker ? wenv : env;
            env1->PushLocalFrame(0);
            Refs refs(env1);
            jclass jc = (jclass)refs.any(s, local(env1, cls[cl]));
            jfieldID id = st ? env1->GetStaticFieldID(jc, fname[n0], sig[ty]) : env1->GetFieldID(jc, fname[n0], sig[ty]);
            PBT_NOTE(c, "%s %s%s %s of %s", setter ? "write" : "read", st ? "static " : "", fname[n0], sig[ty], cname[cl]);
            PBT_CHECK(c, (id != nullptr) == (at >= 0), "the field is %s", id ? "found" : "not found");
            if (id) {
                Fld& f = fld[at][k];
                PBT_CHECK(c, !f.id || f.id == id, "the field has another identifier than before");
                f.id = id;
                Acc a = f.acc[setter];
                jobject o = refs.any(s, local(env1, recv[cl])), js = refs.any(s, local(env1, sarg)), res = nullptr;
                jint v = (jint)s.raw64(), got = 0;
                g_log = Log();
                if (setter) {
                    if (ty) st ? env1->SetStaticObjectField(jc, id, js) : env1->SetObjectField(o, id, js);
                    else st ? env1->SetStaticIntField(jc, id, v) : env1->SetIntField(o, id, v);
                } else if (ty) res = st ? env1->GetStaticObjectField(jc, id) : env1->GetObjectField(o, id);
                else got = st ? env1->GetStaticIntField(jc, id) : env1->GetIntField(o, id);
                PBT_CHECK(c, !env1->ExceptionCheck(), "an exception is pending");
                if (a.form < 0) PBT_CHECK(c, g_log.runs == 0, "accessor %d ran, where there is none", g_log.tag);
                else {
                    PBT_CHECK(c, g_log.runs == 1 && g_log.tag == a.tag, "accessor %d ran (%d times) instead of %d", g_log.tag, g_log.runs, a.tag);
                    PBT_CHECK(c, !kAcc[a.form].e || g_log.env == (const void*)env1, "the accessor got another environment than the calling one");
                    PBT_CHECK(c, !kAcc[a.form].o || g_log.recv == plain(recv[cl].get()), "the accessor got another receiver");
                    PBT_CHECK(c, !kAcc[a.form].c || g_log.cls == plain(cls[cl].get()) || g_log.cls == plain(cls[at].get()), "the accessor got another class");
                    if (setter) PBT_CHECK(c, g_log.args == std::vector<uint64_t>{ty ? bits(sarg) : bits(v)}, "the setter got another value");
                    else PBT_CHECK(c, ty ? env1->IsSameObject(res, local(env1, g_str)) : got == a.tag, "the getter's value did not arrive");
                    nt |= f.replaced;
                }
            }
            env1->PopLocalFrame(nullptr);
        };
        if (on_worker) w->run(work);
        else work();
    }
    if (w) w->run([&] { vm->GetJavaVM()->DetachCurrentThread(); });
    g_str = nullptr;
    c.label("fields");
    c.nontrivial = nt;
}

static const char* const kSigs[] = {"(I)I", "()V", "(JLjava/lang/String;[I)D", "(Z)Ljava/lang/String;"};
static const char* const kNames[] = {"f", "g", "F"};

static void never() { abort(); }
void property_case(Case& c) {
    Src& s = c.s;
    if (s.chance(1, 12)) return descriptors(c);
    if (s.chance(1, 6)) return fields(c);
    // a VM which invents what is looked up: a member invented is bound by a later hook
    bool invents = s.chance(1, 3);
    if (invents) c.label("inventing");
    std::unique_ptr<VM> vm(new VM(false, !invents));
    ENV* e = vm->GetEnv().get();
    JNIEnv* env = vm->GetJNIEnv();
    std::unique_ptr<Worker> w;
    JNIEnv* wenv = nullptr;
    if (s.chance(1, 6)) {
        w.reset(new Worker);
        w->run([&] { vm->GetJavaVM()->AttachCurrentThread(&wenv, nullptr); });
        c.label("two threads");
    }
    struct Detach {
        Worker* w;
        VM* vm;
        ~Detach() {
            if (w) w->run([&] { vm->GetJavaVM()->DetachCurrentThread(); });
        }
    } detach{w.get(), vm.get()};
    const Install inst[] = {&install<jint, jint>, install1, install2, install3};
    e->GetClass<Obj>("java/lang/Object");
    e->GetClass<Str>("java/lang/String");
    // the class without native type may be a namesake of the native one
    static const char* const others[] = {"t/D", "u/T", "t/U$T", "T"};
    const char* cname[] = {"t/T", "t/S", others[s.below(4)]};
    std::shared_ptr<jnivm::Class> cls[] = {e->GetClass<TObj>("t/T"), e->GetClass<TSub>("t/S"), e->GetClass(cname[2])};
    std::shared_ptr<Obj> recv[] = {std::make_shared<TObj>(), std::make_shared<TSub>(), std::make_shared<Obj>()};
    for (int i = 0; i < 3; i++) recv[i]->clazz = cls[i];
    g_str = std::make_shared<Str>("result");
    auto sarg = std::make_shared<Str>("arg");
    auto iarg = std::make_shared<IntArr>(2);
    struct Key {
        bool st, typed;
        int name, sig;
        bool operator<(const Key& o) const { return std::tie(st, typed, name, sig) < std::tie(o.st, o.typed, o.name, o.sig); }
    };
    struct Mem {
        int form = -1, tag = 0;
        bool handed = false, replaced = false;
        void* id = nullptr;
    };
    std::map<Key, Mem> mem[3];
    auto show = [&](const Key& k) { return std::string(k.st ? "static " : "") + kNames[k.name] + (k.typed ? "(Lt/T; " : "") + kSigs[k.sig]; };
    int tags = 0;
    int n0 = 0, s0 = 0;
    bool nt = false;
    size_t steps = 6 + s.len(60);
    for (size_t i = 0; i < steps; i++) {
        if (i == 0 || s.chance(1, 6)) n0 = (int)s.weighted({3, 1, 1}), s0 = (int)s.below(4);
        int cl = (int)s.below(3);
        if (s.chance(1, 12)) {
            // natives are no hooks: neither found nor bound
            jclass jc = (jclass)local(env, cls[cl]);
            if (s.chance(1, 4)) {
                PBT_NOTE(c, "unregister the natives of %s", cname[cl]);
                env->UnregisterNatives(jc);
            } else {
                PBT_NOTE(c, "register a native %s%s in %s", kNames[n0], kSigs[s0], cname[cl]);
                JNINativeMethod nm{(char*)kNames[n0], (char*)kSigs[s0], (void*)&never};
                env->RegisterNatives(jc, &nm, 1);
            }
            PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
            c.label("natives");
            continue;
        }
        if (s.chance(1, 3)) {
            int form = (int)s.below(NF);
            const Form& f = kForms[form];
            if (f.member && cl == 2) continue;
            int tag = f.fixed ? -form : ++tags;
            inst[s0](form, cls[cl].get(), e, kNames[n0], tag);
            // a function which takes a TObj* first has it as receiver in the class of TObj only, elsewhere it is an argument
            Key k{f.st, f.typed && cl != 0, n0, s0};
            Mem& m = mem[cl][k];
            m.replaced |= m.handed;
            if (m.handed && m.form < 0) c.label("hooked after it was invented");
            m.form = form;
            m.tag = tag;
            PBT_NOTE(c, "%s in %s: %s (tag %d)", f.what, cname[cl], show(k).c_str(), tag);
            continue;
        }
        Key k{s.chance(1, 2), false, n0, s.chance(1, 4) ? (int)s.below(4) : s0};
        if (cl && !k.st && s.chance(1, 4)) k.typed = true;
        std::string sig = kSigs[k.sig];
        if (k.typed) sig.insert(1, "Lt/T;");
        if (invents && k.typed && cl != 2) k.typed = false, sig = kSigs[k.sig];
        int at = mem[cl].count(k) ? cl : cl == 1 && !k.typed && mem[0].count(k) ? 0 : -1;
        // under its unstripped signature a function may be found in the class of TObj, too
        if (k.typed && cl == 1 && at < 0) continue;
        bool on_worker = w && s.chance(1, 2);
        auto work = [&] {
            JNIEnv* env1 = on_worker ? wenv : env;
            env1->PushLocalFrame(0);
            Refs refs(env1);
            jclass jc = (jclass)refs.any(s, local(env1, cls[cl]));
            void* id = k.st ? env1->GetStaticMethodID(jc, kNames[k.name], sig.c_str()) : env1->GetMethodID(jc, kNames[k.name], sig.c_str());
            PBT_NOTE(c, "look up %s in %s: %s", show(k).c_str(), cname[cl], at < 0 ? "not bound" : mem[at][k].form < 0 ? "not hooked" : kForms[mem[at][k].form].what);
            if (at < 0 && invents) at = cl;
            PBT_CHECK(c, (id != nullptr) == (at >= 0), "%s of %s is %s", show(k).c_str(), cname[cl], id ? "found" : "not found");
            if (id) {
                Mem& m = mem[at][k];
                PBT_CHECK(c, !m.id || m.id == id, "%s of %s has another identifier than before", show(k).c_str(), cname[cl]);
                m.id = id;
                for (auto& other : mem)
                    for (auto& o : other) PBT_CHECK(c, &o.second == &m || o.second.id != id, "%s of %s has the identifier of another member", show(k).c_str(), cname[cl]);
                m.handed = true;
                // what runs: an instance call goes to the nearest hook of the receiver's class
                Mem* run = &m;
                if (!k.st && cl == 1 && m.form < 0 && at == 1 && mem[0].count(k) && mem[0][k].form >= 0) run = &mem[0][k], at = 0;
                bool bound = run->form >= 0;
                const Form& f = kForms[bound ? run->form : 0];
                jvalue arg[4];
                memset(arg, 0, sizeof(arg));
                jvalue* a = arg;
                std::vector<uint64_t> want;
                jobject first = nullptr;
                if (k.typed) (a++)->l = first = local(env1, recv[s.below(2)]);
                switch (k.sig) {
                    case 0: a->i = (jint)s.raw64(); want = {bits(a->i)}; break;
                    case 1: break;
                    case 2:
                        a[0].j = (jlong)s.raw64();
                        a[1].l = refs.any(s, local(env1, sarg));
                        a[2].l = refs.any(s, local(env1, iarg));
                        want = {bits(a->j), bits(sarg), bits(iarg)};
                        break;
                    default: a->z = s.chance(1, 2); want = {bits(a->z)};
                }
                g_log = Log();
                jobject o = refs.any(s, local(env1, recv[cl]));
                auto mid = (jmethodID)id;
                int64_t got = run->tag, form = s.below(2);
                jobject res = nullptr;
#define CALL(T) (k.st ? Calls<T>::sa(env1, jc, mid, arg) : Calls<T>::a(env1, o, mid, arg))
                switch (k.sig) {
                    case 0: got = form && !k.typed ? (k.st ? Calls<jint>::sd(env1, jc, mid, arg->i) : Calls<jint>::d(env1, o, mid, arg->i)) : CALL(jint); break;
                    case 1: CALL(void); break;
                    case 2: got = (int64_t)CALL(jdouble); break;
                    default: res = CALL(jobject);
                }
                PBT_CHECK(c, !env1->ExceptionCheck(), "calling %s of %s left an exception", show(k).c_str(), cname[cl]);
                if (!bound) {
                    PBT_CHECK(c, g_log.runs == 0, "calling %s of %s, which is not hooked, ran %d", show(k).c_str(), cname[cl], g_log.tag);
                    env1->PopLocalFrame(nullptr);
                    return;
                }
                PBT_CHECK(c, g_log.runs == 1 && g_log.tag == run->tag, "calling %s of %s (%s) ran %d (%d times) instead of %d", show(k).c_str(), cname[cl], f.what, g_log.tag, g_log.runs, run->tag);
                PBT_CHECK(c, g_log.args == want, "%s got other arguments", f.what);
                PBT_CHECK(c, !f.e || g_log.env == (const void*)env1, "%s got another environment than the calling one", f.what);
                if (f.o) {
                    const Obj* r = k.typed ? native<Obj>(env1, first).get() : recv[cl].get();
                    PBT_CHECK(c, g_log.recv == r, "%s got another receiver", f.what);
                }
                PBT_CHECK(c, !f.c || g_log.cls == plain(cls[cl].get()) || g_log.cls == plain(cls[at].get()), "%s got another class", f.what);
                if (k.sig == 3) PBT_CHECK(c, env1->IsSameObject(res, local(env1, g_str)), "%s returned another object", f.what);
                else PBT_CHECK(c, got == run->tag, "%s returned %ld instead of %d", f.what, (long)got, run->tag);
                nt |= run->replaced;
            }
            env1->PopLocalFrame(nullptr);
        };
        if (on_worker) w->run(work);
        else work();
    }
    g_str = nullptr;
    c.nontrivial = nt;
}
#endif
