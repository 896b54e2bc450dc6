// C03: argument and result transport of calls.
// PARTS: 4
#include "jnitable.hpp"
#include "jvmutil.hpp"
#include <jnivm/array.h>
#include <jnivm/string.h>
#include <unordered_set>
#include <utility>
using namespace jnivm;
using pbt::Case;
using pbt::Src;

class Mine : public Object {
public:
    int id = 0;
};
// in no package
class Bare : public Object {};

// ---- what the hook saw, and what it shall return
struct Rec {
    int kind;
    uint64_t bits;
    const void* obj;
};
inline std::vector<Rec> seen;
inline int called = 0, wrongTag = 0;
inline const void* receiver = nullptr;
inline uint64_t ret_bits;
inline std::shared_ptr<Object> ret_obj;
inline jobject ret_ref;
inline JNIEnv* cur_env;

template <class T> static uint64_t bits(T v) {
    uint64_t r = 0;
    memcpy(&r, &v, sizeof v);
    return r;
}
template <class T> static T from(uint64_t b) {
    T r;
    memcpy(&r, &b, sizeof r);
    return r;
}

struct Ctx {
    Case& c;
    Refs& refs;
    std::vector<std::shared_ptr<Object>> objs;   // by class: 0..2 strings, 3..5 arrays, 6..8 mine, then arrays of arrays
    std::vector<jobject> loc;
    std::string names;
};
// a random reference to one of the objects [from, from+n)
static jvalue gen_obj(Ctx& x, Rec& e, int from, int n, bool null) {
    jvalue v;
    v.j = 0;
    if (null && x.c.s.chance(1, 6)) {
        e = {9, 0, nullptr};
        return v;
    }
    int i = from + x.c.s.below(n);
    int k = x.c.s.below(6);
    x.c.key(i * 8 + k);
    if (k > 1) x.c.label("argument is a global or weak reference");
    v.l = x.refs.make(x.loc[i], k);
    e = {9, 0, x.objs[i].get()};
    return v;
}
template <class T> static T gen_num(Src& s) {
    switch (s.weighted({3, 2, 2})) {
        case 0: return from<T>(s.raw64());
        case 1: {
            static const uint64_t v[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
            return from<T>(v[s.below(sizeof v / sizeof *v)]);
        }
        default: return (T)(int64_t)s.range(-3, 3);
    }
}
static jfloat gen_float(Src& s) {
    uint32_t b = (uint32_t)s.raw64();
    if (s.chance(1, 3)) b = bits((jfloat)s.range(-5, 5));
    if ((b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffff)) b |= 0x400000;  // quiet
    return from<jfloat>(b);
}
static jdouble gen_double(Src& s) {
    uint64_t b = s.raw64();
    if (s.chance(1, 3)) b = bits((jdouble)s.range(-5, 5));
    if ((b >> 52 & 0x7ff) == 0x7ff && (b << 12)) b |= 1ull << 51;
    return from<jdouble>(b);
}

// ---- parameter forms
enum { NK = 23 };
using Arr1 = jnivm::Array<Mine>;
using Arr2 = jnivm::Array<jnivm::Array<Mine>>;
using ArrB = jnivm::Array<Bare>;
using Arr3 = jnivm::Array<jnivm::Array<jnivm::Array<jlong>>>;
template <int K> struct Ty;
#define PRIM(K, T, F, S, G, V_)                                                            \
    template <> struct Ty<K> {                                                             \
        using N = T;                                                                       \
        using V = V_;                                                                      \
        static std::string sig() { return S; }                                             \
        static jvalue gen(Ctx& x, Rec& e) {                                                \
            jvalue v;                                                                      \
            v.j = (jlong)x.c.s.raw64(); /* the unused bytes of a jvalue are not zero */    \
            v.F = G;                                                                       \
            x.c.key(bits(v.F));                                                            \
            e = {K, bits(v.F), nullptr};                                                   \
            return v;                                                                      \
        }                                                                                  \
        static V pass(const jvalue& v) { return v.F; }                                     \
        static N nat(Ctx&, const jvalue& v) { return v.F; }                                \
        static Rec rec(N n) { return {K, bits(n), nullptr}; }                              \
    };
PRIM(0, jboolean, z, "Z", gen_num<jboolean>(x.c.s), jboolean)
PRIM(1, jbyte, b, "B", gen_num<jbyte>(x.c.s), jbyte)
PRIM(2, jchar, c, "C", gen_num<jchar>(x.c.s), jchar)
PRIM(3, jshort, s, "S", gen_num<jshort>(x.c.s), jshort)
PRIM(4, jint, i, "I", gen_num<jint>(x.c.s), jint)
PRIM(5, jlong, j, "J", gen_num<jlong>(x.c.s), jlong)
PRIM(6, jfloat, f, "F", gen_float(x.c.s), jfloat)
PRIM(7, jdouble, d, "D", gen_double(x.c.s), jdouble)
PRIM(8, bool, z, "Z", (jboolean)x.c.s.below(2), jboolean)
template <class T> static std::shared_ptr<T> as(Ctx& x, const jvalue& v) { return native<T>(cur_env, v.l); }
#define OBJ(K, N_, S, FROM, CNT, NULLS, NAT, PTR)                                          \
    template <> struct Ty<K> {                                                             \
        using N = N_;                                                                      \
        using V = jobject;                                                                 \
        static std::string sig() { return S; }                                             \
        static jvalue gen(Ctx& x, Rec& e) { return gen_obj(x, e, FROM, CNT, NULLS); }      \
        static V pass(const jvalue& v) { return v.l; }                                     \
        static auto nat(Ctx& x, const jvalue& v) { (void)x; return NAT; }                     \
        static Rec rec(const N& n) { return {9, 0, (const void*)(const Object*)(PTR)}; }   \
    };
#define LS "Ljava/lang/String;"
#define LO "Ljava/lang/Object;"
OBJ(9, jobject, LO, 0, 9, true, v.l, native<Object>(cur_env, n).get())
OBJ(10, std::shared_ptr<Object>, LO, 0, 9, true, as<Object>(x, v), n.get())
OBJ(11, std::shared_ptr<String>, LS, 0, 3, true, as<String>(x, v), n.get())
OBJ(12, std::shared_ptr<jnivm::Array<jint>>, "[I", 3, 3, true, as<jnivm::Array<jint>>(x, v), n.get())
OBJ(13, std::shared_ptr<Mine>, "Lp/Mine;", 6, 3, true, as<Mine>(x, v), n.get())
OBJ(14, String*, LS, 0, 3, true, as<String>(x, v).get(), n)
OBJ(15, Mine*, "Lp/Mine;", 6, 3, true, as<Mine>(x, v).get(), n)
OBJ(16, String&, LS, 0, 3, false, as<String>(x, v), &n)
OBJ(17, const Mine&, "Lp/Mine;", 6, 3, false, as<Mine>(x, v), &n)
OBJ(18, std::shared_ptr<Arr1>, "[Lp/Mine;", 9, 3, true, as<Arr1>(x, v), n.get())
OBJ(19, std::shared_ptr<Arr2>, "[[Lp/Mine;", 12, 3, true, as<Arr2>(x, v), n.get())
OBJ(20, std::shared_ptr<Arr3>, "[[[J", 15, 3, true, as<Arr3>(x, v), n.get())
OBJ(21, std::shared_ptr<ArrB>, "[LBare;", 18, 3, true, as<ArrB>(x, v), n.get())
OBJ(22, std::shared_ptr<Bare>, "LBare;", 21, 3, true, as<Bare>(x, v), n.get())

// ---- result forms
enum { NR = 16 };
template <int K> struct Re;
#define RPRIM(K, T, J, S, G)                                                               \
    template <> struct Re<K> {                                                             \
        using N = T;                                                                       \
        using C = J;                                                                       \
        static std::string sig() { return S; }                                             \
        static void gen(Ctx& x) { ret_bits = bits(G); x.c.key(ret_bits); }                 \
        static N get() { return from<T>(ret_bits); }                                       \
        static void check(Ctx& x, J r) { PBT_CHECK(x.c, bits((T)r) == ret_bits, "returned 0x%lx instead of 0x%lx as " S, (long)bits((T)r), (long)ret_bits); } \
        static void jcheck(Ctx& x, jvalue r) { PBT_CHECK(x.c, bits(r) == ret_bits, "invoke returned 0x%lx instead of 0x%lx as " S, (long)bits(r), (long)ret_bits); } \
    };
RPRIM(0, jboolean, jboolean, "Z", gen_num<jboolean>(x.c.s))
RPRIM(1, jbyte, jbyte, "B", gen_num<jbyte>(x.c.s))
RPRIM(2, jchar, jchar, "C", gen_num<jchar>(x.c.s))
RPRIM(3, jshort, jshort, "S", gen_num<jshort>(x.c.s))
RPRIM(4, jint, jint, "I", gen_num<jint>(x.c.s))
RPRIM(5, jlong, jlong, "J", gen_num<jlong>(x.c.s))
RPRIM(6, jfloat, jfloat, "F", gen_float(x.c.s))
RPRIM(7, jdouble, jdouble, "D", gen_double(x.c.s))
RPRIM(8, bool, jboolean, "Z", (bool)x.c.s.below(2))
template <> struct Re<9> {
    using N = void;
    using C = void;
    static std::string sig() { return "V"; }
    static void gen(Ctx&) {}
    static void get() {}
    static void jcheck(Ctx& x, jvalue r) { PBT_CHECK(x.c, r.j == 0, "a void invoke returned a value"); }
};
static void rgen(Ctx& x, int from, int n) {
    ret_obj = nullptr;
    ret_ref = nullptr;
    if (x.c.s.chance(1, 6)) return;
    int i = from + x.c.s.below(n);
    ret_obj = x.objs[i];
    ret_ref = x.refs.any(x.c.s, x.loc[i]);
}
static void rcheck(Ctx& x, jobject r) {
    PBT_CHECK(x.c, native<Object>(cur_env, r) == ret_obj, "returned %s instead of the object", r ? "another object" : "null");
    PBT_CHECK(x.c, r || !ret_obj, "null");
}
#define ROBJ(K, T, S, FROM, CNT, G)                                                        \
    template <> struct Re<K> {                                                             \
        using N = T;                                                                       \
        using C = jobject;                                                                 \
        static std::string sig() { return S; }                                             \
        static void gen(Ctx& x) { rgen(x, FROM, CNT); }                                    \
        static N get() { return G; }                                                       \
        static void check(Ctx& x, jobject r) { rcheck(x, r); }                             \
        static void jcheck(Ctx& x, jvalue r) { rcheck(x, r.l); }                           \
    };
ROBJ(10, jobject, LO, 0, 9, ret_ref)
ROBJ(11, std::shared_ptr<Object>, LO, 0, 9, ret_obj)
ROBJ(12, std::shared_ptr<String>, LS, 0, 3, std::dynamic_pointer_cast<String>(ret_obj))
ROBJ(13, std::shared_ptr<Mine>, "Lp/Mine;", 6, 3, std::dynamic_pointer_cast<Mine>(ret_obj))
ROBJ(14, std::shared_ptr<jnivm::Array<jint>>, "[I", 3, 3, std::dynamic_pointer_cast<jnivm::Array<jint>>(ret_obj))
ROBJ(15, std::shared_ptr<Arr2>, "[[Lp/Mine;", 12, 3, std::dynamic_pointer_cast<Arr2>(ret_obj))

// ---- the hooked functions
template <class R, class... K> struct Body;
template <class R, class... K> struct Body {
    static typename R::N run(typename K::N... p) {
        called++;
        seen = {K::rec(p)...};
        return R::get();
    }
};
template <class R, class... K> struct Functor {
    int tag;
    typename R::N operator()(typename K::N... p) const {
        if (tag != 4711) wrongTag = 1;
        return Body<R, K...>::run((typename K::N)p...);
    }
};
template <class R, class... K> struct Sig {
    static std::string params() {
        std::string s;
        (void)std::initializer_list<int>{(s += K::sig(), 0)...};
        return s;
    }
    static std::string get() { return "(" + params() + ")" + R::sig(); }
};

static constexpr uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
enum { NF = 48 };
static constexpr int counts[] = {0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 19, 22};
static constexpr int nparams(int f) { return f == 40 ? 12 : f == 41 ? 14 : f == 42 ? 18 : f == 43 ? 9 : f == 44 ? 258 : f == 45 ? 8 : f == 46 ? 5 : f == 47 ? 33 : counts[(f * 7) % 20]; }
static constexpr int pkind0(int f, int j) {
    // a few which fill the registers of one class, the rest mixed
    return f == 40   ? 5
           : f == 41 ? 7
           : f == 42 ? (j % 2 ? 6 : 3)
           : f == 43 ? 11
           : f == 44 ? (j % 3 == 2 ? 7 : 4)
           : f == 45 ? (j % 3 == 0 ? 21 : j % 3 == 1 ? 4 : 22)
           : f == 46 ? (j % 2 ? 7 : 21)
           : mix(f * 64 + j) % 10 < 6 ? (int)(mix(f * 1000 + j) % 9)
                                      : 9 + (int)(mix(f * 1000 + j) % 12);
}
// a jobject cannot come first: that form of an instance hook does not compile
static constexpr int pkind(int f, int j) { return j == 0 && pkind0(f, j) == 9 ? 10 : pkind0(f, j); }
static constexpr int rkind(int f) { return f == 45 || f == 46 ? 9 : f == 47 ? 5 : f % NR; }

// member function pointers: the function is a member of Mine
template <class R, class... K> struct Meth {
    struct M : Mine {
        typename R::N call(typename K::N... p) {
            receiver = static_cast<Object*>(this);
            return Body<R, K...>::run((typename K::N)p...);
        }
    };
};

struct Vm {
    VM vm;
    std::unordered_set<int> hooked;
    std::shared_ptr<Class> mine, sub;
    Vm() {
        auto env = vm.GetEnv().get();
        mine = env->GetClass<Mine>("p/Mine");
        env->GetClass<Bare>("Bare");
        sub = env->GetClass("p/Sub");
        std::weak_ptr<Class> m = mine;
        sub->baseclasses = [m](ENV*) { return std::vector<std::shared_ptr<Class>>{m.lock()}; };
    }
};

template <class R, class... K> struct Runner {
    using RC = typename R::C;
    template <class F> static void checked(Ctx& x, F f, std::true_type) { f(); (void)x; }
    template <class F> static void checked(Ctx& x, F f, std::false_type) { R::check(x, f()); }
    template <class F> static void checked(Ctx& x, F f) { checked(x, f, std::is_void<RC>{}); }

    static RC va(JNIEnv* e, jobject o, jmethodID m, ...) {
        struct L { va_list l; ~L() { va_end(l); } } l;
        va_start(l.l, m);
        return Calls<RC>::v(e, o, m, l.l);
    }
    static RC nva(JNIEnv* e, jobject o, jclass c, jmethodID m, ...) {
        struct L { va_list l; ~L() { va_end(l); } } l;
        va_start(l.l, m);
        return Calls<RC>::nv(e, o, c, m, l.l);
    }
    static RC sva(JNIEnv* e, jclass c, jmethodID m, ...) {
        struct L { va_list l; ~L() { va_end(l); } } l;
        va_start(l.l, m);
        return Calls<RC>::sv(e, c, m, l.l);
    }
    static jobject newv(JNIEnv* e, jclass c, jmethodID m, ...) {
        struct L { va_list l; ~L() { va_end(l); } } l;
        va_start(l.l, m);
        return e->functions->NewObjectV(e, c, m, l.l);
    }
    template <size_t... I> static void run(Ctx& x, Vm& v, int f, std::index_sequence<I...>) {
        Case& c = x.c;
        JNIEnv* env = cur_env;
        std::string name = "f" + std::to_string(f), sig = Sig<R, K...>::get();
        auto* cl = v.mine.get();
        // which form
        constexpr size_t n = sizeof...(K);
        constexpr bool wide = n > 100;  // only as a static hook and only two forms: it takes long to compile
        int form = wide ? 1 + c.s.below(2) : c.s.below(16);
        static const char* forms[] = {"variadic static", "va_list static", "array static", "variadic virtual", "va_list virtual", "array virtual", "variadic nonvirtual", "va_list nonvirtual",
                                      "array nonvirtual", "variadic constructor", "va_list constructor", "array constructor", "member function", "invoke static", "invoke instance", "member function array"};
        c.label(forms[form]);
        c.key(f * 16 + form);
        bool ctor = form >= 9 && form <= 11;
        c.nontrivial = n >= 2 && sig.find_first_not_of("I()V") != std::string::npos;
        // hook it
        int hk = f * 4 + (form <= 2 || form == 13 ? 0 : ctor ? 2 : form == 12 || form == 15 ? 3 : 1);
        using MM = typename Meth<R, K...>::M;
        std::string msig = sig;
        if (hk % 4 == 3) name = "m" + name;
        if (v.hooked.insert(hk).second) {
            ENV* e = jenv(env);
            if constexpr (wide) cl->Hook(e, name, &Body<R, K...>::run);
            else switch (hk % 4) {
                case 0:
                    if (f % 2) cl->Hook(e, name, &Body<R, K...>::run);
                    else cl->Hook(e, name, Functor<R, K...>{4711});
                    break;
                case 1:
                    if (f % 2) cl->HookInstanceFunction(e, name, Functor<R, K...>{4711});
                    else cl->HookInstanceFunction(e, name, &Body<R, K...>::run);
                    break;
                case 2: cl->Hook(e, "<init>", &Body<Re<13>, K...>::run); break;
                default: {
                    auto mc = e->template GetClass<MM>(("p/M" + std::to_string(f)).c_str());
                    mc->HookInstance(e, name, &MM::call);
                }
            }
        }
        Rec expect[n + 1];
        (void)expect;
        std::unique_ptr<jvalue[]> args(n ? new jvalue[n] : nullptr);
        (void)std::initializer_list<int>{(args[I] = K::gen(x, expect[I]), 0)...};
        if (ctor) Re<13>::gen(x);
        else R::gen(x);
        if (c.trace) {
            std::string a;
            for (size_t i = 0; i < n; i++) {
                char b[64];
                if (expect[i].kind == 9) snprintf(b, sizeof b, "%s%s", i ? ", " : "", expect[i].obj ? "object" : "null");
                else snprintf(b, sizeof b, "%s0x%lx", i ? ", " : "", (long)expect[i].bits);
                a += b;
            }
            c.note("%s of %s%s with %s", forms[form], name.c_str(), sig.c_str(), a.c_str());
        }
        seen.clear();
        called = wrongTag = 0;
        receiver = nullptr;
        jclass jc = (jclass)local(env, v.mine);
        jclass rc = (jclass)x.refs.any(c.s, jc);
        bool useSub = c.s.chance(1, 3);
        auto recv = std::make_shared<Mine>();
        recv->clazz = useSub ? v.sub : v.mine;
        jobject ro = x.refs.any(c.s, local(env, recv));
        std::shared_ptr<MM> mo;
        // the array handed in must not be modified: compared afterwards
        std::vector<jvalue> before(args.get(), args.get() + n);
        if constexpr (wide) {
            jmethodID id = env->GetStaticMethodID(rc, name.c_str(), sig.c_str());
            if (form == 1) checked(x, [&] { return sva(env, rc, id, K::pass(args[I])...); });
            if (form == 2) checked(x, [&] { return Calls<RC>::sa(env, rc, id, args.get()); });
        } else
        switch (form) {
            case 0: case 1: case 2: {
                jmethodID id = env->GetStaticMethodID(rc, name.c_str(), sig.c_str());
                if (form == 0) checked(x, [&] { return Calls<RC>::sd(env, rc, id, K::pass(args[I])...); });
                if (form == 1) checked(x, [&] { return sva(env, rc, id, K::pass(args[I])...); });
                if (form == 2) checked(x, [&] { return Calls<RC>::sa(env, rc, id, args.get()); });
                break;
            }
            case 3: case 4: case 5: case 6: case 7: case 8: {
                jmethodID id = env->GetMethodID(rc, name.c_str(), sig.c_str());
                if (form == 3) checked(x, [&] { return Calls<RC>::d(env, ro, id, K::pass(args[I])...); });
                if (form == 4) checked(x, [&] { return va(env, ro, id, K::pass(args[I])...); });
                if (form == 5) checked(x, [&] { return Calls<RC>::a(env, ro, id, args.get()); });
                if (form == 6) checked(x, [&] { return Calls<RC>::nd(env, ro, rc, id, K::pass(args[I])...); });
                if (form == 7) checked(x, [&] { return nva(env, ro, rc, id, K::pass(args[I])...); });
                if (form == 8) checked(x, [&] { return Calls<RC>::na(env, ro, rc, id, args.get()); });
                break;
            }
            case 9: case 10: case 11: {
                jmethodID id = env->GetMethodID(rc, "<init>", ("(" + Sig<R, K...>::params() + ")V").c_str());
                jobject o = form == 9 ? env->functions->NewObject(env, rc, id, K::pass(args[I])...) : form == 10 ? newv(env, rc, id, K::pass(args[I])...) : env->functions->NewObjectA(env, rc, id, args.get());
                Re<13>::check(x, o);
                break;
            }
            case 12: case 15: {
                auto mc = jenv(env)->GetVM()->typecheck[typeid(MM)];
                mo = std::make_shared<MM>();
                jobject o = x.refs.any(c.s, local(env, mo));
                jmethodID id = env->GetMethodID((jclass)local(env, mc), name.c_str(), sig.c_str());
                if (form == 12) checked(x, [&] { return Calls<RC>::d(env, o, id, K::pass(args[I])...); });
                else checked(x, [&] { return Calls<RC>::a(env, o, id, args.get()); });
                PBT_CHECK(c, receiver == static_cast<Object*>(mo.get()), "the member function ran on another object");
                break;
            }
            default: {
                jmethodID id = form == 13 ? env->GetStaticMethodID(rc, name.c_str(), sig.c_str()) : env->GetMethodID(rc, name.c_str(), sig.c_str());
                auto* m = (Method*)id;
                jvalue r = form == 13 ? m->invoke(*env, v.mine.get(), K::nat(x, args[I])...) : m->invoke(*env, (Object*)recv.get(), K::nat(x, args[I])...);
                R::jcheck(x, r);
            }
        }
        PBT_CHECK(c, called == 1, "the hook ran %d times", called);
        PBT_CHECK(c, !wrongTag, "the functor lost its state");
        PBT_CHECK(c, seen.size() == n, "the hook saw %zu arguments instead of %zu", seen.size(), n);
        for (size_t i = 0; i < n; i++) {
            PBT_CHECK(c, seen[i].obj == expect[i].obj, "argument %zu of %s: %s instead of %s", i, sig.c_str(), seen[i].obj ? "another object" : "null", expect[i].obj ? "the object passed" : "null");
            PBT_CHECK(c, seen[i].bits == expect[i].bits, "argument %zu of %s: 0x%lx instead of 0x%lx", i, sig.c_str(), (long)seen[i].bits, (long)expect[i].bits);
        }
        PBT_CHECK(c, n == 0 || !memcmp(before.data(), args.get(), n * sizeof(jvalue)), "the argument array was modified");
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
    }
};

template <int F, class S> struct Inst;
template <int F, size_t... J> struct Inst<F, std::index_sequence<J...>> {
    static void run(Ctx& x, Vm& v) { Runner<Re<rkind(F)>, Ty<pkind(F, (int)J)>...>::run(x, v, F, std::index_sequence<J...>{}); }
};
// the functions are compiled in four parts
template <int Q, size_t... F> static void dispatch(Ctx& x, Vm& v, int f, std::index_sequence<F...>) {
    using P = void (*)(Ctx&, Vm&);
    static const P t[] = {&Inst<(int)F * 4 + Q, std::make_index_sequence<nparams((int)F * 4 + Q)>>::run...};
    t[f](x, v);
}
void part0(Ctx& x, Vm& v, int f);
void part1(Ctx& x, Vm& v, int f);
void part2(Ctx& x, Vm& v, int f);
void part3(Ctx& x, Vm& v, int f);
#define CAT(a, b) a##b
#define PARTNAME(n) CAT(part, n)
void PARTNAME(PART)(Ctx& x, Vm& v, int f) { dispatch<PART>(x, v, f, std::make_index_sequence<NF / 4>{}); }

#if PART == 0
const char* const kProperty = "C03";
const char* const kRule =
    "one call of one of 48 function types, most of them pseudo-random (0 to 22 parameters, some with 33 and 258, over 23 parameter forms, 16 result forms) with random argument bits, reference kinds and result, "
    "through one of the twelve call forms or a method object; the hook records what it received; non-trivial: at least two parameters and one of them not an int; identity: function, form and values";

void property_case(Case& c) {
    Src& s = c.s;
    static Vm* vm = nullptr;
    static int uses = 0;
    if (!vm || ++uses > 400) {
        delete vm;
        vm = new Vm();
        uses = 0;
    }
    JNIEnv* env = cur_env = vm->vm.GetJNIEnv();
    env->ExceptionClear();
    env->PushLocalFrame(0);
    struct Pop {
        JNIEnv* e;
        ~Pop() { e->PopLocalFrame(nullptr); }
    } pop{env};
    Refs refs(env);
    Ctx x{c, refs, {}, {}, {}};
    int f = s.below(NF);
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<String>(std::string(i, 'x')));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<jnivm::Array<jint>>(i));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<Mine>());
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<Arr1>(i));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<Arr2>(i));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<Arr3>(i));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<ArrB>(i));
    for (int i = 0; i < 3; i++) x.objs.push_back(std::make_shared<Bare>());
    for (auto& o : x.objs) x.loc.push_back(local(env, o));
    static void (*const parts[])(Ctx&, Vm&, int) = {part0, part1, part2, part3};
    parts[f % 4](x, *vm, f / 4);
    ret_obj = nullptr;
}
#endif
