// C09: fields of every type and binding against a model of the storage behind them.
// PARTS: 3
#include "graph.hpp"
#include "jnitable.hpp"
#include <jnivm/string.h>
#include <map>
#include <set>
using pbt::Case;
using pbt::Src;

#define PRIMS(X) X(jboolean, z) X(jbyte, b) X(jchar, c) X(jshort, s) X(jint, i) X(jlong, j) X(jfloat, f) X(jdouble, d)
#define ALL(X) PRIMS(X) X(std::shared_ptr<jnivm::Object>, l) X(std::shared_ptr<jnivm::String>, t)
enum { NT = 10, SLOTS = 2 };
static const char* const kSig[NT] = {"Z", "B", "C", "S", "I", "J", "F", "D", "Ljava/lang/Object;", "Ljava/lang/String;"};

#define X(T, n) T n##0{}, n##1{};
struct Statics { ALL(X) };
inline Statics g_st;
struct FObj : jnivm::Extends<> {
    ALL(X)
#define M(T, n) T get_##n() { return n##1; } T get_env_##n(ENV*) { return n##1; } void set_##n(T v) { n##1 = v; } void set_env_##n(ENV*, T v) { n##1 = v; }
    ALL(M)
};
#undef X
struct FSub : jnivm::Extends<FObj> {};

// value as bits, or as the identity of an object
struct Val {
    uint64_t bits = 0;
    jnivm::Object* o = nullptr;
    bool operator==(const Val& x) const { return bits == x.bits && o == x.o; }
};
template <class T> static Val val(const T& v) {
    Val r;
    memcpy(&r.bits, &v, sizeof(T));
    return r;
}
template <class T> static Val val(const std::shared_ptr<T>& v) {
    Val r;
    r.o = v.get();
    return r;
}
// per type: number, static variables, members, member functions and storage of functions
template <class T> struct Ty;
inline std::map<std::pair<int, const void*>, Val>* g_lam;                // by type*8+slot and receiver
template <class T> static void lam_set(int ty, int slot, const void* self, const T& v) { (*g_lam)[{ty * 8 + slot, self}] = val(v); }
template <class T> struct LamGet {
    static T get(int ty, int slot, const void* self) {
        auto i = g_lam->find({ty * 8 + slot, self});
        T r{};
        if (i != g_lam->end()) memcpy(&r, &i->second.bits, sizeof(T));
        return r;
    }
};
template <class T> struct LamGet<std::shared_ptr<T>> {
    static std::shared_ptr<T> get(int ty, int slot, const void* self) {
        auto i = g_lam->find({ty * 8 + slot, self});
        if (i == g_lam->end() || !i->second.o) return nullptr;
        return std::static_pointer_cast<T>(i->second.o->shared_from_this());
    }
};
enum { NUM_z, NUM_b, NUM_c, NUM_s, NUM_i, NUM_j, NUM_f, NUM_d, NUM_l, NUM_t };
#define X(T_, n)                                                                  \
    template <> struct Ty<T_> {                                                   \
        enum { num = NUM_##n };                                                   \
        static T_* st(int k) { return k ? &g_st.n##1 : &g_st.n##0; }              \
        static T_ FObj::*mem(int k) { return k ? &FObj::n##1 : &FObj::n##0; }     \
        static auto get() { return &FObj::get_##n; }                              \
        static auto get_env() { return &FObj::get_env_##n; }                      \
        static auto set() { return &FObj::set_##n; }                              \
        static auto set_env() { return &FObj::set_env_##n; }                      \
    };
ALL(X)
#undef X

// Where a value lives.  kind: 0 nowhere, 1 static variable, 2 member, 3 function storage, 4 function storage per receiver
struct Bind {
    int kind = 0, slot = 0;
};
struct Hooks {
    Bind get, set;
};
using Key = std::tuple<int, bool, int>;  // name, static, type
static const char* const kNames[] = {"x", "y", "xy"};

struct Op {
    virtual ~Op() {}
    virtual std::string hook(Src& s, jnivm::Class* cl, ENV* e, const char* n, bool st, int cls, Hooks& h) = 0;
    virtual Val jni_get(JNIEnv* env, jobject o, bool st, jfieldID id) = 0;
    virtual Val jni_set(Src& s, JNIEnv* env, jobject o, bool st, jfieldID id, Refs& refs, const std::vector<std::shared_ptr<jnivm::Object>>& objs) = 0;
    virtual Val read(const Bind& b, FObj* self, const void* any) = 0;
    virtual void write(Src& s, const Bind& b, FObj* self, const void* any, const std::vector<std::shared_ptr<jnivm::Object>>& objs) = 0;
};
template <class T> static inline T random_value(Src& s, const std::vector<std::shared_ptr<jnivm::Object>>&, T*) {
    uint64_t x = s.raw64();
    if (std::is_same<T, jboolean>::value) x &= 1;
    if (s.chance(1, 6)) x = s.chance(1, 2) ? 0 : ~0ull;
    if (std::is_same<T, jboolean>::value) x &= 1;
    T r;
    memcpy(&r, &x, sizeof(T));
    return r;
}
template <class T> static inline std::shared_ptr<T> random_value(Src& s, const std::vector<std::shared_ptr<jnivm::Object>>& objs, std::shared_ptr<T>*) {
    if (s.chance(1, 5)) return nullptr;
    std::vector<std::shared_ptr<T>> fit;
    for (auto& o : objs)
        if (auto p = std::dynamic_pointer_cast<T>(o)) fit.push_back(p);
    return s.pick(fit);
}
template <class T> struct OpT : Op {
    enum { ty = Ty<T>::num };
    static constexpr bool isobj = std::is_class<T>::value;
    using J = std::conditional_t<isobj, jobject, T>;
    std::string hook(Src& s, jnivm::Class* cl, ENV* e, const char* n, bool st, int cls, Hooks& h) override {
        int k = (int)s.below(SLOTS), slot = (int)s.below(SLOTS);
        if (st) {
            switch (s.below(3)) {
                case 0:
                    h.get = h.set = {1, k};
                    if (s.chance(1, 3)) {
                        // a pointer which is gone when the field is used
                        const auto p = Ty<T>::st(k);
                        cl->Hook(e, n, p);
                        return "variable (const pointer)";
                    }
                    cl->Hook(e, n, Ty<T>::st(k));
                    return "variable";
                case 1:
                    h.get = {3, slot};
                    switch (s.below(3)) {
                        case 0: cl->HookGetterFunction(e, n, [slot] { return LamGet<T>::get(ty, slot, nullptr); }); return "getter";
                        case 1: cl->HookGetterFunction(e, n, [slot](ENV*) { return LamGet<T>::get(ty, slot, nullptr); }); return "getter(ENV)";
                        default: cl->HookGetterFunction(e, n, [slot](JNIEnv*, jnivm::Class*) { return LamGet<T>::get(ty, slot, nullptr); }); return "getter(JNIEnv, Class)";
                    }
                default:
                    h.set = {3, slot};
                    switch (s.below(3)) {
                        case 0: cl->HookSetterFunction(e, n, [slot](T v) { lam_set(ty, slot, nullptr, v); }); return "setter";
                        case 1: cl->HookSetterFunction(e, n, [slot](JNIEnv*, jnivm::Class*, T v) { lam_set(ty, slot, nullptr, v); }); return "setter(JNIEnv, Class)";
                        default: cl->HookSetterFunction(e, n, [slot](jnivm::Class*, T v) { lam_set(ty, slot, nullptr, v); }); return "setter(Class)";
                    }
            }
        }
        if (s.chance(1, 8)) {
            h.get = h.set = {1, k};
            if (s.chance(1, 2)) cl->HookInstanceProperty(e, n, Ty<T>::st(k));
            else cl->HookInstance(e, n, Ty<T>::st(k));
            return "static variable";
        }
        // a function taking FObj* is only bound in the class of FObj
        switch (cls > 1 ? 6 + s.below(2) : cls ? s.weighted({3, 1, 0, 0, 1, 1, 2, 2}) : s.weighted({3, 1, 2, 2, 1, 1, 2, 2})) {
            case 0:
                h.get = h.set = {2, k};
                if (s.chance(1, 3)) {
                    const auto p = Ty<T>::mem(k);
                    if (s.chance(1, 2)) cl->Hook(e, n, p);
                    else cl->HookInstance(e, n, p);
                    return "member (const pointer)";
                }
                cl->Hook(e, n, Ty<T>::mem(k));
                return "member";
            case 1:
                cl->HookInstanceProperty(e, n, Ty<T>::mem(k));
                h.get = h.set = {2, k};
                return "property";
            case 2:
                cl->HookInstanceGetterFunction(e, n, [k](FObj* self) { return self->*Ty<T>::mem(k); });
                h.get = {2, k};
                return "getter(FObj)";
            case 3:
                cl->HookInstanceSetterFunction(e, n, [k](FObj* self, T v) { self->*Ty<T>::mem(k) = v; });
                h.set = {2, k};
                return "setter(FObj)";
            case 4:
                if (s.chance(1, 3)) {
                    const auto p = Ty<T>::set();
                    cl->HookInstanceSetterFunction(e, n, p);
                } else if (s.chance(1, 2)) cl->HookInstanceSetterFunction(e, n, Ty<T>::set());
                else cl->HookInstanceSetterFunction(e, n, Ty<T>::set_env());
                h.set = {2, 1};
                return "setter member function";
            case 5:
                cl->HookInstanceSetterFunction(e, n, [](ENV*, jnivm::Object* self, T v) { lam_set(ty, 1, self, v); });
                h.set = {4, 1};
                return "setter(ENV, Object)";
            case 6:
                h.get = {4, slot};
                if (s.chance(1, 2)) cl->HookInstanceGetterFunction(e, n, [slot](jnivm::Object* self) { return LamGet<T>::get(ty, slot, self); });
                else cl->HookInstanceGetterFunction(e, n, [slot](ENV*, jnivm::Object* self) { return LamGet<T>::get(ty, slot, self); });
                return "getter(Object)";
            default:
                h.set = {4, slot};
                cl->HookInstanceSetterFunction(e, n, [slot](jnivm::Object* self, T v) { lam_set(ty, slot, self, v); });
                return "setter(Object)";
        }
    }
    template <class V> static Val wrap(JNIEnv*, V v) { return val(v); }
    static Val wrap(JNIEnv* env, jobject v) {
        Val r;
        r.o = v ? native<jnivm::Object>(env, v).get() : nullptr;
        return r;
    }
    Val jni_get(JNIEnv* env, jobject o, bool st, jfieldID id) override { return wrap(env, st ? Fields<J>::sget(env, (jclass)o, id) : Fields<J>::get(env, o, id)); }
    Val jni_set(Src& s, JNIEnv* env, jobject o, bool st, jfieldID id, Refs& refs, const std::vector<std::shared_ptr<jnivm::Object>>& objs) override {
        T v = random_value(s, objs, (T*)nullptr);
        J j = conv(s, env, refs, v);
        if (st) Fields<J>::sset(env, (jclass)o, id, j);
        else Fields<J>::set(env, o, id, j);
        return val(v);
    }
    template <class V> static V conv(Src&, JNIEnv*, Refs&, const V& v) { return v; }
    template <class V> static jobject conv(Src& s, JNIEnv* env, Refs& refs, const std::shared_ptr<V>& v) { return v ? refs.any(s, local(env, v)) : nullptr; }
    Val read(const Bind& b, FObj* self, const void* any) override {
        switch (b.kind) {
            case 1: return val(*Ty<T>::st(b.slot));
            case 2: return val(self->*Ty<T>::mem(b.slot));
            default: return val(LamGet<T>::get(ty, b.slot, b.kind == 3 ? nullptr : any));
        }
    }
    void write(Src& s, const Bind& b, FObj* self, const void* any, const std::vector<std::shared_ptr<jnivm::Object>>& objs) override {
        T v = random_value(s, objs, (T*)nullptr);
        switch (b.kind) {
            case 1: *Ty<T>::st(b.slot) = v; break;
            case 2: self->*Ty<T>::mem(b.slot) = v; break;
            default: lam_set(ty, b.slot, b.kind == 3 ? nullptr : any, v);
        }
    }
};

// each part of this file makes the types of its own
#if PART == 0
#define MINE(X) X(jboolean, z) X(jbyte, b) X(jchar, c)
void make1(std::unique_ptr<Op>* ops);
void make2(std::unique_ptr<Op>* ops);
static void make0
#elif PART == 1
#define MINE(X) X(jshort, s) X(jint, i) X(jlong, j) X(jfloat, f)
void make1
#else
#define MINE(X) X(jdouble, d) X(std::shared_ptr<jnivm::Object>, l) X(std::shared_ptr<jnivm::String>, t)
void make2
#endif
    (std::unique_ptr<Op>* ops) {
#define X(T, n) ops[Ty<T>::num].reset(new OpT<T>);
    MINE(X)
#undef X
}

#if PART == 0
const char* const kProperty = "C09";
const char* const kRule =
    "fields of eight primitive types and two object types, bound in random order to static variables, data members, getter and setter functions (all context forms, member "
    "functions included, getter-only and setter-only, later rebinding), in classes which inherit from each other, with equal names of different type and staticness; a history "
    "of JNI reads and writes through IDs from any class, and native changes of the storage; the whole storage is compared after every step; non-trivial: a write through an "
    "inherited field reached its storage, or a write without setter happened; identity: the draws";

struct Snapshot {
    std::vector<Val> v;
    bool operator==(const Snapshot& o) const { return v == o.v; }
};

void property_case(Case& c) {
    Src& s = c.s;
    bool nul = s.chance(1, 4);
    g_st = Statics();
    std::map<std::pair<int, const void*>, Val> lam;
    g_lam = &lam;
    std::unique_ptr<VM> vm(new VM(false, nul));
    JNIEnv* env = vm->GetJNIEnv();
    ENV* e = vm->GetEnv().get();
    std::unique_ptr<Op> ops[NT];
    make0(ops);
    make1(ops);
    make2(ops);
    // classes: t/F <- t/S native, t/D <- t/E dynamic
    std::vector<std::shared_ptr<jnivm::Class>> cls = {e->GetClass<FObj>("t/F"), e->GetClass<FSub>("t/S"), e->GetClass("t/D"), e->GetClass("t/E")};
    static const char* cname[] = {"t/F", "t/S", "t/D", "t/E"};
    static const int base[] = {-1, 0, -1, 2};
    auto D = cls[2];
    cls[3]->baseclasses = [D](ENV*) { return std::vector<std::shared_ptr<jnivm::Class>>{D}; };
    struct Obj {
        std::shared_ptr<jnivm::Object> o;
        FObj* f;
        int cl;
    };
    std::vector<Obj> objs;
    std::vector<std::shared_ptr<jnivm::Object>> values;
    for (int i = 0; i < 6; i++) {
        int cl = i < 4 ? i : (int)s.below(4);
        std::shared_ptr<jnivm::Object> o;
        FObj* f = nullptr;
        if (cl == 0) {
            auto p = std::make_shared<FObj>();
            f = p.get();
            o = p;
        } else if (cl == 1) {
            auto p = std::make_shared<FSub>();
            f = p.get();
            o = p;
        } else
            o = std::make_shared<jnivm::Object>();
        o->clazz = cls[cl];
        objs.push_back({o, f, cl});
        values.push_back(o);
    }
    for (const char* t : {"", "text"}) values.push_back(std::make_shared<jnivm::String>(t));
    // all storage there is
    auto snapshot = [&] {
        Snapshot r;
        for (int t = 0; t < NT; t++)
            for (int k = 0; k < SLOTS; k++) {
                r.v.push_back(ops[t]->read({1, k}, nullptr, nullptr));
                r.v.push_back(ops[t]->read({3, k}, nullptr, nullptr));
                for (auto& o : objs) {
                    if (o.f) r.v.push_back(ops[t]->read({2, k}, o.f, nullptr));
                    r.v.push_back(ops[t]->read({4, k}, nullptr, o.o.get()));
                }
            }
        return r;
    };
    std::vector<std::map<Key, Hooks>> decl(cls.size());
    struct Id {
        jfieldID id;
        int at;
        Key k;
    };
    std::vector<Id> ids;
    bool remote = false, lost = false;
    Key last{0, false, 0};
    int i0 = 0;
    auto key = [&] {
        if (i0++ && !s.chance(1, 6)) return last;
        return last = Key{(int)s.weighted({3, 1, 1}), s.chance(1, 2), (int)s.below(NT)};
    };
    auto show = [&](const Key& k) { return std::string(std::get<1>(k) ? "static " : "") + kNames[std::get<0>(k)] + " " + kSig[std::get<2>(k)]; };
    size_t steps = 10 + s.len(70);
    for (size_t i = 0; i < steps; i++) {
        size_t op = s.weighted({5, 3, 6, 6, 2});
        env->PushLocalFrame(0);
        Refs refs(env);
        if (op == 0) {
            Key k = key();
            int cl = (int)s.below(4);
            Hooks& h = decl[cl][k];
            bool re = h.get.kind || h.set.kind;
            std::string what = ops[std::get<2>(k)]->hook(s, cls[cl].get(), e, kNames[std::get<0>(k)], std::get<1>(k), cl, h);
            PBT_NOTE(c, "hook %s in %s: %s%s", show(k).c_str(), cname[cl], what.c_str(), re ? " (again)" : "");
        } else if (op == 1) {
            Key k = key();
            int cl = (int)s.below(4);
            jclass jc = (jclass)refs.any(s, local(env, cls[cl]));
            const char *n = kNames[std::get<0>(k)], *g = kSig[std::get<2>(k)];
            jfieldID id = std::get<1>(k) ? env->GetStaticFieldID(jc, n, g) : env->GetFieldID(jc, n, g);
            int at = cl;
            while (at >= 0 && !decl[at].count(k)) at = base[at];
            PBT_NOTE(c, "id %zu: %s of %s%s", ids.size(), show(k).c_str(), cname[cl], at < 0 ? "" : at != cl ? ", inherited" : ", its own");
            PBT_CHECK(c, id || (nul && at < 0), "%s of %s was not found", show(k).c_str(), cname[cl]);
            if (!id) {
            } else {
                if (at < 0) {
                    at = cl;
                    decl[cl][k];
                }
                ids.push_back({id, at, k});
            }
        } else if (!ids.empty()) {
            size_t ix = s.chance(1, 2) ? ids.size() - 1 - s.below((uint32_t)std::min<size_t>(ids.size(), 3)) : s.below((uint32_t)ids.size());
            Id f = ids[ix];
            Hooks h = decl[f.at][f.k];
            bool st = std::get<1>(f.k);
            int ty = std::get<2>(f.k);
            // a receiver of the field's class
            std::vector<int> fit;
            for (size_t o = 0; o < objs.size(); o++)
                if (objs[o].cl == f.at || base[objs[o].cl] == f.at) fit.push_back((int)o);
            Obj& ob = objs[s.pick(fit)];
            jobject target = refs.any(s, st ? local(env, cls[ob.cl]) : local(env, ob.o));
            const void* any = ob.o.get();
            auto before = snapshot();
            if (op == 2) {
                Val got = ops[ty]->jni_get(env, target, st, f.id);
                PBT_NOTE(c, "read id %zu (%s of %s) on a %s: bits %lx", ix, show(f.k).c_str(), cname[f.at], cname[ob.cl], (unsigned long)got.bits);
                if (h.get.kind) {
                    Val want = ops[ty]->read(h.get, ob.f, any);
                    PBT_CHECK(c, got == want, "%s of %s reads as %lx instead of %lx", show(f.k).c_str(), cname[f.at], (unsigned long)(got.bits | (uint64_t)got.o), (unsigned long)(want.bits | (uint64_t)want.o));
                } else {
                    PBT_CHECK(c, got.bits == 0, "%s of %s has no getter and reads as %lx", show(f.k).c_str(), cname[f.at], (unsigned long)got.bits);
                    c.label("read without getter");
                }
                PBT_CHECK(c, snapshot() == before, "reading %s of %s changed something", show(f.k).c_str(), cname[f.at]);
            } else if (op == 3) {
                Val v = ops[ty]->jni_set(s, env, target, st, f.id, refs, values);
                PBT_NOTE(c, "write id %zu (%s of %s) on a %s: bits %lx", ix, show(f.k).c_str(), cname[f.at], cname[ob.cl], (unsigned long)v.bits);
                auto after = snapshot();
                if (!h.set.kind) {
                    PBT_CHECK(c, after == before, "writing %s of %s, which has no setter, changed something", show(f.k).c_str(), cname[f.at]);
                    lost = true;
                } else {
                    Val now = ops[ty]->read(h.set, ob.f, any);
                    PBT_CHECK(c, now == v, "%s of %s was set to %lx and its storage is %lx", show(f.k).c_str(), cname[f.at], (unsigned long)(v.bits | (uint64_t)v.o), (unsigned long)(now.bits | (uint64_t)now.o));
                    // nothing else: put the old value back in the comparison
                    size_t diff = 0;
                    for (size_t q = 0; q < after.v.size(); q++) diff += !(after.v[q] == before.v[q]);
                    PBT_CHECK(c, diff <= 1, "writing %s of %s changed %zu places", show(f.k).c_str(), cname[f.at], diff);
                    remote |= f.at != ob.cl;
                    if (h.get.kind && (h.get.kind != h.set.kind || h.get.slot != h.set.slot)) c.label("getter and setter of different storage");
                }
            } else {
                // the native side changes the storage the field reads from
                if (!h.get.kind) {
                    env->PopLocalFrame(nullptr);
                    continue;
                }
                ops[ty]->write(s, h.get, ob.f, any, values);
                Val want = ops[ty]->read(h.get, ob.f, any), got = ops[ty]->jni_get(env, target, st, f.id);
                PBT_NOTE(c, "native change behind id %zu (%s of %s) on a %s: bits %lx", ix, show(f.k).c_str(), cname[f.at], cname[ob.cl], (unsigned long)want.bits);
                PBT_CHECK(c, got == want, "%s of %s reads as %lx after the native side stored %lx", show(f.k).c_str(), cname[f.at], (unsigned long)(got.bits | (uint64_t)got.o), (unsigned long)(want.bits | (uint64_t)want.o));
            }
            PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
        }
        env->PopLocalFrame(nullptr);
    }
    // no cycles may remain
    for (auto& o : objs)
        if (o.f) {
            o.f->l0 = o.f->l1 = nullptr;
            o.f->t0 = o.f->t1 = nullptr;
        }
    g_st = Statics();
    g_lam = nullptr;
    c.nontrivial = remote || lost;
}
#endif
