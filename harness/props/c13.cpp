// C13: exceptions against one pending slot per environment.
#include "jnitable.hpp"
#include "jvmutil.hpp"
#include <jnivm/extends.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C13";
const char* const kRule =
    "a history over one to three environments (threads): calling hooked functions of every result type, static, virtual, non-virtual and as constructors, in variadic, va_list "
    "and array form and through the method object, whose bodies do the same recursively (up to three deep) and then return or throw one of four kinds of native exceptions; "
    "Throw of new, earlier and other environments' throwables through every reference kind, ThrowNew, Describe, Clear; after every step the pending state of the environment "
    "and, in between, of all environments is compared with a one-slot model; non-trivial: a native exception and a thrown object were pending in different environments, or a "
    "nested call replaced one exception by another; identity: the draws";

struct Plain { uint32_t id; };
struct Derived : std::logic_error {
    uint32_t id;
    explicit Derived(uint32_t id) : logic_error("derived %s"), id(id) {}
};
struct MyThrow : jnivm::Extends<jnivm::Throwable> { int x = 3; };
struct Thing : jnivm::Extends<> {};

// what an exception is
enum Kind { RUNTIME, INT, PLAIN, DERIVED, EMPTY, NONE, OTHER };
struct Ex {
    Kind kind = NONE;
    uint32_t id = 0;
    bool operator==(const Ex& o) const { return kind == o.kind && id == o.id; }
    std::string show() const {
        static const char* n[] = {"runtime_error", "int", "struct", "logic_error", "throwable without native exception", "none", "something else"};
        return std::string(n[kind]) + (kind < EMPTY ? " " + std::to_string(id) : "");
    }
};
static const char* const kText[] = {"%s%n", "", "x"};
static std::string text(uint32_t id) { return std::string(kText[id % 3]) + std::to_string(id); }
[[noreturn]] static void raise(const Ex& e) {
    switch (e.kind) {
        case RUNTIME: throw std::runtime_error(text(e.id));
        case INT: throw (int)e.id;
        case PLAIN: throw Plain{e.id};
        default: throw Derived(e.id);
    }
}
static Ex what(const std::exception_ptr& p) {
    if (!p) return {EMPTY, 0};
    try {
        std::rethrow_exception(p);
    } catch (const Derived& d) {
        return {DERIVED, d.id};
    } catch (const std::runtime_error& r) {
        for (uint32_t k = 0; k < 3; k++) {
            size_t l = strlen(kText[k]);
            if (strncmp(r.what(), kText[k], l) == 0 && r.what()[l]) {
                uint32_t id = (uint32_t)strtoul(r.what() + l, nullptr, 10);
                if (text(id) == r.what()) return {RUNTIME, id};
            }
        }
        return {OTHER, 0};
    } catch (int i) {
        return {INT, (uint32_t)i};
    } catch (const Plain& p) {
        return {PLAIN, p.id};
    } catch (...) {
        return {OTHER, 0};
    }
}

struct Slot {
    Ex ex;          // NONE: nothing pending
    int pool = -1;  // the throwable object, if known
};
struct Known {
    jobject g;
    Ex ex;
};

constexpr int kEnvs = 3;
struct Env {
    JNIEnv* env;
    Worker* worker;
    Slot slot;
    Refs* refs;
};
static VM* g_vm;
static Env g_env[kEnvs];
static std::shared_ptr<Object> g_result;
struct Machine;
static Machine* g_m;
static void body(JNIEnv* env);

template <class T> struct Ret {
    using type = T;
    static T make(jint v) { return (T)v; }
};
template <> struct Ret<jobject> {
    using type = std::shared_ptr<Object>;
    static type make(jint) { return g_result; }
};
template <> struct Ret<void> {
    using type = void;
    static void make(jint) {}
};
#define RESULTS(X) X(jboolean, Z) X(jbyte, B) X(jchar, C) X(jshort, S) X(jint, I) X(jlong, J) X(jfloat, F) X(jdouble, D) X(jobject, L) X(void, V)
static const char* const kSig[] = {"(I)Z", "(I)B", "(I)C", "(I)S", "(I)I", "(I)J", "(I)F", "(I)D", "(I)Ljava/lang/Object;", "(I)V"};
template <class T> static void hooks(jnivm::Class* cl, ENV* e) {
    cl->Hook(e, "s", [](ENV* e, jint v) -> typename Ret<T>::type {
        body(e->GetJNIEnv());
        return Ret<T>::make(v);
    });
    cl->HookInstanceFunction(e, "i", [](ENV* e, Object*, jint v) -> typename Ret<T>::type {
        body(e->GetJNIEnv());
        return Ret<T>::make(v);
    });
}
void property_setup() {
    g_vm = new VM(false, false);
    for (int i = 0; i < kEnvs; i++) {
        Env& e = g_env[i];
        if (i) {
            e.worker = new Worker;
            e.worker->run([&] { g_vm->GetJavaVM()->AttachCurrentThread(&e.env, nullptr); });
        } else
            e.env = g_vm->GetJNIEnv();
    }
    auto e = g_vm->GetEnv();
    e->GetClass<MyThrow>("p/MyThrow");
    auto cl = e->GetClass<Thing>("p/Thing");
#define X(T, N) hooks<T>(cl.get(), e.get());
    RESULTS(X)
#undef X
    cl->Hook(e.get(), "<init>", [](ENV* e, jint) -> std::shared_ptr<Thing> {
        body(e->GetJNIEnv());
        return std::make_shared<Thing>();
    });
    g_result = std::make_shared<Thing>();
}

template <class T> static T va(int form, JNIEnv* e, jobject o, jclass c, jmethodID m, ...) {
    va_list l;
    va_start(l, m);
    struct End {
        va_list& l;
        ~End() { va_end(l); }
    } end{l};
    return form == 0 ? Calls<T>::v(e, o, m, l) : form == 1 ? Calls<T>::nv(e, o, c, m, l) : Calls<T>::sv(e, c, m, l);
}
template <class T> static T call(int form, JNIEnv* e, jobject o, jclass c, jmethodID m, jint v) {
    jvalue a[1];
    a[0].i = v;
    switch (form) {
        case 0: return Calls<T>::d(e, o, m, v);
        case 1: return va<T>(0, e, o, c, m, v);
        case 2: return Calls<T>::a(e, o, m, a);
        case 3: return Calls<T>::nd(e, o, c, m, v);
        case 4: return va<T>(1, e, o, c, m, v);
        case 5: return Calls<T>::na(e, o, c, m, a);
        case 6: return Calls<T>::sd(e, c, m, v);
        case 7: return va<T>(2, e, o, c, m, v);
        default: return Calls<T>::sa(e, c, m, a);
    }
}
template <class T> struct Result {
    // the value returned, or a default one
    static void check(Case& c, int form, JNIEnv* e, jobject o, jclass cl, jmethodID m, jint v, const bool& threw) {
        T r = call<T>(form, e, o, cl, m, v);
        PBT_CHECK(c, r == (threw ? T(0) : (T)v), "a call %s returned another value", threw ? "which threw" : "which did not throw");
    }
};
template <> struct Result<jobject> {
    static void check(Case& c, int form, JNIEnv* e, jobject o, jclass cl, jmethodID m, jint v, const bool& threw) {
        jobject r = call<jobject>(form, e, o, cl, m, v);
        if (threw)
            PBT_CHECK(c, !r || env_ok(e, r), "a call which threw returned an object without a class");
        else
            PBT_CHECK(c, e->IsSameObject(r, local(e, g_result)), "a call which did not throw returned another object");
    }
    static bool env_ok(JNIEnv* e, jobject r) { return e->GetObjectClass(r) != nullptr; }
};
template <> struct Result<void> {
    static void check(Case&, int form, JNIEnv* e, jobject o, jclass cl, jmethodID m, jint v, const bool&) { call<void>(form, e, o, cl, m, v); }
};

struct Machine {
    Case& c;
    Src& s;
    std::vector<Known> pool;
    uint32_t next = 1;
    int depth = 0;
    int at = 0;  // the environment in control
    bool replaced = false, apart = false;
    bool threw = false;  // how the last body ended
    size_t budget = 60;
    explicit Machine(Case& c) : c(c), s(c.s) {}

    void pend(const Ex& ex, int known) {
        Env& e = g_env[at];
        if (depth > 1 && e.slot.ex.kind != NONE && !(e.slot.ex == ex)) replaced = true;
        e.slot.ex = ex;
        e.slot.pool = known;
        for (int i = 0; i < kEnvs; i++)
            if (i != at && g_env[i].slot.ex.kind != NONE && ex.kind != NONE && (g_env[i].slot.pool < 0) != (known < 0)) apart = true;
    }
    std::string in() { return std::string(depth * 2, ' ') + "env " + std::to_string(at) + ": "; }
    void verify() {
        Env& e = g_env[at];
        JNIEnv* env = e.env;
        bool is = e.slot.ex.kind != NONE;
        PBT_CHECK(c, env->ExceptionCheck() == (is ? JNI_TRUE : JNI_FALSE), "environment %d: an exception is%s pending, expected %s", at, is ? " not" : "", e.slot.ex.show().c_str());
        jthrowable t = env->ExceptionOccurred();
        PBT_CHECK(c, (t != nullptr) == is, "environment %d: ExceptionOccurred is %snull, expected %s", at, t ? "not " : "", e.slot.ex.show().c_str());
        PBT_CHECK(c, env->ExceptionCheck() == (is ? JNI_TRUE : JNI_FALSE), "environment %d: asking for the exception changed it", at);
        if (!is) return;
        Ex got = what(native<jnivm::Throwable>(env, t)->except);
        PBT_CHECK(c, got == e.slot.ex, "environment %d: the pending exception is %s instead of %s", at, got.show().c_str(), e.slot.ex.show().c_str());
        PBT_CHECK(c, env->IsInstanceOf(t, env->FindClass("java/lang/Throwable")), "the pending exception is no throwable");
        PBT_CHECK(c, env->IsSameObject(t, env->ExceptionOccurred()), "two queries for the pending exception yield different objects");
        for (size_t i = 0; i < pool.size(); i++) {
            bool same = env->IsSameObject(t, pool[i].g);
            PBT_CHECK(c, same == (e.slot.pool == (int)i), "environment %d: the pending exception is %s throwable %zu", at, same ? "unexpectedly" : "not", i);
        }
        if (e.slot.pool < 0 && pool.size() < 12 && s.chance(1, 2)) {
            pool.push_back({env->NewGlobalRef(t), e.slot.ex});
            e.slot.pool = (int)pool.size() - 1;
        }
    }
    // what a function does; then it returns or throws
    void run_body() {
        depth++;
        for (size_t n = depth < 4 ? s.below(3) : 0; n-- > 0;) op();
        Ex ex;
        if (s.chance(1, 2)) ex = {(Kind)s.below(4), next++};
        depth--;
        if (ex.kind != NONE) {
            PBT_NOTE(c, "%s  throws %s", in().c_str(), ex.show().c_str());
            threw = true;
            depth++;
            pend(ex, -1);
            depth--;
            raise(ex);
        }
        threw = false;
    }
    void op() {
        Env& e = g_env[at];
        JNIEnv* env = e.env;
        if (budget) budget--;
        env->PushLocalFrame(0);
        switch (budget ? s.weighted({8, 2, 2, 2, 1, 1, 2}) : 4) {
            case 0: {
                int t = (int)s.below(10), form = (int)s.below(9);
                jint v = s.below(2);
                bool st = form > 5;
                jclass cl = env->FindClass("p/Thing");
                jmethodID m = st ? env->GetStaticMethodID(cl, "s", kSig[t]) : env->GetMethodID(cl, "i", kSig[t]);
                jobject o = e.refs->any(s, local(env, g_result));
                PBT_NOTE(c, "%scall %s%s, form %d", in().c_str(), st ? "s" : "i", kSig[t], form);
                bool before = threw;
                switch (t) {
#define X(T, N) case R_##N: Result<T>::check(c, form, env, o, cl, m, v, threw); break;
                    enum { R_Z, R_B, R_C, R_S, R_I, R_J, R_F, R_D, R_L, R_V };
                    RESULTS(X)
#undef X
                }
                threw = before;
                break;
            }
            case 1: {
                jclass cl = env->FindClass("p/Thing");
                jmethodID m = env->GetMethodID(cl, "<init>", "(I)V");
                PBT_NOTE(c, "%sNewObject", in().c_str());
                bool before = threw;
                jvalue a[1];
                a[0].i = 1;
                jobject o = s.chance(1, 2) ? env->NewObjectA(cl, m, a) : env->NewObject(cl, m, 1);
                if (!threw) PBT_CHECK(c, o && native<Thing>(env, o), "a constructor which did not throw made no object");
                threw = before;
                break;
            }
            case 2: {  // through the method object; nothing is pending before
                int t = (int)s.below(10);
                bool st = s.chance(1, 2);
                jclass cl = env->FindClass("p/Thing");
                auto m = (jnivm::Method*)(st ? env->GetStaticMethodID(cl, "s", kSig[t]) : env->GetMethodID(cl, "i", kSig[t]));
                env->ExceptionClear();
                pend({}, -1);
                PBT_NOTE(c, "%sinvoke %s%s", in().c_str(), st ? "s" : "i", kSig[t]);
                bool before = threw, caught = false;
                Ex got;
                try {
                    jvalue r = st ? m->invoke(*env, native<jnivm::Class>(env, cl).get(), (jint)1) : m->invoke(*env, g_result.get(), (jint)1);
                    (void)r;
                } catch (...) {
                    caught = true;
                    got = what(std::current_exception());
                }
                threw = before;
                Ex want = e.slot.ex;
                PBT_CHECK(c, caught == (want.kind != NONE), "a call through the method object %s, expected %s", caught ? "threw" : "did not throw", want.show().c_str());
                PBT_CHECK(c, !caught || want.kind == EMPTY || got == want, "a call through the method object threw %s instead of %s", got.show().c_str(), want.show().c_str());
                // handing the exception on may or may not clear it
                if (!env->ExceptionCheck()) pend({}, -1);
                break;
            }
            case 3: {  // an object of our own, or one met before
                Slot x;
                jobject t;
                if (!pool.empty() && s.chance(2, 3)) {
                    x.pool = (int)s.below((uint32_t)pool.size());
                    x.ex = pool[x.pool].ex;
                    t = pool[x.pool].g;
                } else {
                    std::shared_ptr<jnivm::Throwable> n;
                    if (s.chance(1, 2))
                        n = std::make_shared<MyThrow>();
                    else
                        n = std::make_shared<jnivm::Throwable>();
                    x.ex = s.chance(1, 2) ? Ex{EMPTY, 0} : Ex{INT, next++};
                    if (x.ex.kind == INT) n->except = std::make_exception_ptr((int)x.ex.id);
                    t = local(env, n);
                    pool.push_back({env->NewGlobalRef(t), x.ex});
                    x.pool = (int)pool.size() - 1;
                }
                int kind = (int)s.below(6);
                PBT_NOTE(c, "%sThrow throwable %d (%s), %s", in().c_str(), x.pool, x.ex.show().c_str(), Refs::kind_name(kind));
                env->Throw((jthrowable)e.refs->make(t, kind));
                pend(x.ex, x.pool);
                break;
            }
            case 4: {
                Ex x{RUNTIME, next++};
                PBT_NOTE(c, "%sThrowNew %u", in().c_str(), x.id);
                PBT_CHECK(c, env->ThrowNew(env->FindClass(s.chance(1, 2) ? "java/lang/Throwable" : "java/lang/RuntimeException"), text(x.id).data()) == 0, "ThrowNew failed");
                pend(x, -1);
                break;
            }
            case 5:
                PBT_NOTE(c, "%sDescribe", in().c_str());
                env->ExceptionDescribe();
                // describing may or may not clear it
                if (!env->ExceptionCheck()) pend({}, -1);
                break;
            default:
                PBT_NOTE(c, "%sClear", in().c_str());
                env->ExceptionClear();
                pend({}, -1);
        }
        verify();
        env->PopLocalFrame(nullptr);
        verify_quick();
    }
    void verify_quick() {
        Env& e = g_env[at];
        bool is = e.slot.ex.kind != NONE;
        PBT_CHECK(c, e.env->ExceptionCheck() == (is ? JNI_TRUE : JNI_FALSE), "environment %d: an exception is%s pending, expected %s", at, is ? " not" : "", e.slot.ex.show().c_str());
    }
    template <class F> void on(int i, F f) {
        at = i;
        if (g_env[i].worker)
            g_env[i].worker->run(f);
        else
            f();
    }
    void all() {
        for (int i = 0; i < used; i++) on(i, [&] {
            g_env[at].env->PushLocalFrame(0);
            verify();
            g_env[at].env->PopLocalFrame(nullptr);
        });
    }
    int used = 1;
};
static void body(JNIEnv* env) {
    if (env != g_env[g_m->at].env) g_m->c.flag("a hooked function was given the environment of another thread");
    g_m->run_body();
}

void property_case(Case& c) {
    Machine m(c);
    Src& s = c.s;
    g_m = &m;
    m.used = 1 + (int)s.weighted({2, 1, 1});
    std::unique_ptr<Refs> refs[kEnvs];
    for (int i = 0; i < m.used; i++) {
        refs[i].reset(new Refs(g_env[i].env));
        g_env[i].refs = refs[i].get();
        g_env[i].slot = {};
        m.on(i, [&] {
            g_env[m.at].env->ExceptionClear();
            g_env[m.at].env->PushLocalFrame(0);
        });
    }
    for (size_t n = 2 + s.len(16); n-- > 0;) {
        m.on((int)s.below((uint32_t)m.used), [&] {
            for (size_t k = 1 + s.below(3); k-- > 0;) m.op();
        });
        if (m.used > 1 && s.chance(1, 3)) m.all();
    }
    m.all();
    for (int i = 0; i < m.used; i++)
        m.on(i, [&] {
            refs[m.at].reset();
            g_env[m.at].env->ExceptionClear();
            m.pend({}, -1);
            m.verify();
            g_env[m.at].env->PopLocalFrame(nullptr);
        });
    for (auto& k : m.pool) g_env[0].env->DeleteGlobalRef(k.g);
    c.nontrivial = m.replaced || m.apart;
}
