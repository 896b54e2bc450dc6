// C28: hooks on the function tables.
#include "jvmutil.hpp"
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/string.h>
#include <jnivm/array.h>
#include <map>
#include <optional>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C28";
const char* const kRule =
    "histories over up to three VMs of five kinds (plain, initialised late, with environments of its own, fake-jni, Baron) and four threads: registering hooks which wrap or replace random entries of the native function table "
    "(some fail now and then, some scribble over the reserved entries), attaching and detaching threads, replacing entries of one environment's table or of a VM's invocation table (sometimes with foreign reserved values), "
    "calling entries of every environment through every pointer to it, destroying VMs; the chain of hooks which ran and the result are compared with a model, and so is the order in which the hooks of a VM were applied to "
    "each new environment; non-trivial: two environments which differ in their hooks, a chain of two hooks on one entry; identity: the draws";

enum { MAXK = 12, MAXI = 6 };
struct Log {
    int k, e;
    bool operator==(const Log& o) const { return k == o.k && e == o.e; }
};
static std::vector<Log> g_log;      // which wrappers ran
static std::vector<int> g_applied;  // which hooks were applied
static void* g_prev[MAXK + 1][32];
static bool g_replace[MAXK + 1][32];
static Case* g_c;

// Wrapper number K of the entry M
template <auto M, int E> struct Wrap;
template <class R, class... A, R (*JNINativeInterface::*M)(JNIEnv*, A...), int E> struct Wrap<M, E> {
    using F = R (*)(JNIEnv*, A...);
    template <int K> static R thunk(JNIEnv* e, A... a) {
        g_log.push_back({K, E});
        if (g_log.size() > 200) {
            g_c->flag("the wrapper %d calls itself", K);
            return R();
        }
        if (g_replace[K][E]) return R();
        return ((F)g_prev[K][E])(e, a...);
    }
    template <int... K> static F nth(int k, std::integer_sequence<int, K...>) {
        static const F f[] = {&thunk<K>...};
        return f[k];
    }
    static void apply(int k, JNINativeInterface& t) {
        void* p = (void*)(t.*M);
        if (!p) g_c->flag("the hook %d finds an empty entry %d", k, E);
        if (g_prev[k][E] && g_prev[k][E] != p) g_c->flag("the hook %d finds another entry %d than for an earlier environment of the same VM", k, E);
        g_prev[k][E] = p;
        t.*M = nth(k, std::make_integer_sequence<int, MAXK + 1>());
    }
};
// What a probe calls with
struct Args {
    jstring str;
    jintArray arr;
    jclass cls;
    jmethodID mid;
    jfieldID fid;
    jobject obj;
};
struct Entry {
    const char* name;
    void (*apply)(int k, JNINativeInterface& t);
    long (*call)(JNIEnv* e, const Args& a);
    long dflt;
    bool baron;  // Baron replaces the entry itself
};
static long gmid(JNIEnv* e, const Args& a) { return e->GetStaticMethodID(a.cls, "m", "(I)I") == a.mid; }
#define EN(i, N, dflt, baron, expr) {#N, &Wrap<&JNINativeInterface::N, i>::apply, [](JNIEnv* e, const Args& a) -> long { (void)a; return (long)(expr); }, dflt, baron}
static const Entry kEntries[] = {
    EN(0, GetVersion, JNI_VERSION_1_6, false, e->GetVersion()),
    EN(1, FindClass, 1, true, !!e->FindClass("java/lang/String")),
    EN(2, NewStringUTF, 1, false, !!e->NewStringUTF("abc")),
    EN(3, GetStringUTFLength, 6, false, e->GetStringUTFLength(a.str)),
    EN(4, ExceptionCheck, 0, false, e->ExceptionCheck()),
    EN(5, EnsureLocalCapacity, 0, false, e->EnsureLocalCapacity(3)),
    EN(6, GetArrayLength, 4, false, e->GetArrayLength(a.arr)),
    EN(7, NewIntArray, 1, false, !!e->NewIntArray(2)),
    EN(8, GetObjectRefType, JNILocalRefType, false, e->GetObjectRefType(a.obj)),
    EN(9, GetStaticMethodID, 1, true, gmid(e, a)),
    EN(10, CallStaticIntMethodA, 42, false, [&] { jvalue v; v.j = 0; v.i = 41; return e->CallStaticIntMethodA(a.cls, a.mid, &v); }()),
    EN(11, GetStaticIntField, 77, false, e->GetStaticIntField(a.cls, a.fid)),
    EN(12, IsSameObject, 1, false, e->IsSameObject(a.obj, a.obj)),
    EN(13, IsInstanceOf, 1, false, e->IsInstanceOf(a.str, a.cls) ? 0 : 1),
    EN(14, GetObjectClass, 1, false, !!e->GetObjectClass(a.str)),
    EN(15, NewLocalRef, 1, false, !!e->NewLocalRef(a.obj)),
    EN(16, PushLocalFrame, 0, false, e->PushLocalFrame(2)),
    EN(17, GetSuperclass, 1, false, (e->GetSuperclass(a.cls), 1)),
    EN(18, MonitorEnter, 0, false, e->MonitorEnter(a.obj)),
    EN(19, NewDirectByteBuffer, 1, false, !!e->NewDirectByteBuffer((void*)&kProperty, 4)),
};
enum { NE = sizeof kEntries / sizeof *kEntries, E_PUSH = 16, E_MONITOR = 18, E_INST = 13, E_SUPER = 17 };
static long zero_result(int e) { return e == E_INST || e == E_SUPER ? 1 : 0; }

// The invocation table
static void* g_iprev[MAXI][5];
static std::vector<Log> g_ilog;
template <int K> struct IWrap {
    static jint attach(JavaVM* v, JNIEnv** p, void* a) { g_ilog.push_back({K, 0}); return ((jint(*)(JavaVM*, JNIEnv**, void*))g_iprev[K][0])(v, p, a); }
    static jint detach(JavaVM* v) { g_ilog.push_back({K, 1}); return ((jint(*)(JavaVM*))g_iprev[K][1])(v); }
    static jint getenv_(JavaVM* v, void** p, jint n) { g_ilog.push_back({K, 2}); return ((jint(*)(JavaVM*, void**, jint))g_iprev[K][2])(v, p, n); }
    static jint daemon(JavaVM* v, JNIEnv** p, void* a) { g_ilog.push_back({K, 3}); return ((jint(*)(JavaVM*, JNIEnv**, void*))g_iprev[K][3])(v, p, a); }
    static jint destroy(JavaVM* v) { g_ilog.push_back({K, 4}); return ((jint(*)(JavaVM*))g_iprev[K][4])(v); }
    static void apply(JNIInvokeInterface& t, int mask) {
        g_iprev[K][0] = (void*)t.AttachCurrentThread;
        g_iprev[K][1] = (void*)t.DetachCurrentThread;
        g_iprev[K][2] = (void*)t.GetEnv;
        g_iprev[K][3] = (void*)t.AttachCurrentThreadAsDaemon;
        g_iprev[K][4] = (void*)t.DestroyJavaVM;
        if (mask & 1) t.AttachCurrentThread = attach;
        if (mask & 2) t.DetachCurrentThread = detach;
        if (mask & 4) t.GetEnv = getenv_;
        if (mask & 8) t.AttachCurrentThreadAsDaemon = daemon;
        if (mask & 16) t.DestroyJavaVM = destroy;
    }
};
static void iapply(int k, JNIInvokeInterface& t, int mask) {
    static void (*const f[])(JNIInvokeInterface&, int) = {IWrap<0>::apply, IWrap<1>::apply, IWrap<2>::apply, IWrap<3>::apply, IWrap<4>::apply, IWrap<5>::apply};
    f[k](t, mask);
}
static const char* const kInames[] = {"AttachCurrentThread", "DetachCurrentThread", "GetEnv", "AttachCurrentThreadAsDaemon", "DestroyJavaVM"};

// The kinds of VM
struct Late : VM {
    Late(bool null, const std::function<void(VM*)>& setup) : VM(true, null) {
        setup(this);
        initialize();
    }
    using VM::OverrideJNIInvokeInterface;
};
struct OwnEnv : ENV {
    using ENV::ENV;
    using ENV::OverrideJNINativeInterface;
};
struct Own : VM {
    Own(bool null, const std::function<void(VM*)>& setup) : VM(true, null) {
        setup(this);
        initialize();
    }
    std::shared_ptr<ENV> CreateEnv() override {
        auto t = GetNativeInterfaceTemplate();
        for (auto& h : jnienvhooks) h(t);
        return std::make_shared<OwnEnv>(this, t);
    }
    using VM::OverrideJNIInvokeInterface;
};
struct Fake : FakeJni::Jvm {
    Fake(bool null, const std::function<void(VM*)>& setup) : FakeJni::Jvm(true, null) {
        setup(this);
        initialize();
    }
    using jnivm::VM::OverrideJNIInvokeInterface;
    VM* vm() { return this; }
};
struct Thrown {};

struct Hook {
    int k;
    std::vector<int> entries;
    bool scribble = false;
    std::shared_ptr<int> fails;  // how many applications from now fail
};
struct Override {
    int k, mask;
};
struct M;  // a VM with its model
struct EnvM {
    JNIEnv* env = nullptr;
    std::vector<int> wraps[NE];  // outermost last
    std::vector<int> hooks;
};
struct M {
    int id, kind;
    bool null;
    std::unique_ptr<VM> plain;
    std::unique_ptr<Fake> fake;
    std::unique_ptr<Baron::Jvm> baron;
    VM* vm = nullptr;
    std::vector<Hook> hooks;
    std::vector<Override> inv;
    std::map<int, EnvM> envs;  // by thread
    bool isfake() const { return kind >= 3; }
    JavaVM* jvm(int way) {
        if (kind == 3 && way) return fake.get();
        if (kind == 4 && way) return baron.get();
        return vm->GetJavaVM();
    }
};

struct World {
    Case& c;
    Src& s;
    std::vector<std::unique_ptr<Worker>> w;
    std::vector<std::unique_ptr<M>> vms;
    int nextk = 0, nexti = 0, nextid = 0;
    bool differ = false, chain = false;
    int cells[16] = {};

    World(Case& c) : c(c), s(c.s) {
        for (int i = 0; i < 4; i++) w.emplace_back(new Worker);
    }
    ~World() {
        try {
            while (!vms.empty()) destroy(0);
        } catch (const pbt::Fail&) {
        } catch (...) {
            c.flag("destroying a VM throws");
        }
        g_log.clear();
    }
    std::optional<Hook> newhook() {
        if (nextk > MAXK - 1) return {};
        Hook h;
        h.k = nextk++;
        h.scribble = s.chance(1, 6);
        h.fails = std::make_shared<int>(0);
        memset(g_prev[h.k], 0, sizeof g_prev[h.k]);
        for (size_t n = 1 + s.below(4); n-- > 0;) {
            int e = s.chance(1, 2) ? (int)s.below(4) * 5 : (int)s.below(NE);
            bool rep = s.chance(1, 4);
            if (std::find(h.entries.begin(), h.entries.end(), e) != h.entries.end()) continue;
            h.entries.push_back(e);
            g_replace[h.k][e] = rep;
            PBT_NOTE(c, "  hook %d %s %s", h.k, rep ? "replaces" : "wraps", kEntries[e].name);
        }
        return h;
    }
    static void add(VM* vm, const Hook& h) {
        vm->AddHook([h](JNINativeInterface& t) {
            g_applied.push_back(h.k);
            if (*h.fails > 0) {
                --*h.fails;
                throw Thrown();
            }
            for (int e : h.entries) kEntries[e].apply(h.k, t);
            if (h.scribble) t.reserved0 = &t, t.reserved1 = (void*)&g_log, t.reserved2 = nullptr;
        });
    }
    // A new environment of m on thread t exists
    void created(M& m, int t, JNIEnv* e) {
        EnvM x;
        x.env = e;
        for (auto& h : m.hooks) {
            x.hooks.push_back(h.k);
            for (int en : h.entries) x.wraps[en].push_back(h.k);
        }
        for (auto& o : vms)
            for (auto& [ot, oe] : o->envs)
                if (oe.hooks != x.hooks) differ = true;
        PBT_CHECK(c, g_applied == x.hooks, "a new environment of VM %d had the hooks%s applied instead of%s", m.id, list(g_applied).c_str(), list(x.hooks).c_str());
        m.envs[t] = x;
    }
    static std::string list(const std::vector<int>& v) {
        std::string r;
        for (int i : v) r += " " + std::to_string(i);
        return r.empty() ? " none" : r;
    }
    static std::string list(const std::vector<Log>& v) {
        std::string r;
        for (auto& i : v) r += " " + std::to_string(i.k) + ":" + (i.e < NE ? kEntries[i.e].name : "?");
        return r.empty() ? " none" : r;
    }
    bool fakefree(int t) {
        for (auto& v : vms)
            if (v->isfake() && v->envs.count(t)) return false;
        return true;
    }
    void make() {
        if (vms.size() >= 3) return;
        auto m = std::make_unique<M>();
        m->id = nextid++;
        m->kind = (int)s.below(5);
        m->null = s.chance(1, 2);
        int t = (int)s.below(4);
        if (m->isfake() && !fakefree(t)) return;
        static const char* const kinds[] = {"plain", "late", "with its own environments", "fake-jni", "Baron"};
        PBT_NOTE(c, "VM %d: %s, on thread %d", m->id, kinds[m->kind], t);
        if (m->kind != 0)
            for (size_t n = s.below(4); n-- > 0;)
                if (auto h = newhook()) m->hooks.push_back(*h);
        g_applied.clear();
        M& r = *m;
        JNIEnv* e = nullptr;
        w[t]->run([&] {
            auto setup = [&](VM* vm) {
                for (auto& h : r.hooks) add(vm, h);
            };
            switch (r.kind) {
                case 0: r.plain.reset(new VM()); break;
                case 1: r.plain.reset(new Late(r.null, setup)); break;
                case 2: r.plain.reset(new Own(r.null, setup)); break;
                case 3: r.fake.reset(new Fake(r.null, setup)); break;
                default:
                    r.baron.reset(new Baron::Jvm([&](Baron::Jvm* j) { setup(VM::FromJavaVM(j)); }));
            }
            r.vm = r.plain ? r.plain.get() : r.fake ? r.fake->vm() : VM::FromJavaVM(r.baron.get());
            e = r.vm->GetJNIEnv();
        });
        vms.push_back(std::move(m));
        created(r, t, e);
        cells[0]++;
    }
    void hook(M& m) {
        PBT_NOTE(c, "VM %d: another hook", m.id);
        auto h = newhook();
        if (!h) return;
        g_applied.clear();
        add(m.vm, *h);
        PBT_CHECK(c, g_applied.empty(), "registering a hook applies it");
        m.hooks.push_back(*h);
        cells[1]++;
    }
    // the wrappers of an entry of the invocation table, outermost first
    std::vector<Log> ichain(M& m, int e) {
        std::vector<Log> r;
        for (size_t i = m.inv.size(); i-- > 0;)
            if (m.inv[i].mask >> e & 1) r.push_back({m.inv[i].k, e});
        return r;
    }
    // the wrappers called must start with these
    void icheck(M& m, int e) {
        auto want = ichain(m, e);
        auto n = [](const std::vector<Log>& v) {
            std::string r;
            for (auto& i : v) r += " " + std::to_string(i.k) + ":" + kInames[i.e];
            return r.empty() ? std::string(" none") : r;
        };
        PBT_CHECK(c, g_ilog.size() >= want.size() && std::equal(want.begin(), want.end(), g_ilog.begin()), "%s of VM %d went through%s instead of%s", kInames[e], m.id, n(g_ilog).c_str(), n(want).c_str());
        for (size_t i = want.size(); i < g_ilog.size(); i++)
            PBT_CHECK(c, g_ilog[i].e != e && std::any_of(m.inv.begin(), m.inv.end(), [&](auto& o) { return o.k == g_ilog[i].k; }), "%s of VM %d went through%s", kInames[e], m.id, n(g_ilog).c_str());
    }
    void attach(M& m, int t) {
        bool known = m.envs.count(t);
        if (!known && m.isfake() && !fakefree(t)) return;
        int how = (int)s.below(3), way = (int)s.below(2);
        int failing = -1;
        if (!known && !m.hooks.empty() && s.chance(1, 6)) {
            failing = (int)s.below((uint32_t)m.hooks.size());
            *m.hooks[failing].fails = 1;
        }
        PBT_NOTE(c, "thread %d: %s of VM %d%s", t, how == 0 ? "AttachCurrentThread" : how == 1 ? "GetEnv" : "AttachCurrentThreadAsDaemon", m.id, failing >= 0 ? ", a hook fails" : "");
        g_applied.clear();
        g_ilog.clear();
        JNIEnv* e = nullptr;
        jint rc = -9;
        bool threw = false;
        w[t]->run([&] {
            try {
                JavaVM* j = m.jvm(way);
                rc = how == 0 ? j->AttachCurrentThread(&e, nullptr) : how == 1 ? j->GetEnv((void**)&e, JNI_VERSION_1_6) : j->AttachCurrentThreadAsDaemon(&e, nullptr);
            } catch (const Thrown&) {
                threw = true;
            }
        });
        icheck(m, how == 0 ? 0 : how == 1 ? 2 : 3);
        if (failing >= 0) {
            PBT_CHECK(c, threw, "a hook failed, but attaching to VM %d did not", m.id);
            PBT_CHECK(c, (int)g_applied.size() == failing + 1, "%d hooks of VM %d were applied though the one at position %d failed", (int)g_applied.size(), m.id, failing);
            cells[2]++;
            return;
        }
        PBT_CHECK(c, !threw && rc == JNI_OK && e, "attaching to VM %d failed", m.id);
        if (known) {
            PBT_CHECK(c, g_applied.empty() && e == m.envs[t].env, "attaching again to VM %d makes a new environment", m.id);
            return;
        }
        created(m, t, e);
        cells[3]++;
    }
    void detach(M& m, int t) {
        if (!m.envs.count(t)) return;
        PBT_NOTE(c, "thread %d leaves VM %d", t, m.id);
        g_ilog.clear();
        int way = (int)s.below(2);
        w[t]->run([&] { m.jvm(way)->DetachCurrentThread(); });
        icheck(m, 1);
        m.envs.erase(t);
        cells[4]++;
    }
    // one environment's own table
    void ownoverride(M& m, int t) {
        if (m.kind != 2 || !m.envs.count(t)) return;
        auto h = newhook();
        if (!h) return;
        auto& x = m.envs[t];
        bool foreign = s.chance(1, 3), null = s.chance(1, 2);
        PBT_NOTE(c, "the table of VM %d on thread %d is replaced%s", m.id, t, foreign ? " with a foreign owner" : "");
        auto* oe = static_cast<OwnEnv*>(jenv(x.env));
        JNINativeInterface tab = *x.env->functions;
        for (int e : h->entries) kEntries[e].apply(h->k, tab);
        int dummy;
        if (foreign) tab.reserved0 = &dummy;
        else if (null) tab.reserved0 = nullptr;
        bool threw = false;
        try {
            oe->OverrideJNINativeInterface(tab);
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_CHECK(c, threw == foreign, "%s", foreign ? "a table of another environment is accepted" : "a table is refused");
        PBT_CHECK(c, jenv(x.env) == oe && oe->GetJNIEnv() == x.env && oe->GetVM() == m.vm, "replacing the table loses the environment");
        if (!foreign)
            for (int e : h->entries) x.wraps[e].push_back(h->k);
        cells[foreign ? 5 : 6]++;
    }
    void invoverride(M& m) {
        if (m.kind == 0 || m.kind == 4 || nexti >= MAXI) return;
        int k = nexti++, mask = 1 + (int)s.below(31);
        bool foreign = s.chance(1, 3), null = s.chance(1, 2);
        PBT_NOTE(c, "the invocation table of VM %d is replaced by %d (%d)%s", m.id, k, mask, foreign ? " with a foreign owner" : "");
        JNIInvokeInterface tab = *m.vm->GetJavaVM()->functions;
        iapply(k, tab, mask);
        int dummy;
        if (foreign) tab.reserved0 = &dummy;
        else if (null) tab.reserved0 = nullptr;
        tab.reserved1 = &g_ilog;
        bool threw = false;
        void* was = m.vm->GetJavaVM()->functions->reserved1;
        try {
            if (m.kind == 1) static_cast<Late*>(m.plain.get())->OverrideJNIInvokeInterface(tab);
            else if (m.kind == 2) static_cast<Own*>(m.plain.get())->OverrideJNIInvokeInterface(tab);
            else m.fake->OverrideJNIInvokeInterface(tab);
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_CHECK(c, threw == foreign, "%s", foreign ? "an invocation table of another VM is accepted" : "an invocation table is refused");
        PBT_CHECK(c, VM::FromJavaVM(m.vm->GetJavaVM()) == m.vm && VM::FromJavaVM(m.jvm(1)) == m.vm, "replacing the invocation table loses the VM");
        PBT_CHECK(c, m.vm->GetJavaVM()->functions->reserved1 == (foreign ? was : &g_ilog), "the reserved entry of the invocation table is not what was set");
        if (!foreign) m.inv.push_back({k, mask});
        cells[foreign ? 7 : 8]++;
    }
    void destroyfn(M& m) {
        PBT_NOTE(c, "DestroyJavaVM of VM %d is called", m.id);
        g_ilog.clear();
        if (ichain(m, 4).empty()) return;
        m.jvm((int)s.below(2))->DestroyJavaVM();
        icheck(m, 4);
    }
    void probe(M& m, int t) {
        auto it = m.envs.find(t);
        if (it == m.envs.end()) return;
        EnvM& x = it->second;
        uint32_t first = s.below(NE), n = 1 + s.below(NE);
        int way = (int)s.below(4);
        PBT_NOTE(c, "thread %d: %u entries from %s of VM %d are called", t, n, kEntries[first].name, m.id);
        w[t]->run([&] {
            JNIEnv* e = x.env;
            std::unique_ptr<FakeJni::JniEnvContext> ctx;
            switch (way) {
                case 0: e = m.vm->GetJNIEnv(); break;
                case 1: e = m.vm->GetEnv()->GetJNIEnv(); break;
                case 2:
                    if (m.isfake()) {
                        ctx.reset(new FakeJni::JniEnvContext());
                        e = &ctx->getJniEnv();
                    }
                    break;
                default: break;
            }
            static const JNINativeInterface raw = VM::GetNativeInterfaceTemplate<false>();
            raw.PushLocalFrame(x.env, 0);
            ENV* je = jenv(x.env);
            PBT_CHECK(c, je->GetVM() == m.vm && ENV::FromJNIEnv(e) == je, "an environment of VM %d belongs to another VM", m.id);
            PBT_CHECK(c, e->functions->reserved0 == je, "the environment is not the owner of its table");
            auto k = je->GetClass("c28/K");
            k->HookGetterFunction(je, "f", [](ENV*, jnivm::Class*) -> jint { return 77; });
            if (k->methods.empty()) k->Hook(je, "m", [](ENV*, jnivm::Class*, jint v) -> jint { return v + 1; });
            Args a;
            auto str = std::make_shared<jnivm::String>("gr\xc3\xbc\xc3\x9f");
            a.str = (jstring)local(x.env, str);
            auto arr = std::make_shared<jnivm::Array<jint>>(4);
            a.arr = (jintArray)local(x.env, arr);
            a.obj = local(x.env, std::make_shared<jnivm::Object>());
            a.cls = (jclass)local(x.env, k);
            a.mid = raw.GetStaticMethodID(x.env, a.cls, "m", "(I)I");
            a.fid = raw.GetStaticFieldID(x.env, a.cls, "f", "I");
            for (uint32_t i = 0; i < n; i++) {
                int en = (int)((first + i) % NE);
                std::vector<Log> want;
                long res = kEntries[en].dflt;
            
                bool through = true;
                if (!(m.kind == 4 && kEntries[en].baron)) {
                    auto& ws = x.wraps[en];
                    for (size_t z = ws.size(); z-- > 0 && through;) {
                        want.push_back({ws[z], en});
                        if (g_replace[ws[z]][en]) through = false, res = zero_result(en);
                    }
                }
                if (want.size() >= 2) chain = true;
                g_log.clear();
                long got = kEntries[en].call(e, a);
                // the entries may use each other
                auto has = [&](const Log& l) {
                    auto& ws = x.wraps[l.e];
                    return std::find(ws.begin(), ws.end(), l.k) != ws.end();
                };
                PBT_CHECK(c, g_log.size() >= want.size() && std::equal(want.begin(), want.end(), g_log.begin()), "%s of VM %d on thread %d went through%s instead of%s", kEntries[en].name, m.id, t, list(g_log).c_str(), list(want).c_str());
                for (size_t z = want.size(); z < g_log.size(); z++)
                    PBT_CHECK(c, g_log[z].e != en && has(g_log[z]), "%s of VM %d on thread %d went through%s instead of%s", kEntries[en].name, m.id, t, list(g_log).c_str(), list(want).c_str());
                if (g_log.size() == want.size()) PBT_CHECK(c, got == res, "%s of VM %d on thread %d gives %ld instead of %ld", kEntries[en].name, m.id, t, got, res);
                if (en == E_PUSH && through) raw.PopLocalFrame(x.env, nullptr);
                if (en == E_MONITOR && through) raw.MonitorExit(x.env, a.obj);
                PBT_CHECK(c, !je->current_exception, "%s of VM %d leaves an exception", kEntries[en].name, m.id);
            }
            raw.PopLocalFrame(x.env, nullptr);
        });
        cells[9]++;
    }
    void destroy(size_t i) {
        M& m = *vms[i];
        PBT_NOTE(c, "VM %d is destroyed", m.id);
        while (!m.envs.empty()) {
            int t = m.envs.begin()->first;
            w[t]->run([&] { m.jvm(0)->DetachCurrentThread(); });
            m.envs.erase(t);
        }
        g_applied.clear();
        vms.erase(vms.begin() + (long)i);
        cells[10]++;
    }
    void check_templates() {
        for (int i = 0; i < 2; i++) {
            JNINativeInterface t = i ? VM::GetNativeInterfaceTemplate<true>() : VM::GetNativeInterfaceTemplate<false>();
            g_log.clear();
            PBT_CHECK(c, t.GetVersion(nullptr) == JNI_VERSION_1_6 && g_log.empty(), "the default table is changed by hooks");
        }
    }
};

void property_case(Case& c) {
    g_c = &c;
    memset(g_prev, 0, sizeof g_prev);
    memset(g_replace, 0, sizeof g_replace);
    Src& s = c.s;
    World w(c);
    w.make();
    for (size_t n = 2 + s.len(40); n-- > 0;) {
        if (w.vms.empty()) w.make();
        if (w.vms.empty()) continue;
        M& m = *s.pick(w.vms);
        int t = (int)s.below(4);
        switch (s.weighted({2, 4, 8, 4, 2, 2, 1, 10, 1})) {
            case 0: w.make(); break;
            case 1: w.hook(m); break;
            case 2: w.attach(m, t); break;
            case 3: w.detach(m, t); break;
            case 4: w.ownoverride(m, t); break;
            case 5: w.invoverride(m); break;
            case 6: w.destroyfn(m); break;
            case 7:
                if (!m.envs.empty() && !m.envs.count(t)) t = m.envs.begin()->first;
                w.probe(m, t);
                break;
            default: {
                size_t i = s.below((uint32_t)w.vms.size());
                w.destroy(i);
            }
        }
        PBT_CHECK(c, !c.failed, "%s", c.msg.c_str());
    }
    // every environment that is left
    for (auto& m : w.vms)
        for (int t = 0; t < 4; t++) w.probe(*m, t);
    w.check_templates();
    static const char* const names[] = {"VM made", "hook added", "failing hook", "attached", "detached", "foreign table refused", "own table", "foreign invocation table refused", "own invocation table", "probed", "destroyed"};
    for (int i = 0; i < 11; i++)
        if (w.cells[i]) c.label(names[i]);
    c.nontrivial = w.differ && w.chain;
}
