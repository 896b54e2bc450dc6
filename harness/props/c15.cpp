// C15: one environment per attached thread.
#include "jvmutil.hpp"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C15";
const char* const kRule =
    "a history by up to four threads on a VM or a FakeJni VM: attaching (again) by any entry, asking for the environment by any entry, installing table hooks, making and "
    "deleting local and global references to shared objects, pushing and popping frames, throwing and clearing, looking up classes, members and statics, calling hooked "
    "functions, detaching (again), and attaching again; after every step the thread's environment, table, pending exception and the life of every object are compared with a "
    "model; non-trivial: a thread detached while holding objects of which some survived and some did not, and a thread attached again; identity: the draws";

struct Thing : Object {};
constexpr int kThreads = 4;
static Worker* g_worker[kThreads];
void property_setup() {
    for (int i = 1; i < kThreads; i++) g_worker[i] = new Worker;
}
template <int K> static jint version(JNIEnv*) { return 100 + K; }
template <int K> static jint capacity(JNIEnv*, jint) { return 200 + K; }
using V = jint (*)(JNIEnv*);
using Cap = jint (*)(JNIEnv*, jint);
static const V kVersion[] = {version<0>, version<1>, version<2>, version<3>};
static const Cap kCap[] = {capacity<0>, capacity<1>, capacity<2>, capacity<3>};

struct Obj {
    std::shared_ptr<Thing> own;
    std::weak_ptr<Thing> w;
    std::vector<jobject> globals;
};
struct Thread {
    bool attached = false;
    bool was = false;
    JNIEnv* env = nullptr;
    int version = -1, cap = -1;  // -1: the VM's own
    std::vector<std::vector<std::pair<int, jobject>>> frames;
    int pending = 0;
};
static thread_local ENV* t_called;

struct Machine {
    Case& c;
    Src& s;
    bool fake;
    std::unique_ptr<VM> plain;
    std::unique_ptr<FakeJni::Jvm> jvm;
    VM* vm;
    JavaVM* java;
    std::vector<Obj> objs;
    Thread th[kThreads];
    int used, at = 0;
    int hook_version = -1, hook_cap = -1, next = 1;
    jint own_version = 0, own_cap = 0;
    bool mixed = false, again = false;
    static jint g_static;
    explicit Machine(Case& c) : c(c), s(c.s) {}

    template <class F> void on(int i, F f) {
        at = i;
        if (i)
            g_worker[i]->run(f);
        else
            f();
    }
    bool held(size_t x, int but = -1) {
        if (objs[x].own || !objs[x].globals.empty()) return true;
        for (int t = 0; t < used; t++)
            if (t != but)
                for (auto& f : th[t].frames)
                    for (auto& l : f)
                        if (l.first == (int)x) return true;
        return false;
    }
    void lives() {
        for (size_t x = 0; x < objs.size(); x++)
            PBT_CHECK(c, objs[x].w.expired() == !held(x), "object %zu is %s after a step of thread %d", x, held(x) ? "destroyed, though referred to" : "alive, though nothing refers to it", at);
    }
    void verify() {
        Thread& t = th[at];
        if (!t.attached) return;
        JNIEnv* e = nullptr;
        PBT_CHECK(c, java->GetEnv((void**)&e, JNI_VERSION_1_6) == JNI_OK && e == t.env, "thread %d: GetEnv yields another environment", at);
        PBT_CHECK(c, vm->GetEnv().get() == jenv(t.env) && vm->GetJNIEnv() == t.env, "thread %d: the VM yields another environment", at);
        for (int i = 0; i < used; i++) PBT_CHECK(c, i == at || !th[i].attached || th[i].env != t.env, "threads %d and %d have the same environment", i, at);
        if (fake) PBT_CHECK(c, static_cast<ENV*>(FakeJni::JniEnv::getCurrentEnv()) == jenv(t.env), "thread %d: the current FakeJni environment is another one", at);
        PBT_CHECK(c, e->GetVersion() == (t.version < 0 ? own_version : 100 + t.version), "thread %d: GetVersion yields %d, hook %d", at, e->GetVersion(), t.version);
        PBT_CHECK(c, e->EnsureLocalCapacity(1) == (t.cap < 0 ? own_cap : 200 + t.cap), "thread %d: EnsureLocalCapacity yields %d, hook %d", at, e->EnsureLocalCapacity(1), t.cap);
        PBT_CHECK(c, e->ExceptionCheck() == (t.pending ? JNI_TRUE : JNI_FALSE), "thread %d: an exception is%s pending", at, t.pending ? " not" : "");
        if (t.pending) {
            e->PushLocalFrame(0);
            auto x = native<jnivm::Throwable>(e, e->ExceptionOccurred());
            std::string w;
            try {
                if (x) std::rethrow_exception(x->except);
            } catch (const std::exception& ex) {
                w = ex.what();
            }
            PBT_CHECK(c, w == std::to_string(t.pending), "thread %d: exception %s is pending instead of %d", at, w.c_str(), t.pending);
            e->PopLocalFrame(nullptr);
        }
    }
    // picks a live object and adds a local reference to it
    void local_ref(int x) {
        Thread& t = th[at];
        jobject l = s.chance(1, 2) && !objs[x].globals.empty() ? t.env->NewLocalRef(objs[x].globals[0]) : local(t.env, objs[x].w.lock());
        t.frames.back().push_back({x, l});
    }
    void attach() {
        Thread& t = th[at];
        JNIEnv* e = nullptr;
        int how = (int)s.below(3);
        PBT_NOTE(c, "thread %d attaches (%d)%s", at, how, t.attached ? " again" : "");
        jint r = how == 0 ? java->AttachCurrentThread(&e, nullptr) : how == 1 ? java->AttachCurrentThreadAsDaemon(&e, nullptr) : java->GetEnv((void**)&e, JNI_VERSION_1_6);
        PBT_CHECK(c, r == JNI_OK && e, "attaching failed");
        if (t.attached) {
            PBT_CHECK(c, e == t.env, "attaching again yields another environment");
            return;
        }
        if (t.was) again = true;
        t.attached = t.was = true;
        t.env = e;
        t.frames = {{}};
        t.pending = 0;
        t.version = hook_version;
        t.cap = hook_cap;
    }
    void detach() {
        Thread& t = th[at];
        PBT_NOTE(c, "thread %d detaches%s", at, t.attached ? "" : ", though it is not attached");
        if (t.attached) {
            bool live = false, dead = false;
            for (auto& f : t.frames)
                for (auto& l : f) (held((size_t)l.first, at) ? live : dead) = true;
            if (live && dead) mixed = true;
        }
        PBT_CHECK(c, java->DetachCurrentThread() == JNI_OK, "detaching failed");
        t.attached = false;
        t.frames.clear();
        t.pending = 0;
    }
    void op() {
        Thread& t = th[at];
        if (!t.attached) {
            s.chance(1, 8) ? detach() : attach();
            return;
        }
        JNIEnv* e = t.env;
        int x = objs.empty() ? -1 : (int)s.below((uint32_t)objs.size());
        if (x >= 0 && objs[x].w.expired()) x = -1;
        switch (s.weighted({2, 2, 2, 4, 2, 2, 2, 2, 2, 2, 2, 1})) {
            case 0: attach(); break;
            case 1:
                if (s.chance(1, 2)) detach();
                break;
            case 2: {  // a hook alters the tables of environments made later
                int k = (int)s.below(4);
                bool cap = s.chance(1, 2);
                PBT_NOTE(c, "hook %s %d", cap ? "EnsureLocalCapacity" : "GetVersion", k);
                if (cap) {
                    hook_cap = k;
                    vm->AddHook([k](JNINativeInterface& i) { i.EnsureLocalCapacity = kCap[k]; });
                } else {
                    hook_version = k;
                    vm->AddHook([k](JNINativeInterface& i) { i.GetVersion = kVersion[k]; });
                }
                break;
            }
            case 3: {  // a new object or a local reference to an existing one
                if (x < 0 || s.chance(1, 3)) {
                    Obj o;
                    o.own = std::make_shared<Thing>();
                    o.w = o.own;
                    objs.push_back(o);
                    x = (int)objs.size() - 1;
                }
                PBT_NOTE(c, "thread %d: local reference to %d", at, x);
                local_ref(x);
                break;
            }
            case 4:
                if (x < 0 || !objs[x].own) break;
                PBT_NOTE(c, "drop the owner of %d", x);
                objs[x].own = nullptr;
                break;
            case 5: {  // delete a local reference
                auto& f = t.frames.back();
                if (f.empty()) break;
                size_t i = s.below((uint32_t)f.size());
                PBT_NOTE(c, "thread %d: delete a local reference to %d", at, f[i].first);
                e->DeleteLocalRef(f[i].second);
                f.erase(f.begin() + (long)i);
                break;
            }
            case 6:
                if (t.frames.size() < 4 && s.chance(2, 3)) {
                    PBT_NOTE(c, "thread %d: push", at);
                    PBT_CHECK(c, e->PushLocalFrame((jint)s.below(s.chance(1, 4) ? 300 : 4)) == 0, "PushLocalFrame failed");
                    t.frames.push_back({});
                } else if (t.frames.size() > 1) {
                    auto f = t.frames.back();
                    t.frames.pop_back();
                    if (f.empty() || s.chance(1, 2)) {
                        PBT_NOTE(c, "thread %d: pop", at);
                        e->PopLocalFrame(nullptr);
                    } else {
                        auto l = s.pick(f);
                        PBT_NOTE(c, "thread %d: pop, keeping %d", at, l.first);
                        jobject r = e->PopLocalFrame(l.second);
                        t.frames.back().push_back({l.first, r});
                    }
                }
                break;
            case 7:  // global references are the same everywhere
                if (x < 0) break;
                if (objs[x].globals.empty() || s.chance(1, 2)) {
                    PBT_NOTE(c, "thread %d: global reference to %d", at, x);
                    jobject src;
                    bool own = false;
                    if (!objs[x].globals.empty() && s.chance(1, 2))
                        src = objs[x].globals[0];
                    else {
                        e->PushLocalFrame(0);
                        src = local(e, objs[x].w.lock());
                        own = true;
                    }
                    jobject g = e->NewGlobalRef(src);
                    if (own) e->PopLocalFrame(nullptr);
                    PBT_CHECK(c, g && e->GetObjectRefType(g) == JNIGlobalRefType, "no global reference was made");
                    objs[x].globals.push_back(g);
                } else {
                    size_t i = s.below((uint32_t)objs[x].globals.size());
                    PBT_NOTE(c, "thread %d: delete a global reference to %d", at, x);
                    PBT_CHECK(c, native<Thing>(e, objs[x].globals[i]) == objs[x].w.lock(), "a global reference yields another object");
                    e->DeleteGlobalRef(objs[x].globals[i]);
                    objs[x].globals.erase(objs[x].globals.begin() + (long)i);
                }
                break;
            case 8:
                if (t.pending) {
                    PBT_NOTE(c, "thread %d: clear", at);
                    e->ExceptionClear();
                    t.pending = 0;
                } else {
                    t.pending = next++;
                    PBT_NOTE(c, "thread %d: throw %d", at, t.pending);
                    e->PushLocalFrame(0);
                    e->ThrowNew(e->FindClass("java/lang/Throwable"), std::to_string(t.pending).data());
                    e->PopLocalFrame(nullptr);
                }
                break;
            case 9: {  // classes and members are the same everywhere
                e->PushLocalFrame(0);
                static const char* names[] = {"p/A", "p/B", "p/C"};
                int n = (int)s.below(3);
                jclass cl = e->FindClass(names[n]);
                PBT_CHECK(c, cl && native<jnivm::Class>(e, cl) == cls[n], "thread %d: class %s is another one", at, names[n]);
                jmethodID m = e->GetStaticMethodID(cl, "f", "()I");
                jfieldID f = e->GetStaticFieldID(cl, "v", "I");
                PBT_CHECK(c, m == method[n] && f == field[n], "thread %d: a member of %s is another one", at, names[n]);
                t_called = nullptr;
                jint r = e->CallStaticIntMethod(cl, m);
                PBT_CHECK(c, r == 10 + n && t_called == jenv(e), "thread %d: a hooked function ran with another environment", at);
                jint v = g_static;
                PBT_CHECK(c, e->GetStaticIntField(cl, f) == v, "thread %d: a static field differs", at);
                e->SetStaticIntField(cl, f, v + 1);
                e->PopLocalFrame(nullptr);
                PBT_CHECK(c, g_static == v + 1, "thread %d: a static field was not written", at);
                break;
            }
            case 10: {  // the locals still are what they were
                for (auto& f : t.frames)
                    for (auto& l : f) {
                        PBT_CHECK(c, e->GetObjectRefType(l.second) == JNILocalRefType, "thread %d: a local reference is none", at);
                        PBT_CHECK(c, native<Thing>(e, l.second) == objs[l.first].w.lock(), "thread %d: a local reference yields another object", at);
                    }
                break;
            }
            default:
                if (fake) {  // the scoped way of attaching; the thread stays attached, and the frame is released
                    std::weak_ptr<Thing> w;
                    {
                        FakeJni::LocalFrame f(*jvm);
                        PBT_CHECK(c, static_cast<ENV*>(&f.getJniEnv()) == jenv(e), "thread %d: a LocalFrame has another environment", at);
                        auto o = std::make_shared<Thing>();
                        w = o;
                        local(e, o);
                    }
                    PBT_CHECK(c, w.expired(), "thread %d: a LocalFrame did not release its references", at);
                }
        }
    }
    std::shared_ptr<jnivm::Class> cls[3];
    jmethodID method[3];
    jfieldID field[3];
};
jint Machine::g_static;

void property_case(Case& c) {
    Src& s = c.s;
    Machine m(c);
    m.fake = s.chance(1, 3);
    m.used = 1 + (int)s.weighted({1, 3, 2, 2});
    if (m.fake) {
        m.jvm.reset(new FakeJni::Jvm);
        m.vm = VM::FromJavaVM(m.jvm.get());
        m.java = m.jvm.get();
    } else {
        m.plain.reset(new VM(false, s.chance(1, 2)));
        m.vm = m.plain.get();
        m.java = m.vm->GetJavaVM();
    }
    // the thread which made the VM is attached
    JNIEnv* env = m.vm->GetJNIEnv();
    m.th[0].attached = m.th[0].was = true;
    m.th[0].env = env;
    m.th[0].frames = {{}};
    m.own_version = env->GetVersion();
    m.own_cap = env->EnsureLocalCapacity(1);
    PBT_NOTE(c, "%s, %d threads", m.fake ? "FakeJni VM" : "VM", m.used);
    env->PushLocalFrame(0);
    for (int i = 0; i < 3; i++) {
        static const char* names[] = {"p/A", "p/B", "p/C"};
        ENV* e = jenv(env);
        m.cls[i] = e->GetClass(names[i]);
        m.cls[i]->Hook(e, "f", [i](ENV* e) {
            t_called = e;
            return (jint)(10 + i);
        });
        m.cls[i]->Hook(e, "v", &Machine::g_static);
        m.method[i] = env->GetStaticMethodID(env->FindClass(names[i]), "f", "()I");
        m.field[i] = env->GetStaticFieldID(env->FindClass(names[i]), "v", "I");
    }
    env->PopLocalFrame(nullptr);
    for (size_t i = 4 + s.len(60); i-- > 0;) {
        m.on((int)s.below((uint32_t)m.used), [&] {
            for (size_t k = 1 + s.below(2); k-- > 0;) m.op();
            m.verify();
        });
        m.lives();
    }
    for (int i = 0; i < m.used; i++) m.on(i, [&] { m.verify(); });
    for (int i = m.used - 1; i >= 0; i--) {
        m.on(i, [&] {
            if (m.th[m.at].attached || s.chance(1, 2)) m.detach();
        });
        m.lives();
    }
    for (auto& k : m.cls) k = nullptr;
    m.jvm.reset();
    m.plain.reset();
    for (auto& o : m.objs) {
        o.own = nullptr;
        PBT_CHECK(c, o.w.expired(), "an object outlives the VM and every owner");
    }
    c.nontrivial = m.mixed && m.again;
}
