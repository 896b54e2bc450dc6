// C26: scoped contexts, local frames and thread ends of the fake-jni interface.
#include "jvmutil.hpp"
#include <baron/baron.h>
#include <deque>
#include <fake-jni/fake-jni.h>
using namespace FakeJni;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C26";
const char* const kRule =
    "a random program of up to 60 statements, nested up to 7 deep: scoped contexts and local frames (with and without a VM), references made by several means, exceptions thrown "
    "through any number of scopes, explicit attaching, detaching and frames, threads (alone or two at once) which inherit nothing and may end attached, further VMs on attached and "
    "on unattached threads, contexts of another VM, native methods called through the JNI and main methods whose body is such a program; after every statement the current "
    "environment, the VM's view of the thread and the life of every object are compared with a model of the thread; non-trivial: an exception or a thread end went through a scope "
    "which attached the thread or held references; identity: the draws";

class Thing : public JObject {
public:
    DEFINE_CLASS_NAME("c26/Thing")
    JInt n = 0;
};
BEGIN_NATIVE_DESCRIPTOR(Thing)
{Constructor<Thing>{}},
END_NATIVE_DESCRIPTOR

enum Kind { REF, GREF, CTX, CTX0, FRAME, FRAME0, PUSH, THROW, TRY, SPAWN, PAR, ATTACH, DETACH, NEWVM, START, NATIVE, GETCLASS, DELREF, ENV0, PEND, CLEAR, kKinds };
struct Node {
    Kind k;
    int a = 0, b = 0;
    std::vector<Node> body, body2;
};
struct Thrown {
    int id;
};

struct Gen {
    Case& c;
    Src& s;
    int budget;
    int threads = 0;
    void line(int depth, const char* what, int a = -1) {
        if (c.trace) c.note("%*s%s %d", depth * 2, "", what, a);
    }
    std::vector<Node> block(int depth, bool par) {
        std::vector<Node> r;
        for (size_t n = 1 + s.below(5); n-- > 0 && budget > 0;) {
            budget--;
            Node x;
            static const char* names[] = {"reference", "global reference", "context of", "default context", "frame of", "default frame", "push frame", "throw", "try", "thread", "two threads", "attach to", "detach", "new VM", "start", "native call", "getClass", "delete reference", "current env", "pending exception", "clear exception"};
            x.k = (Kind)s.weighted({10, 3, 8, 4, 8, 5, 3, 3, 4, 2, 1, 3, 3, 2, 2, 3, 2, 3, 2, 3, 2});
            if (depth >= 7 && x.k != REF && x.k != THROW && x.k != DETACH) x.k = REF;
            if ((x.k == SPAWN || x.k == PAR) && (threads >= 3 || par)) x.k = CTX;
            if (x.k == START && par) x.k = NATIVE;
            x.a = (int)s.below(4);
            x.b = (int)s.below(4);
            line(depth, names[x.k], x.a * 10 + x.b);
            if (x.k == SPAWN) threads++;
            if (x.k == PAR) threads += 2;
            bool inpar = par || x.k == PAR;
            switch (x.k) {
                case CTX: case CTX0: case FRAME: case FRAME0: case PUSH: case TRY: case SPAWN: case PAR: case NEWVM: case START: case NATIVE:
                    x.body = block(depth + 1, inpar);
                    break;
                default: break;
            }
            if (x.k == PAR) {
                line(depth, "and");
                x.body2 = block(depth + 1, inpar);
            }
            r.push_back(std::move(x));
        }
        return r;
    }
};

// The errors of every thread; the first one is reported
static std::mutex g_err_mtx;
static std::string g_err;
static bool g_nontrivial;
__attribute__((format(printf, 1, 2))) static void bad(const char* fmt, ...) {
    std::lock_guard<std::mutex> l(g_err_mtx);
    if (!g_err.empty()) return;
    char b[600];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    g_err = b;
}
static void nontrivial() {
    std::lock_guard<std::mutex> l(g_err_mtx);
    g_nontrivial = true;
}
#define OK(cond, ...)                  \
    do {                               \
        if (!(cond)) bad(__VA_ARGS__); \
    } while (0)

// Opens up what a user of fake-jni cannot name, to ask whether the VM knows the thread
struct TestJvm : Jvm {
    TestJvm() : Jvm() {}
};
struct Vm {
    std::unique_ptr<Jvm> jvm;
    int id;
    std::function<void()> on_native;  // what the hooked method runs (the calling thread's)
};
using Objs = std::vector<std::pair<std::weak_ptr<JObject>, jobject>>;
static thread_local std::function<void()>* t_native;

struct Attached {
    Vm* vm = nullptr;
    Env* env = nullptr;
    std::deque<Objs> frames;  // the last one is the current one
    int holders = 0;          // scopes which hold the environment
    int pending = 0;          // the exception which is pending there: 0 none, 1.. by ThrowNew, 101.. a Thrown
};

struct Run {
    std::vector<Vm*> vms;  // the visible ones
    Attached at;           // empty: not attached
    std::vector<std::pair<std::weak_ptr<JObject>, jobject>> globals;
    std::vector<std::weak_ptr<JObject>> dead;

    void check(const char* when) {
        Env* cur = JniEnv::getCurrentEnv();
        OK(cur == at.env, "%s: the current environment is %s", when, !cur ? "gone" : !at.env ? "still there" : "another one");
        for (Vm* v : vms) {
            auto p = jnivm::VM::FromJavaVM(v->jvm.get())->GetEnv().get();
            jnivm::ENV* e = at.vm == v ? jnivm::ENV::FromJNIEnv(at.env) : nullptr;
            OK(p == e, "%s: VM %d %s", when, v->id, e ? "does not know the environment of the thread" : "has an environment of a thread which is not attached to it");
        }
        if (at.env) {
            OK(&at.env->getVM() == at.vm->jvm.get(), "%s: the environment belongs to another VM", when);
            OK(at.env->GetVersion() == JNI_VERSION_1_6, "%s: the environment does not work", when);
            int p = pending();
            OK(p == at.pending, "%s: %s", when, !p ? "the pending exception is gone" : !at.pending ? "an exception is pending" : "another exception is pending");
        }
        for (auto& f : at.frames)
            for (auto& o : f) {
                auto l = o.first.lock();
                OK(l, "%s: an object died in its frame", when);
                if (l) OK(at.env->resolveReference(o.second) == l, "%s: a reference names another object", when);
            }
        for (auto& w : dead) OK(w.expired(), "%s: an object outlives its frame or the thread's environment", when);
        dead.clear();
    }
    // Which exception is pending in the current environment
    int pending() {
        if (!at.env->ExceptionCheck()) return 0;
        jthrowable t = at.env->ExceptionOccurred();
        auto th = jnivm::JNITypes<std::shared_ptr<jnivm::Throwable>>::JNICast(jnivm::ENV::FromJNIEnv(at.env), t);
        int r = -1;
        if (th && th->except) try {
                std::rethrow_exception(th->except);
            } catch (const Thrown& x) {
                r = 101 + x.id;
            } catch (const std::exception& x) {
                r = atoi(x.what());
            }
        at.env->DeleteLocalRef(t);
        return r;
    }
    void end_frame() {
        for (auto& o : at.frames.back()) dead.push_back(o.first);
        at.frames.pop_back();
    }
    void attached(Vm* v) {
        at.vm = v;
        at.env = JniEnv::getCurrentEnv();
        OK(at.env, "attaching the thread makes no environment");
        at.frames.assign(1, {});
        at.holders = 0;
    }
    void detached() {
        for (auto& f : at.frames)
            for (auto& o : f) dead.push_back(o.first);
        at = {};
    }
    // runs a body in a scope; an exception is remembered and goes on after the model has been updated
    template <class F> void scope(F&& f) {
        try {
            f();
        } catch (Thrown&) {
            after();
            throw;
        }
        after();
    }
    std::vector<std::function<void()>> closers;
    void after() {
        auto f = std::move(closers.back());
        closers.pop_back();
        f();
    }

    void block(const std::vector<Node>& b) {
        for (auto& n : b) {
            stmt(n);
            check("afterwards");
        }
    }
    void refs_in_scope() {
        for (auto& f : at.frames)
            if (!f.empty()) nontrivial();
    }
    void thread(const std::vector<Node>& b, std::vector<std::weak_ptr<JObject>>& left) {
        Run r;
        r.vms = vms;
        r.check("in a new thread");
        try {
            r.block(b);
        } catch (Thrown&) {
            nontrivial();
        }
        r.check("at the end of a thread");
        r.drop_globals();
        for (auto& f : r.at.frames)
            for (auto& o : f) left.push_back(o.first);
        if (r.at.env && !r.at.frames[0].empty()) nontrivial();
    }
    void drop_globals() {
        if (globals.empty()) return;
        // every VM of a global reference outlives the scope of the list
        globals.clear();
    }
    Vm* vm(int a) { return vms[(size_t)a % vms.size()]; }

    void stmt(const Node& n) {
        switch (n.k) {
            case REF: {
                if (!at.env) return;
                std::shared_ptr<JObject> o = n.b % 2 ? std::make_shared<JObject>() : std::static_pointer_cast<JObject>(std::make_shared<JString>("x"));
                jobject r = at.env->createLocalReference(o);
                if (n.b == 3) r = at.env->NewLocalRef(r);
                at.frames.back().push_back({o, r});
                return;
            }
            case DELREF: {
                if (!at.env || at.frames.back().empty()) return;
                auto& f = at.frames.back();
                auto& o = f[(size_t)n.a % f.size()];
                auto l = o.first.lock();
                // once or twice, as many as there are
                if (!l) return;
                while (l.use_count() > 1) {
                    long u = l.use_count();
                    at.env->DeleteLocalRef(o.second);
                    if (l.use_count() == u) {
                        bad("DeleteLocalRef keeps the object");
                        return;
                    }
                }
                f.erase(f.begin() + (long)((size_t)n.a % f.size()));
                return;
            }
            case GREF: {
                if (!at.env) return;
                auto o = std::make_shared<JObject>();
                std::weak_ptr<JObject> w = o;
                jobject g = at.vm->jvm->createGlobalReference(o);
                o = nullptr;
                OK(w.lock(), "a global reference does not keep its object");
                OK(at.env->resolveReference(g) == w.lock(), "a global reference resolves to something else");
                at.env->DeleteGlobalRef(g);
                OK(w.expired(), "an object survives its global reference");
                return;
            }
            case ENV0: {
                JniEnvContext ctx;
                if (at.env) {
                    OK(&ctx.getJniEnv() == at.env, "the default context has another environment");
                } else {
                    try {
                        ctx.getJniEnv();
                        bad("the default context has an environment on an unattached thread");
                    } catch (const std::runtime_error&) {
                    }
                }
                return;
            }
            case CTX: case FRAME: {
                Vm* v = vm(n.a);
                if (at.env && at.vm != v) {
                    // the thread belongs to another VM
                    try {
                        if (n.k == CTX) {
                            JniEnvContext ctx(*v->jvm);
                            bad("a context of a VM the thread cannot be attached to has %s", &ctx.getJniEnv() == at.env ? "the environment of the other VM" : "an environment");
                        } else {
                            LocalFrame f(*v->jvm, n.b);
                            bad("a frame of a VM the thread cannot be attached to has %s", &f.getJniEnv() == at.env ? "the environment of the other VM" : "an environment");
                        }
                    } catch (const std::runtime_error&) {
                    }
                    return;
                }
                bool attaches = !at.env;
                Env* was = at.env;
                bool frame = n.k == FRAME;
                // declared before the scope, so that it ends after it
                auto body = [&](JniEnvContext& ctx) {
                    if (attaches) attached(v);
                    OK(&ctx.getJniEnv() == at.env, "the environment of the context is not the one of the thread");
                    at.holders++;
                    if (frame) at.frames.push_back({});
                    closers.push_back([this, frame, attaches, was] {
                        at.holders--;
                        if (frame) end_frame();
                        if (attaches) detached();
                        else OK(at.env == was, "harness: unbalanced");
                    });
                    check("in the scope");
                    try {
                        block(n.body);
                    } catch (Thrown&) {
                        if (attaches || !at.frames.back().empty()) nontrivial();
                        throw;
                    }
                    OK(&ctx.getJniEnv() == at.env, "the environment of the context changed");
                };
                scope([&] {
                    if (frame) {
                        LocalFrame f(*v->jvm, n.b);
                        body(f);
                    } else {
                        JniEnvContext ctx(*v->jvm);
                        body(ctx);
                    }
                });
                return;
            }
            case CTX0: {
                bool was = at.env;
                scope([&] {
                    JniEnvContext ctx;
                    if (was) {
                        OK(&ctx.getJniEnv() == at.env, "the default context has another environment");
                        at.holders++;
                    }
                    closers.push_back([this, was] {
                        if (was) at.holders--;
                    });
                    block(n.body);
                });
                return;
            }
            case FRAME0: {
                if (!at.env) {
                    try {
                        LocalFrame f(n.b);
                        bad("a default frame can be made on an unattached thread");
                    } catch (const std::runtime_error&) {
                    }
                    return;
                }
                scope([&] {
                    LocalFrame f(n.b);
                    OK(&f.getJniEnv() == at.env, "the default frame has another environment");
                    at.holders++;
                    at.frames.push_back({});
                    closers.push_back([this] {
                        at.holders--;
                        end_frame();
                    });
                    block(n.body);
                });
                return;
            }
            case PUSH: {
                if (!at.env) return;
                Env* e = at.env;
                scope([&] {
                    OK(e->PushLocalFrame(n.b) == JNI_OK, "PushLocalFrame fails");
                    at.holders++;
                    at.frames.push_back({});
                    closers.push_back([this, e] {
                        e->PopLocalFrame(nullptr);
                        at.holders--;
                        end_frame();
                    });
                    block(n.body);
                });
                return;
            }
            case THROW: throw Thrown{n.a};
            case PEND: {
                if (!at.env) return;
                jclass c = at.env->FindClass("c26/Thing");
                at.env->ThrowNew(c, std::to_string(at.pending = 1 + n.a).c_str());
                at.env->DeleteLocalRef(c);
                return;
            }
            case CLEAR:
                if (!at.env) return;
                at.env->ExceptionClear();
                at.pending = 0;
                return;
            case TRY:
                try {
                    block(n.body);
                } catch (Thrown&) {
                    check("after the exception");
                }
                return;
            case SPAWN: {
                std::vector<std::weak_ptr<JObject>> left;
                std::thread([&] { thread(n.body, left); }).join();
                for (auto& w : left) OK(w.expired(), "a reference outlives the thread which made it");
                return;
            }
            case PAR: {
                std::vector<std::weak_ptr<JObject>> left, left2;
                std::thread t([&] { thread(n.body, left); });
                std::thread([&] { thread(n.body2, left2); }).join();
                t.join();
                for (auto& w : left) OK(w.expired(), "a reference outlives the thread which made it");
                for (auto& w : left2) OK(w.expired(), "a reference outlives the thread which made it");
                return;
            }
            case ATTACH: {
                Vm* v = vm(n.a);
                if (at.env && at.vm != v) return;
                JNIEnv* e = nullptr;
                jint r = n.b < 2 ? v->jvm->AttachCurrentThread(&e, nullptr) : n.b == 2 ? v->jvm->AttachCurrentThreadAsDaemon(&e, nullptr) : static_cast<JavaVM&>(*v->jvm).GetEnv((void**)&e, JNI_VERSION_1_6);
                OK(r == JNI_OK && e, "attaching fails");
                if (!at.env) attached(v);
                OK(jnivm::ENV::FromJNIEnv(e) == jnivm::ENV::FromJNIEnv(at.env), "attaching again gives another environment");
                return;
            }
            case DETACH:
                if (!at.env || at.holders) return;
                OK(at.vm->jvm->DetachCurrentThread() == JNI_OK, "detaching fails");
                detached();
                return;
            case NEWVM: new_vm(n); return;
            case GETCLASS: {
                Thing t;
                try {
                    auto& c = t.getClass();
                    OK(at.env, "getClass works on an unattached thread");
                    OK(c.getName() == "c26/Thing", "the class is %s", c.getName().c_str());
                } catch (const std::runtime_error& e) {
                    OK(!at.env, "getClass: %s", e.what());
                }
                return;
            }
            case NATIVE: {
                if (!at.env) return;
                Env* e = at.env;
                int before = at.holders;
                at.holders++;
                bool ran = false, thrown = false;
                std::function<void()> f = [&] {
                    ran = true;
                    try {
                        block(n.body);
                    } catch (Thrown& x) {
                        thrown = true;
                        at.pending = 101 + x.id;
                        refs_in_scope();
                        throw;
                    }
                };
                jclass c = e->FindClass("c26/Caller");
                jmethodID m = c ? e->GetStaticMethodID(c, "call", "()V") : nullptr;
                if (!m) {
                    at.holders--;
                    return bad("the method of the VM is not found");
                }
                auto* saved = t_native;
                t_native = &f;
                e->CallStaticVoidMethod(c, m);
                t_native = saved;
                at.holders--;
                OK(at.holders == before, "harness: unbalanced");
                OK(ran, "the method did not run");
                if (thrown) OK(e->ExceptionCheck(), "an exception thrown by the method is not pending");
                check("after the call");
                if (n.a % 2) {
                    e->ExceptionClear();
                    at.pending = 0;
                }
                e->DeleteLocalRef(c);
                return;
            }
            case START: {
                Vm* v = vm(n.a);
                bool attaches = !at.env;
                if (!attaches && at.vm != v) {
                    // not the thread's VM
                    return;
                }
                if (n.b == 3) {
                    fresh_start(n);
                    return;
                }
                int runs = 0;
                bool thrown = false;
                auto args = std::make_shared<JArray<JString>>((jsize)n.b);
                for (int i = 0; i < n.b; i++) (*args)[i] = std::make_shared<JString>("arg" + std::to_string(i));
                bool dflt = n.b == 0;
                auto main = [&](const std::shared_ptr<JArray<JString>>& a) {
                    runs++;
                    if (attaches) attached(v);
                    OK(JniEnv::getCurrentEnv() == at.env && at.env, "main runs without the environment of its thread");
                    if (dflt) {
                        OK(a && a->getSize() == 1 && (std::string) * std::shared_ptr<JString>((*a)[0]) == "main", "the default arguments are wrong");
                    } else {
                        OK(a == args, "main gets other arguments");
                    }
                    at.frames.push_back({});
                    at.holders++;
                    // the frame ends when start does
                    try {
                        block(n.body);
                    } catch (Thrown& x) {
                        thrown = true;
                        at.pending = 101 + x.id;
                        refs_in_scope();
                        at.holders--;
                        throw;
                    }
                    thrown = at.pending;
                    at.holders--;
                };
                bool was = at.env;
                {
                    // registering a method needs an environment
                    JniEnvContext ctx(*v->jvm);
                    if (n.a % 2)
                        createMainMethod(*v->jvm, [&main](std::shared_ptr<JArray<JString>> a) { main(a); });
                    else
                        createMainMethod(*v->jvm, [&main](JArray<JString>* a) { main(std::dynamic_pointer_cast<JArray<JString>>(a->shared_from_this())); });
                }
                OK((bool)JniEnv::getCurrentEnv() == was, "registering the main method changes the attachment");
                bool failed = false;
                try {
                    if (dflt) v->jvm->start();
                    else v->jvm->start(args);
                } catch (...) {
                    failed = true;
                }
                OK(runs == 1, "main ran %d times", runs);
                OK(failed == thrown, "%s", thrown ? "an exception of main is lost" : "start fails without an exception of main");
                if (runs) {
                    end_frame();
                    if (attaches) detached();
                }
                check("after start");
                if (at.env && n.a % 2) {
                    at.env->ExceptionClear();
                    at.pending = 0;
                }
                // not to be run again
                {
                    JniEnvContext ctx(*v->jvm);
                    createMainMethod(*v->jvm, [](std::shared_ptr<JArray<JString>>) { bad("a replaced main method runs"); });
                }
                return;
            }
            default: return;
        }
    }
    // A VM nobody registered a main method in
    void fresh_start(const Node& n) {
        if (at.env) return;
        std::unique_ptr<Jvm> j = n.a % 2 ? std::make_unique<Jvm>() : std::unique_ptr<Jvm>(new Baron::Jvm());
        if (n.a / 2) j->DetachCurrentThread();
        bool was = (bool)JniEnv::getCurrentEnv();
        try {
            j->start();
            bad("a VM without main starts");
        } catch (const std::runtime_error&) {
        }
        OK((bool)JniEnv::getCurrentEnv() == was, "a failed start changes the attachment of the thread");
    }
    static std::unique_ptr<Jvm> make(int kind) {
        switch (kind) {
            case 0: return std::make_unique<Jvm>();
            case 1: return std::unique_ptr<Jvm>(new Baron::Jvm());
            case 2: return std::unique_ptr<Jvm>(new Baron::Jvm([](Baron::Jvm* j) { j->denyClass("none"); }));
            default: return std::make_unique<TestJvm>();
        }
    }
    static void prepare(Vm& v) {
        JniEnvContext ctx(*v.jvm);
        auto e = jnivm::ENV::FromJNIEnv(&ctx.getJniEnv());
        e->GetClass("c26/Caller")->Hook(e, "call", [] {
            auto f = t_native;
            if (!f) return bad("a method of nobody was called");
            (*f)();
        });
        v.jvm->registerClass<Thing>();
    }
    void new_vm(const Node& n) {
        if (at.env) {
            try {
                auto j = make(n.a);
                bad("a second VM can be made on an attached thread");
            } catch (const std::runtime_error&) {
            }
            check("after a second VM was refused");
            OK(at.env->FindClass("c26/Caller"), "the first VM is not usable any more");
            return;
        }
        Vm v;
        v.id = (int)vms.size();
        v.jvm = make(n.a);
        vms.push_back(&v);
        attached(&v);
        prepare(v);
        check("in a new VM");
        scope([&] {
            closers.push_back([this, &v] {
                if (at.vm == &v) detached();
                vms.pop_back();
                v.jvm.reset();
            });
            block(n.body);
        });
    }
};

static void root(const std::vector<Node>& prog, int kind, bool detach) {
    Run r;
    Vm v;
    v.id = 0;
    v.jvm = Run::make(kind);
    r.vms.push_back(&v);
    r.attached(&v);
    Run::prepare(v);
    if (detach) {
        v.jvm->DetachCurrentThread();
        r.detached();
    }
    r.check("at the start");
    try {
        r.block(prog);
    } catch (Thrown&) {
        r.check("after an exception");
    }
    std::vector<std::weak_ptr<JObject>> left;
    for (auto& f : r.at.frames)
        for (auto& o : f) left.push_back(o.first);
    if (r.at.vm == &v) r.detached();
    v.jvm.reset();
    for (auto& w : left) OK(w.expired(), "an object outlives its VM");
    OK(!JniEnv::getCurrentEnv(), "an environment outlives its VM");
}

void property_case(Case& c) {
    Src& s = c.s;
    g_err.clear();
    g_nontrivial = false;
    int kind = (int)s.below(4);
    bool detach = s.chance(1, 3), own = s.chance(1, 6);
    Gen g{c, s, (int)(6 + s.len(60))};
    auto prog = g.block(0, false);
    if (own)
        std::thread([&] { root(prog, kind, detach); }).join();
    else
        root(prog, kind, detach);
    c.nontrivial = g_nontrivial;
    if (!g_err.empty()) c.fail("%s", g_err.c_str());
}
