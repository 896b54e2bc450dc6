// C17: monitors.
#include <unistd.h>
#include "jvmutil.hpp"
#include <atomic>
#include <chrono>
#include <jnivm/bytebuffer.h>
#include <sched.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C17";
const char* const kRule =
    "two to four attached threads and one to four objects (native objects, copies of them, strings, arrays, classes, throwables); half of the cases are driven step by step: a "
    "thread enters or leaves a monitor through a random kind of reference, a thread which must wait must not get in before the owner has left as often as it entered, and then one "
    "of the waiting threads must get in; the other half run freely with several monitors held at a time, each guarding an owner variable and a counter that nothing else "
    "protects; non-trivial: a thread waited for a monitor entered more than once, or two threads contend with different kinds of references; identity: the draws";

struct Thing : Object {};
constexpr int kThreads = 4;
static Worker* g_worker[kThreads];
void property_setup() {
    for (int i = 0; i < kThreads; i++) g_worker[i] = new Worker;
}

struct Mon {
    jobject ref[5];  // global, weak, global of weak, weak of global, another global
    int owner = -1, depth = 0;
    std::string what;
    long count = 0;  // guarded by nothing but the monitor
    int in = -1;
};
static const char* kKinds[] = {"local", "global", "weak", "global of weak", "weak of global", "other global"};

struct Thread {
    JNIEnv* env = nullptr;
    std::atomic<bool> entered{false};
    bool waiting = false;
    int on = -1;
    bool bad = false;
    jint ret = 0;
};

struct Machine {
    Case& c;
    Src& s;
    VM vm;
    std::vector<Mon> mons;
    Thread th[kThreads];
    int used = 2;
    explicit Machine(Case& c) : c(c), s(c.s) {}

    jint enter(int t, int x, int kind) {
        JNIEnv* e = th[t].env;
        jobject o = kind ? mons[(size_t)x].ref[kind - 1] : e->NewLocalRef(mons[(size_t)x].ref[0]);
        jint r = e->MonitorEnter(o);
        if (!kind) e->DeleteLocalRef(o);
        return r;
    }
    jint leave(int t, int x, int kind) {
        JNIEnv* e = th[t].env;
        jobject o = kind ? mons[(size_t)x].ref[kind - 1] : e->NewLocalRef(mons[(size_t)x].ref[0]);
        jint r = e->MonitorExit(o);
        if (!kind) e->DeleteLocalRef(o);
        return r;
    }
    // may t wait for x without a cycle of waiting threads
    bool may_wait(int t, int x) {
        int o = mons[(size_t)x].owner;
        for (int n = 0; n <= kThreads; n++) {
            if (o == t) return false;
            if (o < 0 || !th[o].waiting) return true;
            o = mons[(size_t)th[o].on].owner;
        }
        return false;
    }
    void nobody_slipped_in(const char* when) {
        for (int t = 0; t < used; t++)
            if (th[t].waiting)
                PBT_CHECK(c, !th[t].entered, "thread %d got into the monitor of %d %s, while thread %d is in it (%d)", t, th[t].on, when, mons[(size_t)th[t].on].owner, mons[(size_t)th[t].on].depth);
    }
    void do_enter(int t, int x, int kind) {
        Mon& m = mons[(size_t)x];
        PBT_NOTE(c, "thread %d enters %d through a %s%s", t, x, kKinds[kind], m.owner < 0 ? "" : m.owner == t ? " again" : " and waits");
        if (m.owner < 0 || m.owner == t) {
            jint r = -1;
            g_worker[t]->run([&] { r = enter(t, x, kind); });
            PBT_CHECK(c, r == JNI_OK, "MonitorEnter fails");
            m.owner = t;
            m.depth++;
        } else {
            if (m.depth > 1) c.nontrivial = true;
            th[t].entered = false;
            th[t].waiting = true;
            th[t].on = x;
            g_worker[t]->start([this, t, x, kind] {
                th[t].ret = enter(t, x, kind);
                th[t].entered = true;
            });
            auto until = std::chrono::steady_clock::now() + std::chrono::microseconds(s.chance(1, 4) ? 1000 : 60);
            while (std::chrono::steady_clock::now() < until && !th[t].entered) sched_yield();
        }
    }
    void do_leave(int t, int x, int kind) {
        Mon& m = mons[(size_t)x];
        nobody_slipped_in("before it was left");
        PBT_NOTE(c, "thread %d leaves %d through a %s%s", t, x, kKinds[kind], m.depth > 1 ? ", being still in it" : "");
        jint r = -1;
        m.depth--;
        g_worker[t]->run([&] { r = leave(t, x, kind); });
        PBT_CHECK(c, r == JNI_OK, "MonitorExit fails");
        if (m.depth) {
            sched_yield();
            return;
        }
        m.owner = -1;
        bool any = false;
        for (int w = 0; w < used; w++) any |= th[w].waiting && th[w].on == x;
        if (!any) return;
        // one of those who wait gets in (otherwise the case hangs, which is reported)
        for (int spin = 0; m.owner < 0; spin++) {
            for (int w = 0; w < used; w++)
                if (th[w].waiting && th[w].on == x && th[w].entered) {
                    m.owner = w;
                    m.depth = 1;
                    th[w].waiting = false;
                    g_worker[w]->finish();
                    PBT_CHECK(c, th[w].ret == JNI_OK, "MonitorEnter fails");
                    PBT_NOTE(c, "thread %d got %d", w, x);
                    break;
                }
            if (spin > 100) sched_yield();
            if (spin > 100000) usleep(100);
        }
        nobody_slipped_in("together with another");
    }
    void stepwise() {
        for (size_t n = 4 + s.len(60); n-- > 0;) {
            std::vector<int> idle;
            for (int t = 0; t < used; t++)
                if (!th[t].waiting) idle.push_back(t);
            int t = s.pick(idle), x = (int)s.below((uint32_t)mons.size());
            Mon& m = mons[(size_t)x];
            int kind = (int)s.below(6);
            if (m.owner == t && s.chance(1, 2))
                do_leave(t, x, kind);
            else if (m.owner < 0 || m.owner == t || may_wait(t, x))
                do_enter(t, x, kind);
            nobody_slipped_in("too early");
        }
        for (;;) {
            bool left = false;
            for (size_t x = 0; x < mons.size(); x++)
                while (mons[x].owner >= 0 && !th[mons[x].owner].waiting) {
                    do_leave(mons[x].owner, (int)x, (int)s.below(6));
                    left = true;
                }
            if (!left) break;
        }
        // a free monitor can be entered by anybody
        for (size_t x = 0; x < mons.size(); x++) {
            int t = (int)s.below((uint32_t)used);
            do_enter(t, (int)x, (int)s.below(6));
            do_leave(t, (int)x, (int)s.below(6));
        }
    }
    struct Op {
        int what, x, kind;  // 0 enter, 1 leave, 2 yield
    };
    void freely() {
        std::vector<std::vector<Op>> prog((size_t)used);
        std::vector<long> want(mons.size(), 0);
        std::vector<unsigned> users(mons.size(), 0), kinds(mons.size(), 0);
        for (int t = 0; t < used; t++)
            for (size_t n = 1 + s.len(12); n-- > 0;) {
                // monitors are taken in ascending order and left in any
                std::vector<int> held;
                std::vector<int> in(mons.size(), 0);
                for (size_t x = s.below((uint32_t)mons.size()); x < mons.size(); x++) {
                    for (size_t k = 1 + s.below(3); k-- > 0;) {
                        Op o{0, (int)x, (int)s.below(6)};
                        prog[(size_t)t].push_back(o);
                        held.push_back((int)x);
                        users[x] |= 1u << t;
                        kinds[x] |= 1u << o.kind;
                        want[x]++;
                        PBT_NOTE(c, "thread %d: enter %d through a %s", t, o.x, kKinds[o.kind]);
                    }
                    if (s.chance(2, 3)) break;
                }
                while (!held.empty()) {
                    if (s.chance(1, 4)) prog[(size_t)t].push_back({2, 0, 0});
                    size_t i = s.below((uint32_t)held.size());
                    Op o{1, held[i], (int)s.below(6)};
                    held.erase(held.begin() + (long)i);
                    prog[(size_t)t].push_back(o);
                    PBT_NOTE(c, "thread %d: leave %d through a %s", t, o.x, kKinds[o.kind]);
                }
            }
        for (size_t x = 0; x < mons.size(); x++)
            if ((users[x] & (users[x] - 1)) && (kinds[x] & (kinds[x] - 1))) c.nontrivial = true;
        std::atomic<int> ready{0};
        for (int t = 0; t < used; t++)
            g_worker[t]->start([&, t] {
                ready++;
                while (ready < used) sched_yield();
                std::vector<int> depth(mons.size(), 0);
                auto inside = [&] {
                    for (size_t x = 0; x < mons.size(); x++)
                        if (depth[x] && mons[x].in != t) th[t].bad = true;
                };
                for (auto& o : prog[(size_t)t]) {
                    size_t x = (size_t)o.x;
                    switch (o.what) {
                        case 0:
                            if (enter(t, o.x, o.kind) != JNI_OK) th[t].bad = true;
                            if (depth[x]++ == 0) mons[x].in = t;
                            mons[x].count++;
                            break;
                        case 1:
                            inside();
                            if (--depth[x] == 0) mons[x].in = -1;
                            if (leave(t, o.x, o.kind) != JNI_OK) th[t].bad = true;
                            break;
                        default: sched_yield();
                    }
                    inside();
                }
            });
        for (int t = 0; t < used; t++) g_worker[t]->finish();
        for (int t = 0; t < used; t++) PBT_CHECK(c, !th[t].bad, "another thread was inside a monitor of thread %d", t);
        for (size_t x = 0; x < mons.size(); x++) PBT_CHECK(c, mons[x].count == want[x] && mons[x].in == -1, "the monitor of %zu was entered %ld times and counted %ld", x, want[x], mons[x].count);
    }
};

void property_case(Case& c) {
    Src& s = c.s;
    Machine m(c);
    JNIEnv* env = m.vm.GetJNIEnv();
    JavaVM* java = m.vm.GetJavaVM();
    bool step = s.chance(1, 2);
    m.used = 2 + (int)s.below(3);
    env->PushLocalFrame(0);
    std::vector<std::shared_ptr<Thing>> things;
    std::vector<std::shared_ptr<Object>> keep;
    Refs refs(env);
    jenv(env)->GetClass<Thing>("p/Thing");
    auto add = [&](jobject o, const char* what) {
        Mon x;
        x.what = what;
        keep.push_back(native<Object>(env, o));
        for (int k = 0; k < 5; k++) x.ref[k] = refs.make(o, k == 4 ? 2 : k + 2);
        PBT_NOTE(c, "object %zu: %s", m.mons.size(), what);
        m.mons.push_back(x);
    };
    static char buf[8];
    for (size_t n = 1 + s.below(4); n-- > 0;) switch (s.weighted({5, 2, 1, 1, 1, 1, 1})) {
            case 0:
                things.push_back(std::make_shared<Thing>());
                add(local(env, things.back()), "a native object");
                break;
            case 1:
                if (things.empty()) {
                    things.push_back(std::make_shared<Thing>());
                    add(local(env, things.back()), "a native object");
                }
                things.push_back(std::make_shared<Thing>(*things.back()));
                add(local(env, things.back()), "a copy of the last native object");
                break;
            case 2: add(env->NewStringUTF("s"), "a string"); break;
            case 3: add(env->NewIntArray(1), "an array"); break;
            case 4: add(env->FindClass(m.mons.size() & 1 ? "p/Thing" : "p/Other"), m.mons.size() & 1 ? "class p/Thing" : "class p/Other"); break;
            case 5:
                env->ThrowNew(env->FindClass("java/lang/Throwable"), "x");
                add(env->ExceptionOccurred(), "a throwable");
                env->ExceptionClear();
                break;
            default: add(env->NewDirectByteBuffer(buf, 8), "a buffer");
        }
    // (the same class may have been taken twice: then it is one monitor)
    for (size_t i = 0; i < m.mons.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (keep[i] == keep[j]) {
                keep.erase(keep.begin() + (long)i);
                m.mons.erase(m.mons.begin() + (long)i);
                i--;
                break;
            }
    for (int t = 0; t < m.used; t++)
        g_worker[t]->run([&] { PBT_CHECK(c, java->AttachCurrentThread(&m.th[t].env, nullptr) == JNI_OK, "attaching failed"); });
    PBT_NOTE(c, "%d threads, %s", m.used, step ? "step by step" : "freely");
    c.label(step ? "stepwise" : "free");
    step ? m.stepwise() : m.freely();
    for (int t = 0; t < m.used; t++) g_worker[t]->run([&] { java->DetachCurrentThread(); });
    env->PopLocalFrame(nullptr);
}
