// C05: reference histories against a model of frames, globals and weak references.
#include "jvmutil.hpp"
#include "jnitable.hpp"
#include <jnivm/string.h>
#include <map>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C05";
const char* const kRule =
    "a history of creating objects (plain, string, array), copying references of every kind, deleting them, pushing and popping frames (with and without a result), "
    "passing objects through hooked functions and dropping or taking native ownership, against a model which knows who holds each object; the set of living objects is "
    "compared after every step; non-trivial: an object died, a frame was popped and a global or weak reference was deleted; identity: the draws";

static uint64_t g_alive;  // one bit per object of the case
static void died(int id) { g_alive &= ~(1ull << id); }
struct TObj : jnivm::Object {
    int id = -1;
    ~TObj() { died(id); }
};
struct TStr : jnivm::String {
    int id = -1;
    TStr() : jnivm::String("text") {}
    ~TStr() { died(id); }
};
struct TArr : jnivm::Array<jint> {
    int id = -1;
    TArr() : jnivm::Array<jint>(3) {}
    ~TArr() { died(id); }
};

static jclass g_cls[3], g_hooks;
static jmethodID g_pass, g_drop, g_two;
static std::shared_ptr<jnivm::Object> g_kept;
static VM* g_vm;
static void setup() {
    g_vm = new VM();
    ENV* e = g_vm->GetEnv().get();
    JNIEnv* env = g_vm->GetJNIEnv();
    e->GetClass<TObj>("test/TObj");
    e->GetClass<TStr>("test/TStr");
    e->GetClass<TArr>("test/TArr");
    const char* n[] = {"test/TObj", "test/TStr", "test/TArr"};
    for (int i = 0; i < 3; i++) g_cls[i] = env->FindClass(n[i]);
    auto h = e->GetClass("test/Hooks");
    h->Hook(e, "pass", [](std::shared_ptr<jnivm::Object> o) { return o; });
    h->Hook(e, "drop", [](std::shared_ptr<jnivm::Object> o) {});
    h->Hook(e, "two", [](std::shared_ptr<jnivm::Object> a, std::shared_ptr<jnivm::Object> b) { return b ? b : a; });
    g_hooks = env->FindClass("test/Hooks");
    g_pass = env->GetStaticMethodID(g_hooks, "pass", "(Ljava/lang/Object;)Ljava/lang/Object;");
    g_drop = env->GetStaticMethodID(g_hooks, "drop", "(Ljava/lang/Object;)V");
    g_two = env->GetStaticMethodID(g_hooks, "two", "(Ljava/lang/Object;Ljava/lang/Object;)Ljava/lang/Object;");
}

namespace {
struct Ref {
    jobject h;
    int obj;
    bool weak;
};
struct Model {
    std::vector<std::vector<int>> frames{1};
    std::vector<Ref> refs;  // global and weak references
    std::vector<bool> owned;
    std::vector<jobject> addr;
    bool held(int o) const {
        if (owned[o]) return true;
        for (auto& f : frames)
            for (int x : f)
                if (x == o) return true;
        for (auto& r : refs)
            if (!r.weak && r.obj == o) return true;
        return false;
    }
};
}  // namespace

static void run(Case& c, JNIEnv* env) {
    Src& s = c.s;
    Model m;
    std::vector<std::shared_ptr<jnivm::Object>> own;
    std::vector<int> type;
    std::map<jobject, int> now;
    g_alive = 0;
    uint64_t model_alive = 0;
    bool popped = false, deleted = false, dead = false;
    size_t steps = 16 + s.len(80);
    auto alive = [&](int o) { return (bool)(model_alive >> o & 1); };
    // any reference which may be used now: {handle, object or -1 when it is null or dead}
    struct Use {
        jobject h;
        int obj;
        const char* kind;
    };
    auto pick = [&]() -> Use {
        std::vector<Use> u;
        for (size_t o = 0; o < own.size(); o++)
            if (alive((int)o)) u.push_back({m.addr[o], (int)o, "local"});
        for (auto& r : m.refs)
            if (!r.weak) u.push_back({r.h, r.obj, "global"});
            else u.push_back({r.h, alive(r.obj) ? r.obj : -1, alive(r.obj) ? "weak" : "dead weak"});
        u.push_back({nullptr, -1, "null"});
        return u[s.below((uint32_t)u.size())];
    };
    auto made_local = [&](jobject got, const Use& u, const char* what) {
        if (u.obj < 0) {
            PBT_CHECK(c, got == nullptr, "%s of a %s reference is not null", what, u.kind);
            return;
        }
        PBT_CHECK(c, got == m.addr[u.obj], "%s of a %s reference to object %d gave another object", what, u.kind, u.obj);
        m.frames.back().push_back(u.obj);
    };
    auto sync = [&](const char* what) {
        for (size_t o = 0; o < own.size(); o++)
            if (alive((int)o) && !m.held((int)o)) {
                model_alive &= ~(1ull << o);
                dead = true;
            }
        if (g_alive != model_alive)
            for (size_t o = 0; o < own.size(); o++) {
                bool real = g_alive >> o & 1;
                PBT_CHECK(c, real == alive((int)o), "after %s object %zu is %s although %s", what, o, real ? "alive" : "destroyed",
                          alive((int)o) ? "something refers to it" : "nothing refers to it");
            }
    };
    struct Cleanup {
        JNIEnv* env;
        Model& m;
        ~Cleanup() {
            for (auto& r : m.refs) {
                if (r.weak) env->DeleteWeakGlobalRef((jweak)r.h);
                else env->DeleteGlobalRef(r.h);
            }
            for (size_t i = 0; i < m.frames.size(); i++) env->PopLocalFrame(nullptr);
        }
    } cleanup{env, m};
    for (size_t i = 0; i < steps; i++) {
        char what[120];
        int op = (int)s.weighted({6, 5, 5, 5, 5, 4, 4, 4, 5, 4, 4, 3, 3, 3, 2});
        switch (op) {
            case 0: {  // a new object, owned by native code or only by its first reference
                if (own.size() >= 24) continue;
                int id = (int)own.size(), t = s.below(3);
                bool keep = s.chance(1, 2);
                jobject l;
                std::shared_ptr<jnivm::Object> o;
                g_alive |= 1ull << id;
                model_alive |= 1ull << id;
                if (t == 0) {
                    auto x = std::make_shared<TObj>();
                    x->id = id;
                    l = local(env, x);
                    o = x;
                } else if (t == 1) {
                    auto x = std::make_shared<TStr>();
                    x->id = id;
                    l = local(env, x);
                    o = x;
                } else {
                    auto x = std::make_shared<TArr>();
                    x->id = id;
                    l = local(env, x);
                    o = x;
                }
                type.push_back(t);
                m.addr.push_back(l);
                m.owned.push_back(keep);
                own.push_back(keep ? o : nullptr);
                m.frames.back().push_back(id);
                snprintf(what, sizeof(what), "creating object %d (type %d, %s)", id, t, keep ? "native owner" : "local only");
                break;
            }
            case 1: {
                Use u = pick();
                snprintf(what, sizeof(what), "NewLocalRef(%s %d)", u.kind, u.obj);
                made_local(env->NewLocalRef(u.h), u, "NewLocalRef");
                if (u.obj >= 0 && s.chance(1, 40)) {  // many of them
                    int n = (int)s.below(300);
                    snprintf(what, sizeof(what), "%d times NewLocalRef(%s %d)", n + 1, u.kind, u.obj);
                    while (n-- > 0) made_local(env->NewLocalRef(u.h), u, "NewLocalRef");
                    c.label("many local references at once");
                }
                break;
            }
            case 2:
            case 3: {
                Use u = pick();
                bool weak = op == 3;
                snprintf(what, sizeof(what), "New%sGlobalRef(%s %d)", weak ? "Weak" : "", u.kind, u.obj);
                jobject g = weak ? env->NewWeakGlobalRef(u.h) : env->NewGlobalRef(u.h);
                PBT_CHECK(c, (g == nullptr) == (u.obj < 0), "%s returned %s", what, g ? "a reference" : "null");
                if (g) {
                    for (auto& r : m.refs) PBT_CHECK(c, r.h != g, "%s returned a reference which is in use", what);
                    m.refs.push_back({g, u.obj, weak});
                    if (s.chance(1, 60))
                        for (int n = (int)s.below(100); n-- > 0;) {  // many of them
                            jobject h = weak ? env->NewWeakGlobalRef(u.h) : env->NewGlobalRef(u.h);
                            for (auto& r : m.refs) PBT_CHECK(c, r.h != h, "%s returned a reference which is in use", what);
                            m.refs.push_back({h, u.obj, weak});
                        }
                    PBT_CHECK(c, env->GetObjectRefType(g) == (weak ? JNIWeakGlobalRefType : JNIGlobalRefType), "%s has reference kind %d", what, env->GetObjectRefType(g));
                }
                break;
            }
            case 4: {  // delete a local reference which exists
                std::vector<int> c1;
                for (auto& f : m.frames)
                    for (int x : f) c1.push_back(x);
                if (c1.empty()) continue;
                int o = c1[s.below((uint32_t)c1.size())];
                snprintf(what, sizeof(what), "DeleteLocalRef(%d)", o);
                for (size_t f = m.frames.size(); f-- > 0;) {
                    auto it = std::find(m.frames[f].begin(), m.frames[f].end(), o);
                    if (it != m.frames[f].end()) {
                        m.frames[f].erase(it);
                        break;
                    }
                }
                env->DeleteLocalRef(m.addr[o]);
                deleted = true;
                if (c1.size() > 40 && s.chance(1, 2)) {  // some of many, in a random order
                    int n = (int)s.below((uint32_t)c1.size());
                    snprintf(what, sizeof(what), "%d times DeleteLocalRef", n + 1);
                    for (; n-- > 0;) {
                        c1.clear();
                        for (auto& f : m.frames)
                            for (int x : f) c1.push_back(x);
                        if (c1.empty()) break;
                        o = c1[s.below((uint32_t)c1.size())];
                        for (size_t f = m.frames.size(); f-- > 0;) {
                            auto it = std::find(m.frames[f].begin(), m.frames[f].end(), o);
                            if (it != m.frames[f].end()) {
                                m.frames[f].erase(it);
                                break;
                            }
                        }
                        env->DeleteLocalRef(m.addr[o]);
                        sync(what);
                    }
                }
                break;
            }
            case 5:
            case 6: {
                std::vector<size_t> k;
                for (size_t j = 0; j < m.refs.size(); j++)
                    if (m.refs[j].weak == (op == 6)) k.push_back(j);
                if (k.empty()) continue;
                size_t j = k[s.below((uint32_t)k.size())];
                Ref r = m.refs[j];
                m.refs.erase(m.refs.begin() + j);
                snprintf(what, sizeof(what), "Delete%sGlobalRef(%d)", r.weak ? "Weak" : "", r.obj);
                if (r.weak) env->DeleteWeakGlobalRef((jweak)r.h);
                else env->DeleteGlobalRef(r.h);
                deleted = true;
                break;
            }
            case 7: {
                int cap = s.below(3) ? (int)s.below(s.chance(1, 8) ? 900 : 40) : 0;
                snprintf(what, sizeof(what), "PushLocalFrame(%d)", cap);
                PBT_CHECK(c, env->PushLocalFrame(cap) == 0, "PushLocalFrame failed");
                m.frames.emplace_back();
                if (s.chance(1, 40)) {  // many of them
                    int n = (int)s.below(40);
                    snprintf(what, sizeof(what), "%d times PushLocalFrame(%d)", n + 1, cap);
                    while (n-- > 0) {
                        PBT_CHECK(c, env->PushLocalFrame(cap) == 0, "PushLocalFrame failed");
                        m.frames.emplace_back();
                    }
                }
                break;
            }
            case 8: {
                Use u = pick();
                if (s.chance(1, 2)) u = {nullptr, -1, "null"};
                snprintf(what, sizeof(what), "PopLocalFrame(%s %d)", u.kind, u.obj);
                m.frames.pop_back();
                if (m.frames.empty()) m.frames.emplace_back();
                jobject r = env->PopLocalFrame(u.h);
                if (u.obj < 0) {
                    // a dead weak reference behaves as null, and may be handed back as it is
                    PBT_CHECK(c, !r || env->IsSameObject(r, nullptr), "PopLocalFrame with a %s result returned a living reference", u.kind);
                } else made_local(r, u, "PopLocalFrame");
                popped = true;
                break;
            }
            case 9: {
                Use a = pick(), b = pick();
                snprintf(what, sizeof(what), "IsSameObject(%s %d, %s %d)", a.kind, a.obj, b.kind, b.obj);
                bool same = env->IsSameObject(a.h, b.h);
                PBT_CHECK(c, same == (a.obj == b.obj), "%s says %d", what, same);
                break;
            }
            case 10: {  // reference kinds and class of everything
                Use u = pick();
                snprintf(what, sizeof(what), "queries of a %s reference", u.kind);
                jobjectRefType t = env->GetObjectRefType(u.h);
                jobjectRefType want = !u.h ? JNIInvalidRefType : strstr(u.kind, "weak") ? JNIWeakGlobalRefType : !strcmp(u.kind, "global") ? JNIGlobalRefType : JNILocalRefType;
                PBT_CHECK(c, t == want, "GetObjectRefType of a %s reference is %d", u.kind, t);
                for (int k = 0; k < 3; k++) {
                    bool is = env->IsInstanceOf(u.h, g_cls[k]);
                    PBT_CHECK(c, is == (u.obj >= 0 && type[u.obj] == k), "IsInstanceOf(%s %d) of class %d is %d", u.kind, u.obj, k, is);
                }
                // both leave a reference to the class in the frame, which the model need not know: classes do not die
                if (u.obj >= 0) PBT_CHECK(c, env->IsSameObject(env->GetObjectClass(u.h), g_cls[type[u.obj]]), "GetObjectClass of a %s reference is another class", u.kind);
                if (u.obj < 0) {
                    PBT_CHECK(c, env->GetArrayLength((jarray)u.h) == 0, "a %s reference has an array length", u.kind);
                    PBT_CHECK(c, env->GetStringUTFLength((jstring)u.h) == 0 && env->GetStringLength((jstring)u.h) == 0, "a %s reference has a string length", u.kind);
                    PBT_CHECK(c, !env->GetIntArrayElements((jintArray)u.h, nullptr), "a %s reference has elements", u.kind);
                } else if (type[u.obj] == 1) PBT_CHECK(c, env->GetStringUTFLength((jstring)u.h) == 4, "wrong string length through a %s reference", u.kind);
                else if (type[u.obj] == 2) PBT_CHECK(c, env->GetArrayLength((jarray)u.h) == 3, "wrong array length through a %s reference", u.kind);
                break;
            }
            case 11: {  // through a hooked function: the result is a local reference made by the call
                Use u = pick(), v = pick();
                int which = s.below(3);
                snprintf(what, sizeof(what), "calling hook %d with %s %d, %s %d", which, u.kind, u.obj, v.kind, v.obj);
                if (which == 0) made_local(env->CallStaticObjectMethod(g_hooks, g_pass, u.h), u, "the call");
                else if (which == 1) env->CallStaticVoidMethod(g_hooks, g_drop, u.h);
                else made_local(env->CallStaticObjectMethod(g_hooks, g_two, u.h, v.h), v.obj >= 0 ? v : u, "the call");
                break;
            }
            case 12: {  // native ownership taken from a reference
                Use u = pick();
                if (u.obj < 0) {
                    PBT_CHECK(c, !native<jnivm::Object>(env, u.h), "a %s reference yields an object", u.kind);
                    continue;
                }
                snprintf(what, sizeof(what), "owning object %d through a %s reference", u.obj, u.kind);
                own[u.obj] = native<jnivm::Object>(env, u.h);
                PBT_CHECK(c, (jobject)own[u.obj].get() == m.addr[u.obj], "a %s reference yields another object", u.kind);
                m.owned[u.obj] = true;
                break;
            }
            case 13: {
                std::vector<int> k;
                for (size_t o = 0; o < own.size(); o++)
                    if (m.owned[o]) k.push_back((int)o);
                if (k.empty()) continue;
                int o = k[s.below((uint32_t)k.size())];
                snprintf(what, sizeof(what), "dropping native ownership of %d", o);
                m.owned[o] = false;
                own[o].reset();
                break;
            }
            default: {
                int cap = (int)s.below(60);
                snprintf(what, sizeof(what), "EnsureLocalCapacity(%d)", cap);
                PBT_CHECK(c, env->EnsureLocalCapacity(cap) == 0, "EnsureLocalCapacity failed");
            }
        }
        PBT_NOTE(c, "%s", what);
        sync(what);
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending after %s", what);
    }
    c.nontrivial = popped && deleted && dead;
    if (m.frames.size() > 2) c.label("3 or more frames at the end");
    if (dead) c.label("some object died on the way");
    // everything goes once the last reference does
    for (auto& o : own) o.reset();
    m.owned.assign(m.owned.size(), false);
    sync("dropping all native owners");
    while (m.frames.size() > 1) {
        env->PopLocalFrame(nullptr);
        m.frames.pop_back();
        sync("popping a frame at the end");
    }
    env->PopLocalFrame(nullptr);
    m.frames[0].clear();
    sync("popping the base frame");
    while (!m.refs.empty()) {
        Ref r = m.refs.back();
        m.refs.pop_back();
        if (r.weak) env->DeleteWeakGlobalRef((jweak)r.h);
        else env->DeleteGlobalRef(r.h);
        sync("deleting the last references");
    }
    PBT_CHECK(c, model_alive == 0, "the model holds an object at the end");
}

void property_case(Case& c) {
    static int uses = 0;
    if (!g_vm || ++uses > 200) {
        delete g_vm;
        setup();
        uses = 0;
    }
    run(c, g_vm->GetJNIEnv());
}
