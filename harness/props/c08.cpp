// C08: virtual and non-virtual dispatch over random class graphs.
#include "graph.hpp"
#include "jnitable.hpp"
#include <map>
#include <set>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C08";
const char* const kRule =
    "a random acyclic class graph (run-time bases with shared bases and interfaces, native Extends types), then a history of hooking and re-hooking instance (and static) "
    "methods of equal and different names and signatures, obtaining method IDs from any class and calling any ID obtained so far on receivers of any class, virtually and "
    "non-virtually with any named class, in variadic, va_list and array form and through the method object, with every kind of reference, against a depth-first model of the "
    "implementation to run; non-trivial: a call which ran an inherited implementation and one which ran another class's than the ID's; identity: the draws";

using Key = std::pair<int, int>;  // name, signature
static const char* const kNames[] = {"f", "g", "fg"};
static const char* const kSigs[] = {"()V", "()I", "(I)I", "(IJ)D", "(I)Ljava/lang/Object;", "(J)I"};
enum { V0, I0, I1, D2, L1, J1, NSIG };

static struct Log {
    int ran, tag;
    int64_t arg;
    jnivm::Object* self;
} g;
static std::shared_ptr<jnivm::Object> g_result;
static void ran(int tag, int64_t arg, jnivm::Object* self) { g = {g.ran + 1, tag, arg, self}; }

// the two forms of an implementation: with and without the receiver
static void hook(jnivm::Class* cl, ENV* e, int sig, const char* n, int tag, int form) {
#define H(...) return cl->HookInstanceFunction(e, n, __VA_ARGS__)
    if (form == 0) switch (sig) {
        case V0: H([tag] { ran(tag, 0, nullptr); });
        case I0: H([tag] { ran(tag, 0, nullptr); return (jint)tag; });
        case I1: H([tag](jint a) { ran(tag, a, nullptr); return (jint)tag; });
        case D2: H([tag](jint a, jlong b) { ran(tag, a + b, nullptr); return (jdouble)tag; });
        case L1: H([tag](jint a) -> std::shared_ptr<jnivm::Object> { ran(tag, a, nullptr); return g_result; });
        default: H([tag](jlong a) { ran(tag, a, nullptr); return (jint)tag; });
    }
    switch (sig) {
        case V0: H([tag](jnivm::Object* o) { ran(tag, 0, o); });
        case I0: H([tag](ENV*, jnivm::Object* o) { ran(tag, 0, o); return (jint)tag; });
        case I1: H([tag](ENV*, jnivm::Object* o, jint a) { ran(tag, a, o); return (jint)tag; });
        case D2: H([tag](jnivm::Object* o, jint a, jlong b) { ran(tag, a + b, o); return (jdouble)tag; });
        case L1: H([tag](jnivm::Object* o, jint a) -> std::shared_ptr<jnivm::Object> { ran(tag, a, o); return g_result; });
        default: H([tag](jnivm::Object* o, jlong a) { ran(tag, a, o); return (jint)tag; });
    }
#undef H
}
static void hook_static(jnivm::Class* cl, ENV* e, int sig, const char* n, int tag) {
    switch (sig) {
        case V0: return cl->Hook(e, n, [tag] { ran(tag, 0, nullptr); });
        case I1: return cl->Hook(e, n, [tag](jint a) { ran(tag, a, nullptr); return (jint)tag; });
        default: return cl->Hook(e, n, [tag] { ran(tag, 0, nullptr); return (jint)tag; });
    }
}

template <class T> static T va(int form, JNIEnv* e, jobject o, jclass c, jmethodID m, ...) {
    va_list l;
    va_start(l, m);
    struct End {
        va_list& l;
        ~End() { va_end(l); }
    } end{l};
    return form ? Calls<T>::nv(e, o, c, m, l) : Calls<T>::v(e, o, m, l);
}
// calls in one of seven forms: 0..2 virtual, 3..5 non-virtual, 6 method object
template <class T, class... X> static T call(int form, JNIEnv* e, jobject o, jclass c, jmethodID m, jvalue* arg, X... x) {
    switch (form) {
        case 0: return Calls<T>::d(e, o, m, x...);
        case 1: return va<T>(0, e, o, c, m, x...);
        case 2: return Calls<T>::a(e, o, m, arg);
        case 3: return Calls<T>::nd(e, o, c, m, x...);
        case 4: return va<T>(1, e, o, c, m, x...);
        default: return Calls<T>::na(e, o, c, m, arg);
    }
}

void property_case(Case& c) {
    Src& s = c.s;
    bool nul = s.chance(1, 4);
    std::unique_ptr<VM> vm(new VM(false, nul));
    JNIEnv* env = vm->GetJNIEnv();
    ENV* e = vm->GetEnv().get();
    Graph gr(s, e, 1 + s.below(8));
    int n = (int)gr.size();
    PBT_NOTE(c, "%s VM, %s", nul ? "null-returning" : "creating", gr.show().c_str());
    g_result = std::make_shared<jnivm::Object>();
    g_result->clazz = gr.cls[0];
    struct Hooked {
        int tag, form;
    };
    std::vector<std::map<Key, Hooked>> hk(n);  // instance implementations
    std::vector<std::set<Key>> decl(n);
    struct Id {
        jmethodID id;
        int at;
        Key k;
    };
    std::vector<Id> ids;
    int tags = 0;
    bool inherited = false, foreign = false;
    Key last{0, 0};
    auto key = [&] {
        if (!s.chance(1, 3)) return last;
        return last = Key{(int)s.weighted({4, 2, 1}), (int)s.below(NSIG)};
    };
    auto name = [&](Key k) { return std::string(kNames[k.first]) + kSigs[k.second]; };
    size_t steps = 8 + s.len(60);
    for (size_t i = 0; i < steps; i++) {
        size_t op = s.weighted({6, 1, 4, 10});
        if (op == 0) {
            Key k = key();
            int cl = (int)s.below((uint32_t)n), form = (int)s.below(2);
            hook(gr.cls[cl].get(), e, k.second, kNames[k.first], ++tags, form);
            hk[cl][k] = {tags, form};
            decl[cl].insert(k);
            PBT_NOTE(c, "hook %s in %s (tag %d%s)", name(k).c_str(), gr.name[cl].c_str(), tags, form ? ", takes the receiver" : "");
            continue;
        }
        if (op == 1) {
            Key k = key();
            if (k.second > I1) continue;
            int cl = (int)s.below((uint32_t)n);
            hook_static(gr.cls[cl].get(), e, k.second, kNames[k.first], ++tags);
            PBT_NOTE(c, "hook static %s in %s (tag %d)", name(k).c_str(), gr.name[cl].c_str(), tags);
            continue;
        }
        env->PushLocalFrame(0);
        Refs refs(env);
        if (op == 2) {
            Key k = key();
            int cl = (int)s.below((uint32_t)n);
            auto id = env->GetMethodID((jclass)refs.any(s, gr.ref(env, cl)), kNames[k.first], kSigs[k.second]);
            int at = gr.first(cl, [&](int x) { return decl[x].count(k) > 0; });
            PBT_NOTE(c, "id %zu: %s of %s%s", ids.size(), name(k).c_str(), gr.name[cl].c_str(), at < 0 ? "" : (" (declared in " + gr.name[at] + ")").c_str());
            if (at < 0) {
                at = cl;
                if (id) decl[cl].insert(k);
            }
            if (id) ids.push_back({id, at, k});
        } else if (!ids.empty()) {
            // mostly one of the last IDs
            size_t ix = s.chance(1, 2) ? ids.size() - 1 - s.below((uint32_t)std::min<size_t>(ids.size(), 3)) : s.below((uint32_t)ids.size());
            Id m = ids[ix];
            int rc = (int)s.below((uint32_t)n), form = (int)s.below(7), nc = form >= 3 && form <= 5 ? (int)s.below((uint32_t)n) : rc;
            std::shared_ptr<jnivm::Object> recv = Graph::object(gr.cls[rc]);
            jobject o = refs.any(s, local(env, recv));
            jclass named = (jclass)refs.any(s, gr.ref(env, nc));
            int at = gr.first(nc, [&](int x) { return hk[x].count(m.k) > 0; });
            bool own = hk[m.at].count(m.k) > 0;
            jint a = (jint)s.below(1000);
            jlong b = (jlong)s.raw64() >> 8;
            jvalue arg[2];
            memset(arg, 0, sizeof(arg));
            PBT_NOTE(c, "call id %zu (%s of %s) form %d on %s, class %s: expects %s", ix, name(m.k).c_str(), gr.name[m.at].c_str(), form, gr.name[rc].c_str(), gr.name[nc].c_str(),
                     at < 0 ? "nothing" : gr.name[at].c_str());
            g = {};
            double got = 0;
            jobject res = nullptr;
            int64_t sent = 0;
            auto mo = (jnivm::Method*)m.id;
            auto& E = *env;
            arg[0].i = a;
            switch (m.k.second) {
                case V0:
                    if (form == 6) mo->invoke(E, recv.get());
                    else call<void>(form, env, o, named, m.id, arg);
                    break;
                case I0: got = form == 6 ? mo->invoke(E, recv.get()).i : call<jint>(form, env, o, named, m.id, arg); break;
                case I1:
                    sent = a;
                    got = form == 6 ? mo->invoke(E, recv.get(), a).i : call<jint>(form, env, o, named, m.id, arg, a);
                    break;
                case D2:
                    sent = a + b;
                    arg[1].j = b;
                    got = form == 6 ? mo->invoke(E, recv.get(), a, b).d : call<jdouble>(form, env, o, named, m.id, arg, a, b);
                    break;
                case L1:
                    sent = a;
                    res = form == 6 ? mo->invoke(E, recv.get(), a).l : call<jobject>(form, env, o, named, m.id, arg, a);
                    break;
                default:
                    sent = b;
                    arg[0].j = b;
                    got = form == 6 ? mo->invoke(E, recv.get(), b).i : call<jint>(form, env, o, named, m.id, arg, b);
            }
            PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
            if (at >= 0) {
                Hooked h = hk[at][m.k];
                PBT_CHECK(c, g.ran == 1 && g.tag == h.tag, "calling %s (ID of %s) %s on an object of %s%s%s ran %s%d instead of the implementation %d of %s", name(m.k).c_str(), gr.name[m.at].c_str(),
                          nc != rc || (form >= 3 && form <= 5) ? "non-virtually" : "virtually", gr.name[rc].c_str(), form >= 3 && form <= 5 ? " with class " : "",
                          form >= 3 && form <= 5 ? gr.name[nc].c_str() : "", g.ran ? "" : "nothing, ", g.tag, h.tag, gr.name[at].c_str());
                PBT_CHECK(c, g.arg == sent, "argument %ld arrived as %ld", (long)sent, (long)g.arg);
                if (h.form) PBT_CHECK(c, g.self == recv.get(), "the implementation got another receiver");
                if (m.k.second == L1) PBT_CHECK(c, env->IsSameObject(res, local(env, g_result)), "another object was returned");
                else if (m.k.second != V0) PBT_CHECK(c, got == h.tag, "the result is %f instead of %d", got, h.tag);
                inherited |= at != nc;
                foreign |= at != m.at;
                if (!own) c.label("ID without an implementation of its own");
            } else {
                // no class of the receiver implements it: only the ID's own implementation could run
                PBT_CHECK(c, g.ran == 0 || (own && g.ran == 1 && g.tag == hk[m.at][m.k].tag), "calling %s on an object of %s ran %d", name(m.k).c_str(), gr.name[rc].c_str(), g.tag);
                c.label("nothing to run");
            }
        }
        env->PopLocalFrame(nullptr);
    }
    g_result = nullptr;
    c.nontrivial = inherited && foreign;
}
