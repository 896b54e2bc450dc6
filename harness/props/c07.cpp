// C07: hierarchy queries and inherited lookups over random class graphs.
#include "graph.hpp"
#include "jnitable.hpp"
#include <map>
#include <tuple>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C07";
const char* const kRule =
    "a random acyclic class graph (run-time bases with shared bases and interfaces, native Extends types), all pairs asked for assignability, instance-of and superclass "
    "through all reference kinds; then a history of hooking and looking up methods, fields and constructors, against a depth-first model of which declaration is found and "
    "where a missing one is made; non-trivial: a class with two bases and a lookup which found an inherited member; identity: the draws";

enum Kind { METHOD, STATIC_METHOD, FIELD, STATIC_FIELD, CTOR };
using Key = std::tuple<int, std::string, std::string>;
static std::string show(const Key& k) {
    static const char* n[] = {"method", "static method", "field", "static field", "constructor"};
    return std::string(n[std::get<0>(k)]) + " " + std::get<1>(k) + " " + std::get<2>(k);
}
static Key gen_key(Src& s) {
    static const char* names[] = {"f", "g", "ff"};
    static const char* msig[] = {"()I", "(I)I", "(J)I", "()J"};
    static const char* fsig[] = {"I", "J"};
    int kind = (int)s.weighted({4, 4, 4, 4, 1});
    if (kind == CTOR) return Key{kind, "<init>", s.chance(1, 2) ? "()" : "(I)"};
    return Key{kind, s.pick(names), kind <= STATIC_METHOD ? s.pick(msig) : s.pick(fsig)};
}
template <class F> static void put(jnivm::Class* cl, ENV* e, const std::string& n, bool st, F f) {
    if (st) cl->Hook(e, n, std::move(f));
    else cl->HookInstanceFunction(e, n, std::move(f));
}
static void hook(jnivm::Class* cl, ENV* e, const Key& k, int tag) {
    const std::string &n = std::get<1>(k), &sig = std::get<2>(k);
    bool st = std::get<0>(k) == STATIC_METHOD || std::get<0>(k) == STATIC_FIELD;
    if (std::get<0>(k) <= STATIC_METHOD) {
        if (sig == "()I") put(cl, e, n, st, [tag] { return (jint)tag; });
        else if (sig == "(I)I") put(cl, e, n, st, [tag](jint) { return (jint)tag; });
        else if (sig == "(J)I") put(cl, e, n, st, [tag](jlong) { return (jint)tag; });
        else put(cl, e, n, st, [tag] { return (jlong)tag; });
    } else if (sig == "I") {
        if (st) cl->HookGetterFunction(e, n, [tag] { return (jint)tag; });
        else cl->HookInstanceGetterFunction(e, n, [tag] { return (jint)tag; });
    } else {
        if (st) cl->HookGetterFunction(e, n, [tag] { return (jlong)tag; });
        else cl->HookInstanceGetterFunction(e, n, [tag] { return (jlong)tag; });
    }
}

void property_case(Case& c) {
    Src& s = c.s;
    bool nul = s.chance(1, 4);
    std::unique_ptr<VM> vm(new VM(false, nul));
    JNIEnv* env = vm->GetJNIEnv();
    ENV* e = vm->GetEnv().get();
    Graph g(s, e, 1 + s.below(8));
    int n = (int)g.size();
    PBT_NOTE(c, "%s VM, %s", nul ? "null-returning" : "creating", g.show().c_str());
    bool multi = false, inherited = false;
    for (auto& b : g.bases) multi |= b.size() > 1;
    // queries
    {
        env->PushLocalFrame(0);
        Refs refs(env);
        std::vector<jclass> cr;
        for (int i = 0; i < n; i++) cr.push_back((jclass)refs.any(s, g.ref(env, i)));
        for (int i = 0; i < n; i++) {
            jobject o = refs.any(s, local(env, Graph::object(g.cls[i])));
            jclass sup = env->GetSuperclass(cr[i]);
            jclass want = g.bases[i].empty() ? nullptr : g.ref(env, g.bases[i][0]);
            PBT_CHECK(c, env->IsSameObject(sup, want), "GetSuperclass(%s) is %s", g.name[i].c_str(), sup ? native<jnivm::Class>(env, sup)->getName().c_str() : "null");
            PBT_CHECK(c, env->IsSameObject(env->GetObjectClass(o), cr[i]), "GetObjectClass of an object of %s is another class", g.name[i].c_str());
            for (int j = 0; j < n; j++) {
                bool a = env->IsAssignableFrom(cr[i], cr[j]), b = env->IsInstanceOf(o, cr[j]);
                PBT_CHECK(c, a == (bool)g.reach[i][j], "IsAssignableFrom(%s, %s) is %d", g.name[i].c_str(), g.name[j].c_str(), a);
                PBT_CHECK(c, b == (bool)g.reach[i][j], "IsInstanceOf(object of %s, %s) is %d", g.name[i].c_str(), g.name[j].c_str(), b);
            }
            PBT_CHECK(c, !env->IsInstanceOf(nullptr, cr[i]), "null is an instance of %s", g.name[i].c_str());
        }
        env->PopLocalFrame(nullptr);
    }
    // members: per class and key the identity (once known) and the tag of its hook (0: none)
    struct Member {
        void* id = nullptr;
        int tag = 0;
    };
    std::vector<std::map<Key, Member>> mem(n);
    std::map<void*, std::pair<int, Key>> owner;
    int tags = 0;
    std::vector<Key> used;
    size_t steps = 6 + s.len(50);
    for (size_t i = 0; i < steps; i++) {
        int cl = (int)s.below((uint32_t)n);
        Key k = !used.empty() && s.chance(3, 5) ? s.pick(used) : gen_key(s);
        used.push_back(k);
        if (std::get<0>(k) != CTOR && s.chance(1, 3)) {
            Member& m = mem[cl][k];
            m.tag = ++tags;
            hook(g.cls[cl].get(), e, k, m.tag);
            PBT_NOTE(c, "hook %s in %s (tag %d)", show(k).c_str(), g.name[cl].c_str(), m.tag);
            continue;
        }
        env->PushLocalFrame(0);
        Refs refs(env);
        jclass cr = g.ref(env, cl);
        if (s.chance(1, 4)) cr = (jclass)refs.any(s, cr);
        const char *nm = std::get<1>(k).c_str(), *sg = std::get<2>(k).c_str();
        void* id = nullptr;
        switch (std::get<0>(k)) {
            case METHOD: id = env->GetMethodID(cr, nm, sg); break;
            case STATIC_METHOD: id = env->GetStaticMethodID(cr, nm, sg); break;
            case FIELD: id = env->GetFieldID(cr, nm, sg); break;
            case STATIC_FIELD: id = env->GetStaticFieldID(cr, nm, sg); break;
            default: id = env->GetMethodID(cr, "<init>", (std::get<2>(k) + "V").c_str());
        }
        // a constructor belongs to the class which was asked
        int at = std::get<0>(k) == CTOR ? (mem[cl].count(k) ? cl : -1) : g.first(cl, [&](int x) { return mem[x].count(k) > 0; });
        PBT_NOTE(c, "look up %s in %s: %s", show(k).c_str(), g.name[cl].c_str(), at < 0 ? "nowhere declared" : ("declared in " + g.name[at]).c_str());
        if (at < 0) {
            PBT_CHECK(c, (id == nullptr) == nul, "%s of %s, which nothing declares, was %s", show(k).c_str(), g.name[cl].c_str(), id ? "found" : "not made");
            if (id) {
                PBT_CHECK(c, !owner.count(id), "a new %s of %s is an existing member", show(k).c_str(), g.name[cl].c_str());
                mem[cl][k].id = id;
                owner[id] = {cl, k};
            }
        } else {
            Member& m = mem[at][k];
            PBT_CHECK(c, id, "%s of %s, declared in %s, was not found", show(k).c_str(), g.name[cl].c_str(), g.name[at].c_str());
            if (!m.id) {
                auto o = owner.find(id);
                PBT_CHECK(c, o == owner.end(), "%s looked up in %s is the member of %s instead of the one of %s", show(k).c_str(), g.name[cl].c_str(),
                          o == owner.end() ? "" : g.name[o->second.first].c_str(), g.name[at].c_str());
                m.id = id;
                owner[id] = {at, k};
            }
            PBT_CHECK(c, m.id == id, "%s looked up in %s is not the one of %s", show(k).c_str(), g.name[cl].c_str(), g.name[at].c_str());
            inherited |= at != cl;
            if (at != cl && g.bases[cl].size() > 1) c.label("inherited through several bases");
        }
        // which hook does it reach
        int64_t want = at < 0 ? 0 : mem[at][k].tag, got = want;
        if (id) {
            bool l = std::get<2>(k).back() == 'J';
            jvalue arg[1];
            memset(arg, 0, sizeof(arg));
            jobject o = local(env, Graph::object(g.cls[cl]));
            if (std::get<0>(k) == STATIC_METHOD) got = l ? Calls<jlong>::sa(env, cr, (jmethodID)id, arg) : Calls<jint>::sa(env, cr, (jmethodID)id, arg);
            else if (std::get<0>(k) == FIELD) got = l ? Fields<jlong>::get(env, o, (jfieldID)id) : Fields<jint>::get(env, o, (jfieldID)id);
            else if (std::get<0>(k) == STATIC_FIELD) got = l ? Fields<jlong>::sget(env, cr, (jfieldID)id) : Fields<jint>::sget(env, cr, (jfieldID)id);
        }
        PBT_CHECK(c, got == want, "%s of %s yields %ld instead of %ld", show(k).c_str(), g.name[cl].c_str(), (long)got, (long)want);
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
        env->PopLocalFrame(nullptr);
    }
    c.nontrivial = multi && inherited;
}
