// C06: the identities handed out by lookups, against a map from key to identity.
#include "jvmutil.hpp"
#include "siggen.hpp"
#include <jnivm/method.h>
#include <jnivm/string.h>
#include <map>
#include <set>
#include <tuple>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C06";
const char* const kRule =
    "a history of class, method, constructor, field lookups (instance and static) with names built from few letters and '/', '$', '[', so that keys collide, are prefixes of each "
    "other and name each other in signatures, on a creating VM (map from key to identity) or on a null-returning VM with random declarations (exactly those are found, tables do "
    "not grow); non-trivial: at least 3 keys looked up twice or more with other lookups in between; identity: the draws";

struct T1 : jnivm::Object {};
struct T2 : jnivm::Object {};
using jnivm::String;
using S = std::shared_ptr<String>;

// long names which differ in their last letter only
static std::string longish(Src& s) {
    static const int l[] = {15, 31, 63, 64, 127, 128, 255, 256, 1023, 4096};
    return std::string(s.pick(l), 'n') + "ab"[s.below(2)];
}
static std::string segment(Src& s) {
    if (s.chance(1, 60)) return longish(s);
    static const char* p[] = {"a", "b", "ab", "aa", "c", "aab", "L", "I", "V"};
    return p[s.weighted({6, 5, 3, 2, 2, 1, 1, 1, 1})];
}
static std::string class_name(Src& s, int depth = 0) {
    if (depth < 2 && s.chance(1, 8)) {
        static const char prim[] = "ZBCSIJFD";
        std::string d(1 + s.below(2), '[');
        return s.chance(1, 2) ? d + prim[s.below(8)] : d + "L" + class_name(s, 2) + ";";
    }
    if (s.chance(1, 20)) return s.chance(1, 2) ? "java/lang/Object" : "java/lang/String";
    std::string r = segment(s);
    for (int n = (int)s.weighted({3, 4, 3, 1}); n-- > 0;) r += (s.chance(2, 5) ? "$" : "/") + segment(s);
    return r;
}
static std::string method_sig(Src& s) {
    static const char* fixed[] = {"()V", "(I)V", "(J)V", "(I)I", "()I", "(II)V", "(Ljava/lang/String;)V", "()Ljava/lang/String;", "([I)V", "(La;)V", "(La/b;)V", "(La$b;)V", "([La;)V", "(I)Ljava/lang/String;"};
    if (s.chance(3, 4)) return s.pick(fixed);
    if (s.chance(1, 10)) return "(" + std::string(s.chance(1, 2) ? 64 : 256, 'I') + (s.chance(1, 2) ? "I" : "J") + ")V";
    std::string r = "(";
    for (int n = (int)s.below(4); n-- > 0;) {
        static const char* t[] = {"I", "J", "Z", "[I", "D"};
        r += s.chance(1, 2) ? std::string(s.pick(t)) : "L" + class_name(s, 2) + ";";
    }
    return r + ")" + (s.chance(1, 2) ? std::string("V") : "L" + class_name(s, 2) + ";");
}
static std::string field_sig(Src& s) {
    static const char* fixed[] = {"I", "J", "Z", "Ljava/lang/String;", "[I", "La;", "La/b;", "La$b;", "[La;", "[[I"};
    return s.chance(4, 5) ? s.pick(fixed) : "L" + class_name(s, 2) + ";";
}
static std::string member_name(Src& s) {
    static const char* p[] = {"a", "b", "ab", "f", "aa", "I", "init"};
    if (s.chance(1, 60)) return longish(s);
    return p[s.weighted({6, 5, 3, 2, 2, 1, 1})];
}

enum Kind { CLASS, METHOD, STATIC_METHOD, CTOR, FIELD, STATIC_FIELD };
using Key = std::tuple<int, std::string, std::string, std::string>;  // kind, class, name, signature
static std::string show(const Key& k) {
    static const char* n[] = {"class", "method", "static method", "constructor", "field", "static field"};
    return std::string(n[std::get<0>(k)]) + " " + std::get<1>(k) + " " + std::get<2>(k) + " " + std::get<3>(k);
}
static Key gen_key(Src& s, const std::string& cls) {
    int kind = 1 + s.below(5);
    switch (kind) {
        case CTOR: {
            std::string sig = method_sig(s);
            return Key{kind, cls, "<init>", sig.substr(0, sig.find(')') + 1)};
        }
        case METHOD:
        case STATIC_METHOD: return Key{kind, cls, member_name(s), method_sig(s)};
        default: return Key{kind, cls, member_name(s), field_sig(s)};
    }
}
static void* lookup(Case& c, JNIEnv* env, Refs& refs, const Key& k) {
    Src& s = c.s;
    const std::string &cn = std::get<1>(k), &n = std::get<2>(k), &sig = std::get<3>(k);
    jclass cl;
    if (s.chance(1, 8)) cl = jnivm::JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(jenv(env), jenv(env)->GetVM()->classes.count(cn) ? jenv(env)->GetVM()->classes[cn] : nullptr);
    else cl = env->FindClass(cn.c_str());
    if (std::get<0>(k) == CLASS) return env->FindClass(cn.c_str());
    if (!cl) cl = env->FindClass(cn.c_str());
    if (!cl) return nullptr;
    if (s.chance(1, 5)) cl = (jclass)refs.any(s, cl);
    switch (std::get<0>(k)) {
        case METHOD: return env->GetMethodID(cl, n.c_str(), sig.c_str());
        case STATIC_METHOD: return env->GetStaticMethodID(cl, n.c_str(), sig.c_str());
        case CTOR: {
            static const char* ret[] = {"V", "I", "Ljava/lang/Object;", "La;", "[I"};
            std::string r = s.chance(1, 2) ? "V" : s.chance(1, 3) ? "L" + cn + ";" : s.pick(ret);
            return env->GetMethodID(cl, "<init>", (sig + r).c_str());
        }
        case FIELD: return env->GetFieldID(cl, n.c_str(), sig.c_str());
        default: return env->GetStaticFieldID(cl, n.c_str(), sig.c_str());
    }
}

// Declarations available on a null-returning VM
struct Form {
    const char* sig;
    void (*install)(jnivm::Class* cl, ENV* env, const std::string& name, bool isstatic);
};
template <class F> static void install_fn(jnivm::Class* cl, ENV* env, const std::string& name, bool st, F f) {
    if (st) cl->Hook(env, name, std::move(f));
    else cl->HookInstanceFunction(env, name, std::move(f));
}
#define FORM(SIG, ...) {SIG, [](jnivm::Class* cl, ENV* env, const std::string& name, bool st) { install_fn(cl, env, name, st, __VA_ARGS__); }}
static const Form methods[] = {
    FORM("()V", [] {}),
    FORM("(I)V", [](jint) {}),
    FORM("(J)V", [](jlong) {}),
    FORM("(I)I", [](jint x) { return x; }),
    FORM("()I", [] { return (jint)1; }),
    FORM("(II)V", [](jint, jint) {}),
    FORM("()Ljava/lang/String;", [] { return S(); }),
    FORM("(I)Ljava/lang/String;", [](jint) { return S(); }),
    FORM("([I)V", [](std::shared_ptr<jnivm::Array<jint>>) {}),
};
static jint v_int;
static jlong v_long;
static jboolean v_bool;
static S v_str;
template <class T> static void install_field(jnivm::Class* cl, ENV* env, const std::string& name, bool st, T* p) {
    if (st) {
        cl->HookGetterFunction(env, name, [p] { return *p; });
    } else cl->HookInstanceGetterFunction(env, name, [p] { return *p; });
}
struct FieldForm {
    const char* sig;
    void (*install)(jnivm::Class* cl, ENV* env, const std::string& name, bool isstatic);
};
static const FieldForm fields[] = {
    {"I", [](jnivm::Class* cl, ENV* env, const std::string& n, bool st) { install_field(cl, env, n, st, &v_int); }},
    {"J", [](jnivm::Class* cl, ENV* env, const std::string& n, bool st) { install_field(cl, env, n, st, &v_long); }},
    {"Z", [](jnivm::Class* cl, ENV* env, const std::string& n, bool st) { install_field(cl, env, n, st, &v_bool); }},
    {"Ljava/lang/String;", [](jnivm::Class* cl, ENV* env, const std::string& n, bool st) { install_field(cl, env, n, st, &v_str); }},
};

struct World {
    std::map<Key, void*> ids;
    std::map<void*, Key> owner;
    std::map<Key, int> times;
};
static void record(Case& c, World& w, const Key& k, void* id) {
    PBT_CHECK(c, id, "the lookup of %s found nothing", show(k).c_str());
    auto it = w.ids.find(k);
    if (it != w.ids.end()) {
        PBT_CHECK(c, it->second == id, "a second lookup of %s gave another identity", show(k).c_str());
    } else {
        auto o = w.owner.find(id);
        PBT_CHECK(c, o == w.owner.end(), "%s and %s have the same identity", show(k).c_str(), show(o->second).c_str());
        w.ids[k] = id;
        w.owner[id] = k;
    }
    w.times[k]++;
}

void property_case(Case& c) {
    Src& s = c.s;
    bool nul = s.chance(2, 5);
    c.label(nul ? "null-returning VM" : "creating VM");
    std::unique_ptr<VM> vm(new VM(false, nul));
    JNIEnv* env = vm->GetJNIEnv();
    ENV* e = vm->GetEnv().get();
    std::vector<std::string> names;
    for (int n = 2 + (int)s.below(6); n-- > 0;) names.push_back(class_name(s));
    // near misses of the names in use
    if (s.chance(1, 2)) {
        std::string x = names[s.below((uint32_t)names.size())];
        for (auto& ch : x)
            if (ch == '/' || ch == '$') ch = ch == '/' ? '$' : '/';
        if (x[0] != '[') names.push_back(x);
        if (x[0] != '[') names.push_back("[L" + x + ";");
    }
    World w;
    size_t steps = 10 + s.len(60);
    if (!nul) {
        std::vector<Key> used;
        for (size_t i = 0; i < steps; i++) {
            Refs refs(env);
            env->PushLocalFrame(0);
            Key k;
            if (!used.empty() && s.chance(2, 5)) k = s.pick(used);
            else if (s.chance(1, 3)) k = Key{CLASS, s.pick(names), "", ""};
            else k = gen_key(s, s.pick(names));
            used.push_back(k);
            void* id = lookup(c, env, refs, k);
            PBT_NOTE(c, "%s -> %s", show(k).c_str(), w.ids.count(k) ? "again" : "new");
            record(c, w, k, id);
            if (std::get<0>(k) == CLASS)
                PBT_CHECK(c, ((jnivm::Class*)(jnivm::Object*)id)->getName() == std::get<1>(k), "class %s is named %s", std::get<1>(k).c_str(), ((jnivm::Class*)(jnivm::Object*)id)->getName().c_str());
            env->PopLocalFrame(nullptr);
        }
        for (auto& k : w.ids) {
            Refs refs(env);
            env->PushLocalFrame(0);
            PBT_CHECK(c, lookup(c, env, refs, k.first) == k.second, "at the end %s has another identity", show(k.first).c_str());
            env->PopLocalFrame(nullptr);
        }
    } else {
        // declare by hooks and native class registration
        std::set<std::string> classes, implied;
        std::set<Key> declared;
        int nd = 1 + (int)s.below(6);
        int t1 = (int)s.below(3), t2 = (int)s.below(3);  // whether and under which name the native types are registered
        auto note_class = [&](const std::string& n) {
            classes.insert(n);
            if (n[0] != '[') {
                size_t from = n.rfind('/');
                from = from == std::string::npos ? 0 : from;
                for (size_t p = n.find('$', from); p != std::string::npos; p = n.find('$', p + 1)) implied.insert(n.substr(0, p));
            }
        };
        auto ctor = [&](auto tag, const std::string& n) {
            using T = typename decltype(tag)::type;
            auto cl = e->GetClass<T>(n.c_str());
            note_class(n);
            if (s.chance(1, 2)) {
                cl->Hook(e, "<init>", [] { return std::make_shared<T>(); });
                declared.insert(Key{CTOR, n, "<init>", "()"});
            }
            if (s.chance(1, 2)) {
                cl->Hook(e, "<init>", [](jint) { return std::make_shared<T>(); });
                declared.insert(Key{CTOR, n, "<init>", "(I)"});
            }
        };
        auto plain = [&](size_t i) { return names[i % names.size()][0] == '[' ? std::string("plain") : names[i % names.size()]; };
        struct W1 { using type = T1; };
        struct W2 { using type = T2; };
        if (t1) ctor(W1{}, plain(0));
        if (t2 && plain(1) != plain(0)) ctor(W2{}, plain(1));
        for (int i = 0; i < nd; i++) {
            std::string n = s.pick(names);
            auto cl = e->GetClass(n.c_str());
            note_class(n);
            for (int k = (int)s.below(4); k-- > 0;) {
                bool st = s.chance(1, 2);
                std::string mn = member_name(s);
                if (s.chance(2, 3)) {
                    auto& f = s.pick(methods);
                    f.install(cl.get(), e, mn, st);
                    declared.insert(Key{st ? STATIC_METHOD : METHOD, n, mn, f.sig});
                } else {
                    auto& f = s.pick(fields);
                    f.install(cl.get(), e, mn, st);
                    declared.insert(Key{st ? STATIC_FIELD : FIELD, n, mn, f.sig});
                }
            }
        }
        for (auto n : {"java/lang/Object", "java/lang/String"}) classes.insert(n);
        auto members = [&] {
            size_t n = 0;
            for (auto& x : vm->classes) n += 100000 + x.second->methods.size() + x.second->fields.size();
            return n;
        };
        size_t before = members();
        std::vector<Key> pool(declared.begin(), declared.end());
        size_t found = 0;
        for (size_t i = 0; i < steps; i++) {
            Refs refs(env);
            env->PushLocalFrame(0);
            Key k;
            switch (s.weighted({pool.empty() ? 0u : 3u, pool.empty() ? 0u : 2u, 3, 2})) {
                case 0: k = s.pick(pool); break;
                case 1: {  // a near miss of something declared
                    k = s.pick(pool);
                    switch (s.below(4)) {
                        case 0: std::get<1>(k) = s.pick(names); break;
                        case 1: if (std::get<0>(k) != CTOR) std::get<2>(k) = member_name(s); break;
                        case 2: {
                            std::string sig = std::get<0>(k) >= FIELD ? field_sig(s) : method_sig(s);
                            std::get<3>(k) = std::get<0>(k) == CTOR ? sig.substr(0, sig.find(')') + 1) : sig;
                            break;
                        }
                        default:
                            if (std::get<0>(k) != CTOR) std::get<0>(k) = std::get<0>(k) == METHOD ? STATIC_METHOD : std::get<0>(k) == STATIC_METHOD ? METHOD : std::get<0>(k) == FIELD ? STATIC_FIELD : FIELD;
                    }
                    break;
                }
                case 2: k = gen_key(s, s.pick(names)); break;
                default: k = Key{CLASS, s.chance(1, 3) ? class_name(s) : s.pick(names), "", ""};
            }
            const std::string& cn = std::get<1>(k);
            void* id = lookup(c, env, refs, k);
            bool want = std::get<0>(k) == CLASS ? classes.count(cn) > 0 : declared.count(k) > 0;
            PBT_NOTE(c, "%s -> %s", show(k).c_str(), id ? "found" : "null");
            bool either = std::get<0>(k) == CLASS && implied.count(cn) && !classes.count(cn);
            // an array class may have become known by the signature of a hook
            if (std::get<0>(k) == CLASS && cn[0] == '[' && !classes.count(cn)) either = vm->classes.count(cn);
            if (!either) PBT_CHECK(c, (id != nullptr) == want, "%s was %s on a null-returning VM although it was %s", show(k).c_str(), id ? "found" : "not found", want ? "declared" : "not declared");
            if (id) {
                record(c, w, k, id);
                found++;
            }
            PBT_CHECK(c, members() == before, "the lookup of %s invented something on a null-returning VM", show(k).c_str());
            env->PopLocalFrame(nullptr);
        }
        if (found && found < steps) c.label("some found, some not");
    }
    int again = 0;
    for (auto& t : w.times) again += t.second > 1;
    c.nontrivial = again >= 3;
    PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
}
