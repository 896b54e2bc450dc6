// C18: deny rules.
#include "jvmutil.hpp"
#include <baron/baron.h>
#include <jnivm/extends.h>
#include <map>
#include <set>
#include <tuple>
using jnivm::Class;
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C18";
const char* const kRule =
    "a history on a VM with deny rules: adding rules for classes, methods and fields with empty parts, duplicates and near misses (before and after the VM starts), looking up classes (also "
    "nested ones) by the function table and the native call, looking up constructors, static and instance methods and fields on declared and derived classes, declaring by hooks and by signatures, "
    "asking the rules, on one or two threads; every answer is compared with a model of rules and declarations; non-trivial: a lookup was refused by a rule with an empty "
    "part, and a declared symbol which a rule matches was found; identity: the draws";

struct A : Object {
    int g = 0;
};
struct B : jnivm::Extends<A> {};
static Worker* g_worker;
void property_setup() { g_worker = new Worker; }

static const char* kClasses[] = {"p/A", "p/B", "p/A$I", "p/AA", "q/A", "A", "p/C", "p/A$I$K", "p/q/A", "java/lang/String"};
static const char* kNames[] = {"m", "n", "mm", "<init>"};
static const char* kSigs[] = {"()V", "(I)V", "(Lp/C;)V", "(Lp/A$I;[Lp/AA;)Lq/A;", "()Lp/X;"};
static const char* kTypes[] = {"I", "J", "Lp/C;", "[Lp/AA;", "Lp/X$Y;"};
static const char* kFields[] = {"m", "g", "gg"};

struct Rule {
    std::string name, sig, cls;
};
using Key = std::tuple<std::string, bool, bool, std::string, std::string>;  // class, field, static, name, signature

struct Machine {
    Case& c;
    Src& s;
    std::unique_ptr<Baron::Jvm> jvm;
    VM* vm = nullptr;
    JNIEnv* env = nullptr;
    std::set<std::string> classRules;
    std::vector<Rule> rules[2];  // methods, fields
    std::map<std::string, Class*> classes;
    std::map<Key, void*> members;
    std::set<void*> ids;
    bool refused = false, survived = false;
    explicit Machine(Case& c) : c(c), s(c.s) {}

    std::string part(const char* const* v, size_t n) { return s.chance(1, 3) ? "" : v[s.below((uint32_t)n)]; }
    void rule(Baron::Jvm* j) {
        bool old = s.chance(1, 4);
        switch (s.weighted({2, 3, 3})) {
            case 0: {
                std::string n = s.chance(1, 6) ? s.chance(1, 2) ? "p" : "p/A$" : s.pick(kClasses);
                PBT_NOTE(c, "deny class \"%s\"", n.data());
                old ? j->blacklistClass(n.data()) : j->denyClass(n.data());
                classRules.insert(n);
                break;
            }
            case 1: {
                Rule r{part(kNames, 4), part(kSigs, 5), part(kClasses, 10)};
                PBT_NOTE(c, "deny method \"%s\" \"%s\" \"%s\"", r.name.data(), r.sig.data(), r.cls.data());
                if (r.cls.empty() && s.chance(1, 2))
                    old ? j->blacklistMethod(r.name.data(), r.sig.data()) : j->denyMethod(r.name.data(), r.sig.data());
                else
                    old ? j->blacklistMethod(r.name.data(), r.sig.data(), r.cls.data()) : j->denyMethod(r.name.data(), r.sig.data(), r.cls.data());
                rules[0].push_back(r);
                break;
            }
            default: {
                Rule r{part(kFields, 3), part(kTypes, 5), part(kClasses, 10)};
                PBT_NOTE(c, "deny field \"%s\" \"%s\" \"%s\"", r.name.data(), r.sig.data(), r.cls.data());
                if (r.cls.empty() && s.chance(1, 2))
                    old ? j->blacklistField(r.name.data(), r.sig.data()) : j->denyField(r.name.data(), r.sig.data());
                else
                    old ? j->blacklistField(r.name.data(), r.sig.data(), r.cls.data()) : j->denyField(r.name.data(), r.sig.data(), r.cls.data());
                rules[1].push_back(r);
            }
        }
    }
    // 0: no rule, 1: a rule without empty parts, 2: one with
    int denied(bool field, const std::string& n, const std::string& sg, const std::string& cl) {
        int r = 0;
        for (auto& x : rules[field])
            if ((x.name.empty() || x.name == n) && (x.sig.empty() || x.sig == sg) && (x.cls.empty() || x.cls == cl)) r = std::max(r, x.name.empty() || x.sig.empty() || x.cls.empty() ? 2 : 1);
        return r;
    }
    // the class exists from now on
    void exists(const std::string& n) {
#ifdef JNI_DEBUG
        for (size_t i = n.find('$'); i != std::string::npos; i = n.find('$', i + 1)) classes.emplace(n.substr(0, i), nullptr);
#endif
        classes.emplace(n, nullptr);
    }
    void mentioned(const std::string& sig) {
#ifdef JNI_DEBUG
        for (size_t i = 0; (i = sig.find('L', i)) != std::string::npos;) {
            size_t e = sig.find(';', i);
            exists(sig.substr(i + 1, e - i - 1));
            i = e;
        }
#else
        (void)sig;
#endif
    }
    void same_class(const std::string& n, Class* k, const char* how) {
        PBT_CHECK(c, k != nullptr, "%s: class %s is reported as missing", how, n.data());
        PBT_CHECK(c, k->getName() == n, "%s: class %s is %s", how, n.data(), k->getName().data());
        Class*& was = classes[n];
        PBT_CHECK(c, !was || was == k, "%s: class %s is another one than before", how, n.data());
        for (auto& o : classes) PBT_CHECK(c, o.second != k || o.first == n, "%s: classes %s and %s are the same", how, n.data(), o.first.data());
        was = k;
    }
    void find_class() {
        std::string n = s.pick(kClasses);
        bool known = classes.count(n) != 0, deny = classRules.count(n) != 0;
        bool nativ = s.chance(1, 3);
        std::shared_ptr<Class> k = nativ ? jvm->findClass(n.data()) : native<Class>(env, env->FindClass(n.data()));
        PBT_NOTE(c, "%s %s: %s", nativ ? "findClass" : "FindClass", n.data(), k ? "found" : "missing");
        if (known || !deny) {
            exists(n);
            same_class(n, k.get(), "lookup");
            if (known && deny) survived = true;
        } else
            PBT_CHECK(c, !k, "class %s is denied and was found", n.data());
    }
    // a class to look members up on
    std::pair<std::string, std::shared_ptr<Class>> any_class() {
        std::vector<std::string> l;
        for (auto& k : classes)
            if (k.first.compare(0, 5, "java/") != 0 || k.first == "java/lang/String") l.push_back(k.first);
        std::string n = s.pick(l);
        auto k = native<Class>(env, env->FindClass(n.data()));
        same_class(n, k.get(), "declared");
        return {n, k};
    }
    void member() {
        auto k = any_class();
        bool field = s.chance(1, 2), st = s.chance(1, 2);
        std::string name = field ? s.pick(kFields) : s.pick(kNames), sig = field ? s.pick(kTypes) : s.pick(kSigs);
        jclass j = s.chance(1, 2) ? env->FindClass(k.first.data()) : (jclass)env->NewLocalRef(local(env, k.second));
        void* id = field ? (void*)(st ? env->GetStaticFieldID(j, name.data(), sig.data()) : env->GetFieldID(j, name.data(), sig.data()))
                         : (void*)(st ? env->GetStaticMethodID(j, name.data(), sig.data()) : env->GetMethodID(j, name.data(), sig.data()));
        PBT_NOTE(c, "%s%s %s %s of %s: %s", st ? "static " : "", field ? "field" : "method", name.data(), sig.data(), k.first.data(), id ? "found" : "missing");
        bool ctor = !field && !st && name == "<init>";
        Key key{k.first, field, st || ctor, name, ctor ? sig.substr(0, sig.find(')') + 1) + "L" + k.first + ";" : sig};
        expect(key, id, denied(field, name, sig, k.first));
    }
    void expect(Key key, void* id, int deny) {
        const std::string name = std::get<3>(key), sig = std::get<4>(key), cls = std::get<0>(key);
        auto f = members.find(key);
        if (f == members.end() && cls == "p/B" && derived) {
            std::get<0>(key) = "p/A";
            f = members.find(key);
            std::get<0>(key) = cls;
        }
        if (f != members.end()) {
            PBT_CHECK(c, id == f->second, "%s %s of %s is declared and %s", name.data(), sig.data(), cls.data(), id ? "another one was found" : "was not found");
            if (deny) survived = true;
        } else if (deny) {
            PBT_CHECK(c, !id, "%s %s of %s is denied and was found", name.data(), sig.data(), cls.data());
            if (deny == 2) refused = true;
        } else {
            PBT_CHECK(c, id && ids.insert(id).second, "%s %s of %s is neither declared nor denied and %s", name.data(), sig.data(), cls.data(), id ? "is another symbol" : "was not found");
            members[key] = id;
            mentioned(sig);
        }
    }
    bool derived = false;
    void hook() {
        auto k = any_class();
        ENV* e = jenv(env);
        Key key;
        jclass j = env->FindClass(k.first.data());
        void* id = nullptr;
        static jint g;
        std::string n = s.chance(1, 2) ? "m" : "n";
        switch (s.below(4)) {
            case 0:
                k.second->Hook(e, n, [](ENV*, jint) {});
                key = Key{k.first, false, true, n, "(I)V"};
                id = (void*)env->GetStaticMethodID(j, n.data(), "(I)V");
                break;
            case 1:
                k.second->HookInstanceFunction(e, n, [](ENV*, Object*) {});
                // (the same hook also is a function of an object)
                key = Key{k.first, false, false, n, "()V"};
                id = (void*)env->GetMethodID(j, n.data(), "()V");
                {
                    Key other{k.first, false, false, n, "(Ljava/lang/Object;)V"};
                    void* o = (void*)env->GetMethodID(j, n.data(), "(Ljava/lang/Object;)V");
                    if (o) {
                        members[other] = o;
                        ids.insert(o);
                    }
                }
                break;
            case 2:
                k.second->Hook(e, "g", &g);
                key = Key{k.first, true, true, "g", "I"};
                id = (void*)env->GetStaticFieldID(j, "g", "I");
                break;
            default:
                if (!classes.count("p/A")) return;
                {
                    auto a = native<Class>(env, env->FindClass("p/A"));
                    if (!typed) return;
                    a->Hook(e, "g", &A::g);
                    key = Key{"p/A", true, false, "g", "I"};
                    id = (void*)env->GetFieldID(env->FindClass("p/A"), "g", "I");
                }
        }
        PBT_NOTE(c, "hook %s%s %s of %s", std::get<2>(key) ? "static " : "", std::get<3>(key).data(), std::get<4>(key).data(), std::get<0>(key).data());
        PBT_CHECK(c, id, "a hooked symbol was not found");
        auto f = members.find(key);
        PBT_CHECK(c, f == members.end() || f->second == id, "hooking changes the identifier");
        PBT_CHECK(c, f != members.end() || ids.insert(id).second, "a hooked symbol is another one");
        members[key] = id;
    }
    bool typed = false;
    void op() {
        switch (s.weighted({3, 5, 8, 2, 1, 3})) {
            case 0: rule(jvm.get()); break;
            case 1: find_class(); break;
            case 2: member(); break;
            case 3: hook(); break;
            case 4: {  // declared by native code, whatever the rules say
                std::string n = s.pick(kClasses);
                PBT_NOTE(c, "declare class %s", n.data());
                auto k = jenv(env)->GetClass(n.data());
                exists(n);
                same_class(n, k.get(), "declaration");
                break;
            }
            default: {
                std::string n = s.pick(kClasses), m = s.pick(kNames), sg = s.pick(kSigs), f = s.pick(kFields), t = s.pick(kTypes);
                PBT_CHECK(c, jvm->isClassDenied(n.data()) == (classRules.count(n) != 0) && jvm->isClassBlacklisted(n.data()) == jvm->isClassDenied(n.data()), "isClassDenied of %s", n.data());
                bool want = denied(false, m, sg, n);
                PBT_CHECK(c, jvm->isMethodDenied(m.data(), sg.data(), n.data()) == want && jvm->isMethodBlacklisted(m.data(), sg.data(), n.data()) == want, "isMethodDenied of %s %s of %s", m.data(),
                          sg.data(), n.data());
                want = denied(true, f, t, n);
                PBT_CHECK(c, jvm->isFieldDenied(f.data(), t.data(), n.data()) == want && jvm->isFieldBlacklisted(f.data(), t.data(), n.data()) == want, "isFieldDenied of %s %s of %s", f.data(), t.data(),
                          n.data());
            }
        }
    }
};

void property_case(Case& c) {
    Src& s = c.s;
    Machine m(c);
    if (s.chance(1, 2)) {
        size_t n = s.below(4);
        m.jvm.reset(new Baron::Jvm([&](Baron::Jvm* j) {
            while (n-- > 0) m.rule(j);
        }));
    } else
        m.jvm.reset(new Baron::Jvm);
    m.vm = VM::FromJavaVM(m.jvm.get());
    bool second = s.chance(1, 4);
    JNIEnv* main = m.vm->GetJNIEnv();
    JNIEnv* other = nullptr;
    if (second)
        g_worker->run([&] { m.jvm->AttachCurrentThread(&other, nullptr); });
    m.env = main;
    main->PushLocalFrame(0);
    for (auto n : {"java/lang/Object", "java/lang/Class", "java/lang/String", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field",
                   "java/lang/ref/WeakReference", "internal/lang/Global"})
        m.exists(n);
    m.classes.erase("internal/lang/Global");  // not looked up by name
    if (s.chance(2, 3)) {
        m.typed = true;
        jenv(main)->GetClass<A>("p/A");
        m.exists("p/A");
        if (s.chance(1, 2)) {
            m.derived = true;
            jenv(main)->GetClass<B>("p/B");
            m.exists("p/B");
        }
        PBT_NOTE(c, "p/A is declared%s", m.derived ? ", p/B extends it" : "");
    }
    for (size_t n = 6 + s.len(60); n-- > 0;) {
        if (second && s.chance(1, 3)) {
            m.env = other;
            g_worker->run([&] {
                other->PushLocalFrame(0);
                m.op();
                other->PopLocalFrame(nullptr);
            });
            m.env = main;
        } else {
            main->PushLocalFrame(0);
            m.op();
            main->PopLocalFrame(nullptr);
        }
    }
    main->PopLocalFrame(nullptr);
    if (second) g_worker->run([&] { m.jvm->DetachCurrentThread(); });
    c.nontrivial = m.refused && m.survived;
    m.jvm.reset();
}
