// C14: registered natives against a table per class.
#include "graph.hpp"
#include "jnitable.hpp"
#include <fake-jni/fake-jni.h>
#include <map>
using pbt::Case;
using pbt::Src;
using jnivm::Object;

const char* const kProperty = "C14";
const char* const kRule =
    "a random class graph, then a history of registering natives (several at once, the same name and signature again, under equal names with other signatures, in base and "
    "derived classes), unregistering, hooking static and instance members, and invoking by name and signature on classes and objects of every class with random arguments "
    "(all primitive types, strings, arrays, up to beyond the register-passed part) and results, natives which throw included, against a table per class; non-trivial: a "
    "replaced or inherited native was invoked, and one was invoked or missing after an unregistration; identity: the draws";

using Str = jnivm::String;
using Ints = jnivm::Array<jint>;
static struct Env {
    std::vector<std::shared_ptr<Object>> pool;  // strings, then arrays
    // what the native received
    int ran = 0, k = -1, sig = -1;
    JNIEnv* env = nullptr;
    Object* recv = nullptr;
    std::vector<uint64_t> args;
    // what it does
    uint64_t ret = 0;
    bool raise = false;
} g;

template <class T> static uint64_t enc(JNIEnv*, T v) {
    uint64_t r = 0;
    memcpy(&r, &v, sizeof v);
    return r;
}
static uint64_t enc_obj(JNIEnv* env, jobject o) {
    if (!o) return 99;
    auto p = native<Object>(env, o);
    for (size_t i = 0; i < g.pool.size(); i++)
        if (g.pool[i] == p) return i;
    return 98;
}
static uint64_t enc(JNIEnv* env, jstring o) { return enc_obj(env, o); }
static uint64_t enc(JNIEnv* env, jintArray o) { return enc_obj(env, o); }
static uint64_t enc(JNIEnv* env, jobject o) { return enc_obj(env, o); }
template <class T> struct Dec {
    static T get(JNIEnv*, uint64_t v) {
        T r;
        memcpy(&r, &v, sizeof r);
        return r;
    }
};
template <class J> struct DecObj {
    static J get(JNIEnv* env, uint64_t v) { return v == 99 ? nullptr : (J)local(env, g.pool[v]); }
};
template <> struct Dec<jobject> : DecObj<jobject> {};
template <> struct Dec<jstring> : DecObj<jstring> {};
template <> struct Dec<jintArray> : DecObj<jintArray> {};
template <> struct Dec<void> {
    static void get(JNIEnv*, uint64_t) {}
};
// the native value handed to invoke for a parameter
template <class T> struct In {
    static T get(uint64_t v) { return Dec<T>::get(nullptr, v); }
    static uint64_t gen(Src& s) {
        uint64_t v = s.raw64();
        T x;
        memcpy(&x, &v, sizeof x);
        return enc(nullptr, x);
    }
};
template <> struct In<jboolean> {
    static jboolean get(uint64_t v) { return (jboolean)v; }
    static uint64_t gen(Src& s) { return s.below(2); }
};
template <> struct In<jstring> {
    static std::shared_ptr<Str> get(uint64_t v) { return v == 99 ? nullptr : std::dynamic_pointer_cast<Str>(g.pool[v]); }
    static uint64_t gen(Src& s) { return s.chance(1, 8) ? 99 : s.below(3); }
};
template <> struct In<jintArray> {
    static std::shared_ptr<Ints> get(uint64_t v) { return v == 99 ? nullptr : std::dynamic_pointer_cast<Ints>(g.pool[v]); }
    static uint64_t gen(Src& s) { return s.chance(1, 8) ? 99 : 3 + s.below(3); }
};

constexpr int kFns = 4;
struct Sig {
    const char* text;
    char ret;
    std::vector<void*> fn;
    std::function<std::vector<uint64_t>(Src&)> gen;
    std::function<jvalue(jnivm::MethodProxy&, JNIEnv&, jnivm::Class*, Object*, const std::vector<uint64_t>&)> invoke;
};
static std::vector<Sig> g_sigs;

template <int S, int K, class R, class... P> static R fn(JNIEnv* env, jobject recv, P... p) {
    g.ran++;
    g.k = K;
    g.sig = S;
    g.env = env;
    g.recv = native<Object>(env, recv).get();
    g.args = {enc(env, p)...};
    if (g.raise) env->ThrowNew(env->FindClass("java/lang/Throwable"), "native");
    return Dec<R>::get(env, g.ret);
}
template <int S, class R, class... P, size_t... I> static void add(const char* text, std::index_sequence<I...>) {
    Sig x;
    x.text = text;
    x.ret = text[strcspn(text, ")") + 1];
    x.fn = {(void*)&fn<S, 0, R, P...>, (void*)&fn<S, 1, R, P...>, (void*)&fn<S, 2, R, P...>, (void*)&fn<S, 3, R, P...>};
    x.gen = [](Src& s) { return std::vector<uint64_t>{In<P>::gen(s)...}; };
    x.invoke = [](jnivm::MethodProxy& m, JNIEnv& env, jnivm::Class* c, Object* o, const std::vector<uint64_t>& a) {
        (void)a;
        return c ? m.invoke(env, c, In<P>::get(a[I])...) : m.invoke(env, o, In<P>::get(a[I])...);
    };
    g_sigs.push_back(x);
}
template <int S, class R, class... P> static void add(const char* text) { add<S, R, P...>(text, std::index_sequence_for<P...>()); }

void property_setup() {
    add<0, void>("()V");
    add<1, jint, jint>("(I)I");
    add<2, jobject, jstring>("(Ljava/lang/String;)Ljava/lang/Object;");
    add<3, jdouble, jint, jlong, jdouble, jfloat>("(IJDF)D");
    add<4, jlong, jboolean, jbyte, jchar, jshort>("(ZBCS)J");
    add<5, jintArray, jintArray, jint, jstring>("([IILjava/lang/String;)[I");
    add<6, jfloat, jlong, jlong, jlong, jlong, jlong, jlong, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jfloat, jint>("(JJJJJJDDDDDDDDDFI)F");
    add<7, jboolean>("()Z");
    add<8, jbyte, jbyte>("(B)B");
    add<9, jshort, jshort>("(S)S");
    add<10, jchar, jchar>("(C)C");
    add<11, jint, jlong>("(J)I");
    add<12, void, jint>("(I)V");
    for (int i = 0; i < 3; i++) g.pool.push_back(std::make_shared<Str>("s" + std::to_string(i)));
    for (int i = 0; i < 3; i++) g.pool.push_back(std::make_shared<Ints>(i));
}

using Key = std::pair<std::string, int>;

void property_case(Case& c) {
    Src& s = c.s;
    FakeJni::Jvm jvm;
    FakeJni::LocalFrame frame(jvm);
    JNIEnv* env = &frame.getJniEnv();
    ENV* e = jenv(env);
    Graph G(s, e, 1 + s.below(5));
    int n = (int)G.size();
    std::vector<std::map<Key, int>> nat(n);             // function registered last
    std::vector<std::map<Key, int>> hooked[2];          // by staticness
    hooked[0].resize(n);
    hooked[1].resize(n);
    static int hook_ran, hook_arg;
    Refs refs(env);
    bool again = false, inherited = false, unregistered = false, after = false;
    int few = s.chance(1, 2) ? 3 : (int)g_sigs.size();  // few signatures: more collisions
    auto gen_key = [&] {
        static const char* names[] = {"f", "g", "fg", "gf"};
        return Key(names[s.weighted({6, 4, 2, 1})], (int)s.below((uint32_t)few));
    };
    auto show = [&](int cl, const Key& k) { return G.name[cl] + "." + k.first + g_sigs[k.second].text; };
    auto cref = [&](int cl) { return (jclass)refs.any(s, G.ref(env, cl)); };
    auto visible_hook = [&](int cl, const Key& k, int st) {
        return G.first(cl, [&](int x) { return hooked[st][x].count(k) > 0; });
    };
    PBT_NOTE(c, "%s", G.show().c_str());
    // the key is invoked on class cl, by getMethod
    auto check_invoke = [&](int cl, const Key& k) {
        const Sig& sig = g_sigs[k.second];
        int owner = G.first(cl, [&](int x) { return nat[x].count(k) > 0; });
        bool hook = visible_hook(cl, k, 0) >= 0 || visible_hook(cl, k, 1) >= 0;
        std::string name = k.first, text = sig.text;
        auto m = G.cls[cl]->getMethod(text.data(), name.data());
        const auto& cm = m;
        if (hook) {
            bool inst = visible_hook(cl, k, 0) >= 0, st = visible_hook(cl, k, 1) >= 0;
            PBT_CHECK(c, (bool)cm == (inst != st), "a hooked %s function %s is %s", inst ? st ? "static and non-static" : "non-static" : "static", show(cl, k).c_str(), inst == st ? "found without ambiguity" : "not found");
            jnivm::Method* found = nullptr;
            bool refused = false;
            try {
                found = m;
            } catch (const std::runtime_error&) {
                refused = true;
            }
            PBT_CHECK(c, refused == (inst && st), "hooked function %s: %s", show(cl, k).c_str(), refused ? "refused though there is one" : "one of two was taken");
            if (!refused) {
                jmethodID id = inst ? env->GetMethodID((jclass)(Object*)G.cls[cl].get(), name.data(), text.data()) : env->GetStaticMethodID((jclass)(Object*)G.cls[cl].get(), name.data(), text.data());
                PBT_CHECK(c, (jmethodID)found == id, "hooked function %s is another one by getMethod", show(cl, k).c_str());
            }
            return;  // which one an invocation means is not stated
        }
        PBT_CHECK(c, (bool)cm == (owner >= 0), "native %s is %s", show(cl, k).c_str(), owner < 0 ? "found, though it is not registered" : "not found");
        PBT_CHECK(c, (bool)m == (owner >= 0), "native %s is %s", show(cl, k).c_str(), owner < 0 ? "found, though it is not registered" : "not found");
        bool stat = s.chance(1, 2);
        auto o = Graph::object(G.cls[s.below((uint32_t)n)]);
        auto args = sig.gen(s);
        g.raise = s.chance(1, 8);
        g.ret = sig.ret == 'L' ? s.below(6) : sig.ret == '[' ? 3 + s.below(3) : sig.ret == 'Z' ? s.below(2) : s.raw64();
        int before = g.ran;
        bool threw = false;
        PBT_NOTE(c, "invoke %s on %s%s: %s", show(cl, k).c_str(), stat ? "the class" : "an object", g.raise ? " (throws)" : "", owner < 0 ? "none" : (G.name[owner] + "'s " + std::to_string(nat[owner][k])).c_str());
        jvalue r;
        memset(&r, 0, sizeof r);
        std::string w;
        try {
            r = sig.invoke(m, *env, stat ? G.cls[cl].get() : nullptr, stat ? nullptr : o.get(), args);
        } catch (const std::runtime_error& x) {
            threw = true;
            w = x.what();
        }
        if (owner < 0) {
            PBT_CHECK(c, threw && g.ran == before, "invoking a native which is not registered (%s) did not throw", show(cl, k).c_str());
            if (unregistered) after = true;
            return;
        }
        PBT_CHECK(c, threw == g.raise && (!threw || w == "native"), "invoking %s %s", show(cl, k).c_str(), threw ? ("threw " + w).c_str() : "did not hand the exception on");
        env->ExceptionClear();
        PBT_CHECK(c, g.ran == before + 1, "invoking %s ran %d natives", show(cl, k).c_str(), g.ran - before);
        PBT_CHECK(c, g.sig == k.second && g.k == nat[owner][k], "invoking %s ran function %d of %s instead of %d", show(cl, k).c_str(), g.k, g_sigs[g.sig].text, nat[owner][k]);
        PBT_CHECK(c, g.env == env, "native %s received another environment", show(cl, k).c_str());
        PBT_CHECK(c, g.recv == (stat ? (Object*)G.cls[cl].get() : o.get()), "native %s received another %s", show(cl, k).c_str(), stat ? "class" : "object");
        for (size_t i = 0; i < args.size(); i++) PBT_CHECK(c, g.args[i] == args[i], "native %s received argument %zu as %llx instead of %llx", show(cl, k).c_str(), i, (long long unsigned)g.args[i], (long long unsigned)args[i]);
        if (!threw) {
            uint64_t got = 0, want = g.ret;
            switch (sig.ret) {
                case 'Z': got = r.z, want = (uint8_t)want; break;
                case 'B': got = (uint8_t)r.b, want = (uint8_t)want; break;
                case 'C': got = r.c, want = (uint16_t)want; break;
                case 'S': got = (uint16_t)r.s, want = (uint16_t)want; break;
                case 'I': got = (uint32_t)r.i, want = (uint32_t)want; break;
                case 'J': got = (uint64_t)r.j; break;
                case 'F': got = enc(env, r.f), want = (uint32_t)want; break;
                case 'D': got = enc(env, r.d); break;
                case 'V': got = want; break;
                default: got = enc_obj(env, r.l);
            }
            PBT_CHECK(c, got == want, "native %s returned %llx instead of %llx", show(cl, k).c_str(), (long long unsigned)got, (long long unsigned)want);
        }
        if (owner != cl) inherited = true;
        if (unregistered) after = true;
    };
    // hooked members are reached by the JNI, and natives are not
    auto check_hook = [&](int cl, const Key& k) {
        if (k.first[0] == '<') return;
        std::string sg = g_sigs[k.second].text;
        for (int st = 0; st < 2; st++) {
            int owner = visible_hook(cl, k, st);
            jmethodID m = st ? env->GetStaticMethodID(G.ref(env, cl), k.first.data(), sg.data()) : env->GetMethodID(G.ref(env, cl), k.first.data(), sg.data());
            PBT_CHECK(c, (m != nullptr) == (owner >= 0), "%s member %s is %s", st ? "static" : "instance", show(cl, k).c_str(), m ? "found, though not hooked" : "not found");
            if (!m) continue;
            hook_ran = -1;
            hook_arg = 0;
            jvalue a[1];
            a[0].j = 0;
            a[0].i = 7;
            jobject o = local(env, Graph::object(G.cls[cl]));
            jclass cr = G.ref(env, cl);
            jint r = 7;
            if (sg == "()V")
                st ? env->CallStaticVoidMethodA(cr, m, a) : env->CallVoidMethodA(o, m, a);
            else if (sg == "(I)V")
                st ? env->CallStaticVoidMethodA(cr, m, a) : env->CallVoidMethodA(o, m, a);
            else
                r = st ? env->CallStaticIntMethodA(cr, m, a) : env->CallIntMethodA(o, m, a);
            PBT_CHECK(c, hook_ran == hooked[st][owner][k] && r == 7, "calling hooked member %s ran %d instead of %d", show(cl, k).c_str(), hook_ran, hooked[st][owner][k]);
        }
    };
    int tags = 0;
    size_t steps = 4 + s.len(40);
    for (size_t i = 0; i < steps; i++) {
        int cl = (int)s.below((uint32_t)n);
        env->PushLocalFrame(0);
        switch (s.weighted({6, 2, 2, 8, 2})) {
            case 0: {
                size_t m = s.len(5);
                // names and signatures need not outlive the call
                std::vector<std::unique_ptr<char[]>> text;
                std::vector<JNINativeMethod> l;
                auto keep = [&](const std::string& t) {
                    text.emplace_back(new char[t.size() + 1]);
                    memcpy(text.back().get(), t.c_str(), t.size() + 1);
                    return text.back().get();
                };
                for (size_t j = 0; j < m; j++) {
                    Key k = gen_key();
                    int f = (int)s.below(kFns);
                    if (nat[cl].count(k) && nat[cl][k] != f) again = true;
                    nat[cl][k] = f;
                    l.push_back({keep(k.first), keep(g_sigs[k.second].text), g_sigs[k.second].fn[f]});
                    PBT_NOTE(c, "register %s = %d", show(cl, k).c_str(), f);
                }
                PBT_CHECK(c, env->RegisterNatives(cref(cl), l.data(), (jint)m) == 0, "RegisterNatives failed");
                break;
            }
            case 1:
                PBT_NOTE(c, "unregister natives of %s", G.name[cl].c_str());
                PBT_CHECK(c, env->UnregisterNatives(cref(cl)) == 0, "UnregisterNatives failed");
                if (!nat[cl].empty()) unregistered = true;
                nat[cl].clear();
                break;
            case 2: {
                Key k = gen_key();
                int st = (int)s.below(2), tag = ++tags;
                if (k.first[0] == '<') break;
                std::string sg = g_sigs[k.second].text;
                auto hook = [&](auto f) { st ? G.cls[cl]->Hook(e, k.first.data(), std::move(f)) : G.cls[cl]->HookInstanceFunction(e, k.first.data(), std::move(f)); };
                if (sg == "()V")
                    hook([tag] { hook_ran = tag; });
                else if (sg == "(I)I")
                    hook([tag](jint a) { hook_ran = tag; return a; });
                else if (sg == "(I)V")
                    hook([tag](jint) { hook_ran = tag; });
                else
                    break;
                PBT_NOTE(c, "hook %s %s", st ? "static" : "instance", show(cl, k).c_str());
                hooked[st][cl][k] = tag;
                break;
            }
            case 3: {
                // mostly what was registered somewhere
                Key k = gen_key();
                if (s.chance(2, 3)) {
                    int x = (int)s.below((uint32_t)n);
                    if (!nat[x].empty()) {
                        auto it = nat[x].begin();
                        std::advance(it, s.below((uint32_t)nat[x].size()));
                        k = it->first;
                    }
                }
                check_invoke(cl, k);
                break;
            }
            default: check_hook(cl, gen_key());
        }
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
        env->PopLocalFrame(nullptr);
    }
    env->PushLocalFrame(0);
    for (int x = 0; x < n; x++) {
        for (auto& k : nat[x]) check_invoke(x, k.first);
        for (auto& h : hooked)
            for (auto& k : h[x]) check_hook(x, k.first);
    }
    env->PopLocalFrame(nullptr);
    c.nontrivial = (again || inherited) && after;
}
