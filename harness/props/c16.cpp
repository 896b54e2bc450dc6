// C16: concurrent use by attached threads.
#include "jvmutil.hpp"
#include <atomic>
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
#include <map>
#include <sched.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C16";
const char* const kRule =
    "programs for two to four threads over one VM, generated before the threads run, executed between barriers under ThreadSanitizer: attaching, detaching, the environment by "
    "every entry, classes (nested, in namespaces, of arrays), members known, inherited and unknown, constructors, conversion of shared native objects, global references handed "
    "between threads, weak references to living and dying objects, strings, arrays, hooked and unknown calls, exceptions, frames, monitors, natives, binding of types which no other or every thread binds, and hooks in the former; afterwards the identities "
    "recorded by all threads are compared with each other and the main thread's, and the lifetime of every object is checked; non-trivial: at least two threads made the "
    "same first lookup or conversion in one round; identity: the draws";

struct Base : Object {
    int id = 0;
    int own = 0;
    int guarded = 0;
};
struct Derived : jnivm::Extends<Base> {};
using SP = std::shared_ptr<Base>;

// Types which no class is bound to before the threads start: kOwn for each thread, and kCommon which all may bind
constexpr int kOwn = 6, kCommon = 3, kLate = 4 * kOwn + kCommon;
template <int I>
struct Late : jnivm::Extends<std::conditional_t<I % 2, Derived, Base>> {
    int value = I;
};
struct Binding {
    std::shared_ptr<jnivm::Class> (*bind)(ENV* e, const char* name);
    void (*hook)(ENV* e, jnivm::Class* c);
    std::shared_ptr<Base> (*make)();
    jobject (*local)(JNIEnv* e, const SP& p);
};
template <int I>
static Binding binding() {
    return {[](ENV* e, const char* name) { return e->GetClass<Late<I>>(name); },
            [](ENV* e, jnivm::Class* c) {
                c->Hook(e, "g", [](ENV*, jint x) { return (jint)(x + I); });
                c->HookInstance(e, "h", [](ENV*, Late<I>* t, jint x) { return (jint)(t->value + x); });
                c->HookInstance(e, "same", [](ENV*, Late<I>* t, std::shared_ptr<Late<I>> o) { return (jboolean)(o.get() == t); });
                c->Hook(e, "value", &Late<I>::value);
            },
            []() -> SP { return std::make_shared<Late<I>>(); },
            [](JNIEnv* e, const SP& p) { return local(e, std::dynamic_pointer_cast<Late<I>>(p)); }};
}
template <int... I>
static Binding late(int i, std::integer_sequence<int, I...>) {
    static const Binding b[] = {binding<I>()...};
    return b[i];
}

// A class which names itself: objects of it find their class again with every conversion
class Thing : public FakeJni::JObject {
public:
    DEFINE_CLASS_NAME("c16/Thing")
    FakeJni::JInt n = 4;
    FakeJni::JInt add(FakeJni::JInt x) { return n + x; }
    static FakeJni::JInt twice(FakeJni::JInt x) { return 2 * x; }
};
BEGIN_NATIVE_DESCRIPTOR(Thing)
{FakeJni::Constructor<Thing>{}},
{FakeJni::Field<&Thing::n>{}, "n"},
{FakeJni::Function<&Thing::add>{}, "add"},
{FakeJni::Function<&Thing::twice>{}, "twice", FakeJni::JMethodID::STATIC},
END_NATIVE_DESCRIPTOR
class Sub : public Thing {
public:
    DEFINE_CLASS_NAME("c16/Sub", Thing)
    FakeJni::JInt sub() { return n * 3; }
};
BEGIN_NATIVE_DESCRIPTOR(Sub)
{FakeJni::Constructor<Sub>{}},
{FakeJni::Function<&Sub::sub>{}, "sub"},
END_NATIVE_DESCRIPTOR

constexpr int kThreads = 4;
static Worker* g_worker[kThreads];
void property_setup() {
    for (int i = 1; i < kThreads; i++) g_worker[i] = new Worker;
}
static void nat(JNIEnv*, jobject) {}

static const char* kClasses[] = {"p/A", "p/B", "p/A$I", "p/A$J", "p/q/C", "q/C", "D", "[I", "[Lp/A;", "p/A$I$K", "[[I", "p/q/r/E", "java/lang/Object", "java/lang/String"};
static const char* kSigs[] = {"()V", "(I)I", "(Lz/N;)V", "(Lz/N$M;[Ly/O;)Lx/P;", "()Ljava/lang/String;"};
static const char* kTypes[] = {"I", "Lz/N;", "[Lw/Q;", "Lz/N$M;", "J"};
static const char* kUnknown[] = {"()Lu/U;", "()[I", "()[Lu/U;", "()Lu/V$W;", "()[B", "(Lu/T;I)Lu/U;"};

// (the class of an object is that of the type it is first converted as)
static jobject tolocal(JNIEnv* env, const SP& p) {
    auto d = std::dynamic_pointer_cast<Derived>(p);
    return d ? local(env, d) : local(env, p);
}

enum Kind { FIND, METHOD, FIELD, CTOR, CONVERT, PUBLISH, TAKE, WEAK, DYING, STRING, ARRAY, CALL, UNKNOWN, THROW, FRAME, ENVS, REATTACH, SUPER, OWN, NATIVES, MONITOR, GLOBAL, THING, BIND, KINDS };
static const char* kKind[] = {"find", "method", "field", "ctor", "convert", "publish", "take", "weak", "dying", "string", "array", "call", "unknown", "throw", "frame", "envs", "reattach", "super", "own", "natives", "monitor", "global", "thing", "bind"};
struct Op {
    int kind, a, b, c;
};
struct Item {
    jobject ref;
    int id;
};
struct Shared {
    VM* vm;
    JavaVM* java;
    bool baron;
    int used = 2, rounds = 1;
    std::vector<SP> objs;             // owned all along
    std::vector<jobject> globals;     // main's references to objs
    std::vector<SP> dying;            // the i-th is dropped by one thread
    std::vector<jweak> weaks;         // main's references to dying
    std::atomic<Item*> slot[3] = {{nullptr}, {nullptr}, {nullptr}};
    std::atomic<int> arrived{0};
};

struct Thread {
    Shared& sh;
    int me;
    std::vector<std::vector<Op>> prog;
    JNIEnv* env = nullptr;
    std::string err;
    std::map<std::string, std::vector<void*>> seen;
    std::vector<std::pair<jobject, int>> globals;  // own references
    std::vector<bool> gone;
    std::weak_ptr<Base> mine;
    int bound = 0;  // own late types
    Thread(Shared& sh, int me) : sh(sh), me(me) {}
    struct Error {};
    void want(bool ok, const std::string& what) {
        if (ok) return;
        if (err.empty()) err = "thread " + std::to_string(me) + ": " + what;
        throw Error{};
    }
    void rec(const std::string& k, const void* p) {
        want(p != nullptr, k + " yields nothing");
        auto& v = seen[k];
        want(v.empty() || v[0] == p, k + " yields another identity to the same thread");
        if (v.empty()) v.push_back(const_cast<void*>(p));
    }
    std::shared_ptr<jnivm::Class> cls(jobject o) { return native<jnivm::Class>(env, o); }
    void attach() {
        JNIEnv* e = nullptr;
        want(sh.java->AttachCurrentThread(&e, nullptr) == JNI_OK && e, "attaching fails");
        env = e;
    }
    jclass find(const char* n) {
        jclass c = env->FindClass(n);
        want(c != nullptr, std::string("FindClass of ") + n + " fails");
        rec(std::string("class ") + n, cls(c).get());
        return c;
    }
    void run() {
        for (size_t i = 0; i < prog.size(); i++) {
            // all threads start a round together
            int n = sh.arrived.fetch_add(1) + 1;
            int goal = (n + sh.used - 1) / sh.used * sh.used;
            for (int spin = 0; sh.arrived.load() < goal; spin++)
                if (spin > 2000) sched_yield();
            if (err.empty()) ops(prog[i], false);
        }
    }
    void ops(const std::vector<Op>& l, bool lookups) {
        try {
            if (!env) attach();
            for (auto& o : l) {
                if (lookups && o.kind > CTOR) continue;
                env->PushLocalFrame(0);
                op(o);
                env->PopLocalFrame(nullptr);
            }
        } catch (Error&) {
        } catch (std::exception& x) {
            err = "thread " + std::to_string(me) + ": exception " + x.what();
        }
    }
    jobject ref(int x, bool global) { return global && sh.globals[(size_t)x] ? sh.globals[(size_t)x] : tolocal(env, sh.objs[(size_t)x]); }
    void op(const Op& o) {
        JNIEnv* e = env;
        std::string k = std::to_string(o.a);
        switch (o.kind) {
            case FIND: find(kClasses[o.a % 14]); break;
            case METHOD: {
                // hooked members are looked up through both classes, each unknown one always through the same one
                bool st = o.b & 1;
                switch (o.a % 5) {
                    case 0: rec(o.b & 2 ? "f" : "derived f", e->GetMethodID(find(o.b & 2 ? "p/Base" : "p/Derived"), "f", "()I")); break;
                    case 1: rec("sf", e->GetStaticMethodID(find(o.b & 2 ? "p/Base" : "p/Derived"), "sf", "(I)I")); break;
                    default: {
                        const char* cl = o.a % 5 == 2 ? "p/Base" : o.a % 5 == 3 ? "p/Derived" : "p/A";
                        std::string n = std::string("m") + cl[2] + std::to_string(o.c % 3);
                        const char* sig = kSigs[o.b / 2 % 5];
                        jclass c = find(cl);
                        rec(std::string("method ") + cl + n + sig + (st ? " static" : ""), st ? e->GetStaticMethodID(c, n.data(), sig) : e->GetMethodID(c, n.data(), sig));
                    }
                }
                break;
            }
            case FIELD: {
                bool st = o.b & 1;
                if (o.a % 4 == 0) {
                    rec("own", e->GetFieldID(find(o.b & 2 ? "p/Base" : "p/Derived"), "own", "I"));
                    break;
                }
                const char* cl = o.a % 4 == 1 ? "p/Base" : o.a % 4 == 2 ? "p/Derived" : "p/A";
                std::string n = std::string("v") + cl[2] + std::to_string(o.c % 3);
                const char* t = kTypes[o.b / 2 % 5];
                jclass c = find(cl);
                rec(std::string("field ") + cl + n + t + (st ? " static" : ""), st ? e->GetStaticFieldID(c, n.data(), t) : e->GetFieldID(c, n.data(), t));
                break;
            }
            case CTOR: {
                const char* cl = kClasses[o.a % 3];
                rec(std::string("ctor ") + cl, e->GetMethodID(find(cl), "<init>", "(Lz/N;)V"));
                break;
            }
            case CONVERT: {
                auto& p = sh.objs[o.a % sh.objs.size()];
                jobject l = tolocal(e, p);
                auto c = cls(e->GetObjectClass(l));
                bool d = dynamic_cast<Derived*>(p.get());
                rec(d ? "class p/Derived" : "class p/Base", c.get());
                want(e->IsInstanceOf(l, find("p/Base")), "an object is no instance of its class");
                want(e->IsInstanceOf(l, find("p/Derived")) == d, "IsInstanceOf of the derived class");
                want(native<Base>(e, l) == p, "a local reference yields another object");
                break;
            }
            case PUBLISH: {
                int x = o.a % (int)sh.objs.size();
                jobject g = e->NewGlobalRef(ref(x, o.b & 1));
                want(g && e->GetObjectRefType(g) == JNIGlobalRefType, "no global reference was made");
                Item* old = sh.slot[o.b / 2 % 3].exchange(new Item{g, x});
                if (old) use(old);
                break;
            }
            case TAKE: {
                Item* old = sh.slot[o.b % 3].exchange(nullptr);
                if (old) use(old);
                break;
            }
            case GLOBAL: {
                if (o.b & 1 && !globals.empty()) {
                    auto g = globals.back();
                    globals.pop_back();
                    want(native<Base>(e, g.first) == sh.objs[g.second], "a global reference yields another object");
                    e->DeleteGlobalRef(g.first);
                } else {
                    int x = o.a % (int)sh.objs.size();
                    jobject r = ref(x, true), g = e->NewGlobalRef(r);
                    want(g && e->IsSameObject(g, r), "a global reference is another object");
                    globals.push_back({g, x});
                }
                break;
            }
            case WEAK: {
                int x = o.a % (int)sh.objs.size();
                jweak w = e->NewWeakGlobalRef(ref(x, o.b & 1));
                want(w && e->GetObjectRefType(w) == JNIWeakGlobalRefType && native<Base>(e, w) == sh.objs[x], "a weak reference yields another object");
                jobject l = e->NewLocalRef(w);
                want(l && native<Base>(e, l) == sh.objs[x], "a weak reference yields another local reference");
                e->DeleteWeakGlobalRef(w);
                break;
            }
            case DYING: {
                if (sh.dying.empty()) break;
                size_t x = (size_t)o.a % sh.dying.size();
                if ((int)(x % (size_t)sh.used) == me && o.b & 1) {
                    if (sh.dying[x]) {
                        want(native<Base>(e, sh.weaks[x]) == sh.dying[x], "a weak reference to a living object yields another one");
                        sh.dying[x] = nullptr;
                    }
                } else {
                    jobject l = e->NewLocalRef(sh.weaks[x]);
                    if (l) {
                        want(!gone[x], "a dead object is alive again");
                        want(native<Base>(e, l)->id == 100 + (int)x, "a weak reference yields another object");
                        want(!e->IsSameObject(sh.weaks[x], nullptr), "a weak reference to a held object is null");
                        want(e->IsSameObject(sh.weaks[x], l), "a weak reference to a held object is another one");
                        if (o.c & 1) {
                            jobject g = e->NewGlobalRef(sh.weaks[x]);
                            want(g && native<Base>(e, g)->id == 100 + (int)x, "a global reference to a held object is none");
                            e->DeleteGlobalRef(g);
                        }
                    } else {
                        gone[x] = true;
                        want(e->IsSameObject(sh.weaks[x], nullptr), "a dead weak reference is not null");
                    }
                }
                break;
            }
            case STRING: {
                std::string t = "t" + std::to_string(me) + "." + std::string((size_t)o.b % 40, 'x');
                jstring s = e->NewStringUTF(t.data());
                want(e->GetStringUTFLength(s) == (jsize)t.size(), "length of a string");
                want(t == e->GetStringUTFChars(s, nullptr), "text of a string");
                const jchar* u = e->GetStringChars(s, nullptr);
                jstring s2 = e->NewString(u, e->GetStringLength(s));
                e->ReleaseStringChars(s, u);
                want(t == e->GetStringUTFChars(s2, nullptr), "text of a copied string");
                rec("class java/lang/String", cls(e->GetObjectClass(s)).get());
                break;
            }
            case ARRAY: {
                jsize n = 1 + o.b % 5;
                if (o.a & 1) {
                    jintArray a = e->NewIntArray(n);
                    std::vector<jint> in((size_t)n, me * 100 + o.c), out((size_t)n);
                    e->SetIntArrayRegion(a, 0, n, in.data());
                    e->GetIntArrayRegion(a, 0, n, out.data());
                    want(in == out && e->GetArrayLength(a) == n, "contents of an array");
                    rec("class [I", cls(e->GetObjectClass(a)).get());
                } else {
                    const char* el = o.a & 2 ? "p/A" : "u/U";
                    int x = o.c % (int)sh.objs.size();
                    jobjectArray a = e->NewObjectArray(n, find(el), ref(x, o.a & 4));
                    want(native<Base>(e, e->GetObjectArrayElement(a, n - 1)) == sh.objs[x], "element of an array");
                    e->SetObjectArrayElement(a, 0, nullptr);
                    want(!e->GetObjectArrayElement(a, 0), "element of an array");
                    rec(std::string("class [L") + el + ";", cls(e->GetObjectClass(a)).get());
                }
                break;
            }
            case CALL: {
                int x = o.a % (int)sh.objs.size();
                bool d = dynamic_cast<Derived*>(sh.objs[x].get());
                jobject ob = ref(x, o.b & 1);
                switch (o.c % 5) {
                    case 0: {
                        jclass c = find(o.b & 2 ? "p/Base" : "p/Derived");
                        want(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "sf", "(I)I"), o.a) == o.a * 2 + 1, "result of a static function");
                        break;
                    }
                    case 1: want(e->CallIntMethod(ob, e->GetMethodID(find("p/Base"), "f", "()I")) == (d ? 2 : 1), "result of a virtual call"); break;
                    case 2: {
                        jclass c = find("p/Base");
                        want(e->CallNonvirtualIntMethod(ob, c, e->GetMethodID(c, "f", "()I")) == 1, "result of a non-virtual call");
                        break;
                    }
                    case 3: {  // arguments and results which are objects
                        jclass c = find("p/Base");
                        jobject r = e->CallObjectMethod(ob, e->GetMethodID(c, "self", "(Lp/Base;)Lp/Base;"), ref(x, o.b & 2));
                        want(e->IsSameObject(r, ob), "object result of a call");
                        break;
                    }
                    default: {
                        jclass c = find("p/Base");
                        e->CallVoidMethod(ob, e->GetMethodID(c, "boom", "()V"));
                        pending("boom");
                    }
                }
                break;
            }
            case UNKNOWN: {
                const char* sig = kUnknown[o.a % 6];
                jclass c = find(o.b & 1 ? "p/A" : "p/Base");
                std::string n = std::string("u") + (o.b & 1 ? "A" : "B");
                jobject r;
                if (o.b & 2) {
                    jmethodID m = e->GetStaticMethodID(c, n.data(), sig);
                    rec("unknown static " + n + sig, m);
                    r = e->CallStaticObjectMethod(c, m, nullptr, 1);
                } else {
                    jmethodID m = e->GetMethodID(c, n.data(), sig);
                    rec("unknown " + n + sig, m);
                    r = e->CallObjectMethod(ref(0, true), m, nullptr, 1);
                }
                want(r != nullptr, "an unknown function yields nothing");
                std::string t = strchr(sig, ')') + 1;
                if (t[0] == 'L') t = t.substr(1, t.size() - 2);
                rec("class " + t, cls(e->GetObjectClass(r)).get());
                break;
            }
            case THROW: {
                std::string t = "t" + std::to_string(me) + "." + k;
                e->ThrowNew(find("java/lang/Throwable"), t.data());
                if (o.b % 3) {  // again, as an object
                    jthrowable x = e->ExceptionOccurred();
                    std::weak_ptr<jnivm::Object> w = native<jnivm::Object>(e, x);
                    e->ExceptionClear();
                    jthrowable g = o.a & 1 ? (jthrowable)e->NewGlobalRef(x) : x;
                    want(e->Throw(g) == 0, "Throw fails");
                    if (g != x) e->DeleteGlobalRef(g);
                    e->DeleteLocalRef(x);
                    want(!w.expired(), "a pending exception was destroyed");
                    if (o.b % 3 == 1) {
                        e->ExceptionClear();
                        want(w.expired(), "an exception outlives its references");
                        break;
                    }
                }
                pending(t);
                break;
            }
            case FRAME: {
                auto p = std::make_shared<Base>();
                p->id = 1000 + me;
                mine = p;
                e->PushLocalFrame(o.b % 3 ? o.b % 3 : o.b % 200);
                jobject l = tolocal(e, p);
                p = nullptr;
                want(!mine.expired(), "an object was destroyed though a local reference refers to it");
                jobject g = o.a & 1 ? e->NewGlobalRef(l) : nullptr;
                jobject r = e->PopLocalFrame(o.a & 2 ? l : nullptr);
                want(mine.expired() == !(o.a & 3), "an object is alive or dead against its references");
                if (g) {
                    want(native<Base>(e, g)->id == 1000 + me, "a global reference yields another object");
                    e->DeleteGlobalRef(g);
                }
                if (o.a & 2) e->DeleteLocalRef(r);
                want(mine.expired(), "an object outlives its references");
                break;
            }
            case ENVS: {
                JNIEnv* o2 = nullptr;
                want(sh.java->GetEnv((void**)&o2, JNI_VERSION_1_6) == JNI_OK && o2 == e, "GetEnv yields another environment");
                want(sh.vm->GetEnv().get() == jenv(e) && sh.vm->GetJNIEnv() == e, "the VM yields another environment");
                JavaVM* j = nullptr;
                want(e->GetJavaVM(&j) == JNI_OK && j == sh.java, "GetJavaVM yields another VM");
                break;
            }
            case REATTACH: {
                if (me == 0) break;
                auto p = std::make_shared<Base>();
                mine = p;
                tolocal(e, p);
                p = nullptr;
                want(sh.java->DetachCurrentThread() == JNI_OK, "detaching fails");
                want(mine.expired(), "an object outlives its thread's environment");
                attach();
                env->PushLocalFrame(0);  // popped by the caller
                break;
            }
            case SUPER: {
                jclass d = find("p/Derived"), b = find("p/Base");
                want(e->IsSameObject(e->GetSuperclass(d), b), "the base class is another one");
                want(e->IsAssignableFrom(d, b) && !e->IsAssignableFrom(b, d), "IsAssignableFrom");
                break;
            }
            case OWN: {
                auto p = std::make_shared<Derived>();
                jobject l = local(e, p);
                jfieldID f = e->GetFieldID(find(o.b & 1 ? "p/Base" : "p/Derived"), "own", "I");
                rec("own", f);
                e->SetIntField(l, f, o.a);
                want(p->own == o.a && e->GetIntField(l, f) == o.a, "a field differs");
                break;
            }
            case NATIVES: {
                std::string n = "n" + std::to_string(me) + std::to_string(o.a % 3);
                JNINativeMethod m{const_cast<char*>(n.data()), const_cast<char*>("()V"), (void*)nat};
                if (o.b & 2) {  // everyone's, now and then without natives
                    jclass k = find("p/Nat");
                    if (o.a & 1) want(e->UnregisterNatives(k) == 0, "UnregisterNatives fails");
                    want(e->RegisterNatives(k, &m, 1) == 0, "RegisterNatives fails");
                    if (o.a & 2) want(e->UnregisterNatives(k) == 0, "UnregisterNatives fails");
                    break;
                }
                want(e->RegisterNatives(find(o.b & 1 ? "p/A" : "p/Base"), &m, 1) == 0, "RegisterNatives fails");
                break;
            }
            case THING: {
                if (!sh.baron) break;
                bool d = o.b & 1;
                const char* name = d ? "c16/Sub" : "c16/Thing";
                std::shared_ptr<Thing> t = d ? std::make_shared<Sub>() : std::make_shared<Thing>();
                t->n = o.a;
                jobject l;
                switch (o.c % 4) {
                    case 0:
                    case 1: l = o.c & 1 ? local(e, t) : local<Object>(e, t); break;
                    case 2: {
                        jclass k = find(name);
                        l = e->NewObject(k, e->GetMethodID(k, "<init>", "()V"));
                        break;
                    }
                    default: {  // nothing implements it
                        jclass k = find("p/A");
                        l = e->CallStaticObjectMethod(k, e->GetStaticMethodID(k, "thing", d ? "()Lc16/Sub;" : "()Lc16/Thing;"));
                    }
                }
                jclass k = e->GetObjectClass(l);
                rec(std::string("class ") + name, cls(k).get());
                want(e->IsInstanceOf(l, find("c16/Thing")) && e->IsInstanceOf(l, find("c16/Sub")) == d, "IsInstanceOf of an object which names its class");
                jfieldID f = e->GetFieldID(k, "n", "I");
                rec("thing n", f);
                e->SetIntField(l, f, o.a);
                jmethodID m = e->GetMethodID(k, "add", "(I)I"), st = e->GetStaticMethodID(find("c16/Thing"), "twice", "(I)I");
                rec("thing add", m);
                rec("thing twice", st);
                want(e->CallIntMethod(l, m, 5) == o.a + 5 && e->CallStaticIntMethod(find("c16/Thing"), st, o.b) == 2 * o.b, "a call of a class which names itself differs");
                if (d) want(e->CallIntMethod(l, e->GetMethodID(k, "sub", "()I")) == o.a * 3, "a call of a class which names itself differs");
                break;
            }
            case BIND: {
                if (o.b % 8 == 0) {  // bound long ago
                    rec("class p/Base", jenv(e)->GetClass<Base>("p/Base").get());
                    rec("class p/Derived", jenv(e)->GetClass<Derived>("p/Derived").get());
                    break;
                }
                bool common = o.b & 1, first = false;
                int i;
                if (common)
                    i = 4 * kOwn + o.a % kCommon;
                else if ((first = bound < kOwn && (!bound || o.a % 4)))
                    i = me * kOwn + bound++;
                else
                    i = me * kOwn + o.c % bound;
                Binding b = late(i, std::make_integer_sequence<int, kLate>{});
                std::string n = "late/L" + std::to_string(i);
                if (o.c & 4) find(n.data());
                auto c = b.bind(jenv(e), n.data());
                rec("class " + n, c.get());
                if (first) b.hook(jenv(e), c.get());
                bool d = i % 2;
                jclass k = find(n.data());
                want(e->IsSameObject(e->GetSuperclass(k), find(d ? "p/Derived" : "p/Base")), "the base class of a type bound late is another one");
                want(e->IsAssignableFrom(k, find("p/Base")), "a type bound late is not assignable to its base");
                SP p = b.make();
                p->own = o.a;
                jobject l = b.local(e, p);
                want(cls(e->GetObjectClass(l)) == c, "an object of a type bound late has another class");
                want(e->IsInstanceOf(l, find("p/Derived")) == d, "IsInstanceOf of an object of a type bound late");
                want(e->CallIntMethod(l, e->GetMethodID(k, "f", "()I")) == (d ? 2 : 1), "an inherited call on a type bound late");
                want(e->GetIntField(l, e->GetFieldID(k, "own", "I")) == o.a, "an inherited field of a type bound late");
                jclass a = find("p/A");
                jobject r = e->CallStaticObjectMethod(a, e->GetStaticMethodID(a, "late", ("()L" + n + ";").data()));
                want(r && cls(e->GetObjectClass(r)) == c && native<Base>(e, r), "nothing of a type bound late was made for an unknown call");
                if (!common) {
                    want(e->CallStaticIntMethod(k, e->GetStaticMethodID(k, "g", "(I)I"), 5) == i + 5, "a static function of a type bound late");
                    want(e->CallIntMethod(l, e->GetMethodID(k, "h", "(I)I"), 7) == i + 7, "a function of a type bound late");
                    want(e->CallBooleanMethod(l, e->GetMethodID(k, "same", ("(L" + n + ";)Z").data()), l), "a function of a type bound late got other objects");
                    jfieldID v = e->GetFieldID(k, "value", "I");
                    e->SetIntField(r, v, 3);
                    want(e->GetIntField(r, v) == 3 && e->GetIntField(l, v) == i, "a field of a type bound late");
                }
                break;
            }
            case MONITOR: {
                int x = o.a % (int)sh.objs.size();
                jobject ob = ref(x, o.b & 1);
                e->MonitorEnter(ob);
                int n = ++sh.objs[x]->guarded;
                if (o.b & 2) sched_yield();
                bool ok = n == sh.objs[x]->guarded;
                e->MonitorExit(ref(x, true));
                want(ok, "another thread was inside the monitor");
                break;
            }
        }
    }
    void use(Item* it) {
        std::unique_ptr<Item> g(it);
        jobject l = env->NewLocalRef(g->ref);
        want(native<Base>(env, g->ref) == sh.objs[(size_t)g->id], "a global reference of another thread yields another object");
        env->DeleteGlobalRef(g->ref);
        want(l && native<Base>(env, l) == sh.objs[(size_t)g->id], "a local reference yields another object");
    }
    void pending(const std::string& t) {
        want(env->ExceptionCheck(), "no exception is pending");
        auto x = native<jnivm::Throwable>(env, env->ExceptionOccurred());
        std::string w;
        try {
            if (x) std::rethrow_exception(x->except);
        } catch (const std::exception& ex) {
            w = ex.what();
        }
        env->ExceptionClear();
        want(w == t, "exception " + w + " is pending instead of " + t);
        want(!env->ExceptionCheck(), "an exception is pending after clearing");
    }
};

void property_case(Case& c) {
    Src& s = c.s;
    std::unique_ptr<VM> plain;
    std::unique_ptr<Baron::Jvm> baron;
    Shared sh;
    sh.baron = s.chance(1, 2);
    if (sh.baron) baron.reset(new Baron::Jvm);
    else plain.reset(new VM());
    sh.vm = baron ? VM::FromJavaVM(baron.get()) : plain.get();
    sh.java = sh.vm->GetJavaVM();
    JNIEnv* env = sh.vm->GetJNIEnv();
    if (baron) {
        baron->registerClass<Thing>();
        baron->registerClass<Sub>();
    }
    ENV* e = jenv(env);
    env->PushLocalFrame(0);
    auto base = e->GetClass<Base>("p/Base");
    auto derived = e->GetClass<Derived>("p/Derived");
    base->HookInstanceFunction(e, "f", [](ENV*, Base*) { return (jint)1; });
    derived->HookInstanceFunction(e, "f", [](ENV*, Derived*) { return (jint)2; });
    base->Hook(e, "sf", [](ENV*, jint x) { return (jint)(x * 2 + 1); });
    base->HookInstanceFunction(e, "self", [](ENV*, Base*, std::shared_ptr<Base> o) { return o; });
    base->HookInstanceFunction(e, "boom", [](ENV*, Base*) { throw std::runtime_error("boom"); });
    base->Hook(e, "own", &Base::own);
    sh.used = 2 + (int)s.weighted({5, 2, 2});
    sh.rounds = 1 + (int)s.below(4);
    size_t n = 1 + s.below(4);
    for (size_t i = 0; i < n; i++) {
        SP p = s.chance(1, 2) ? SP(std::make_shared<Derived>()) : std::make_shared<Base>();
        p->id = (int)i;
        sh.objs.push_back(p);
    }
    std::vector<std::weak_ptr<Base>> dead;
    for (size_t i = s.below(4); i-- > 0;) {
        auto p = std::make_shared<Base>();
        p->id = 100 + (int)sh.dying.size();
        dead.push_back(p);
        sh.dying.push_back(p);
    }
    // some objects get global references before; the others are first converted by a thread
    for (auto& p : sh.objs) {
        sh.globals.push_back(s.chance(1, 2) ? env->NewGlobalRef(tolocal(env, p)) : nullptr);
        PBT_NOTE(c, "object %d: %s%s", p->id, dynamic_cast<Derived*>(p.get()) ? "derived" : "base", sh.globals.back() ? ", global reference" : "");
    }
    for (auto& p : sh.dying) sh.weaks.push_back(env->NewWeakGlobalRef(local(env, p)));
    env->PopLocalFrame(nullptr);
    std::vector<std::unique_ptr<Thread>> th;
    for (int i = 0; i < sh.used; i++) th.emplace_back(new Thread(sh, i));
    std::map<std::pair<int, int>, int> count;
    for (int r = 0; r < sh.rounds; r++) {
        std::vector<Op> common;
        for (auto& t : th) {
            std::vector<Op> p;
            for (size_t k = 1 + s.len(12); k-- > 0;) {
                Op o{};
                // often what another thread does in this round, too
                if (!common.empty() && s.chance(1, 3))
                    o = s.pick(common);
                else {
                    o.kind = (int)s.weighted({6, 6, 4, 2, 5, 3, 2, 3, 3, 1, 3, 4, 4, 2, 2, 2, 2, 1, 2, 2, 2, 3, sh.baron ? 6u : 0u, 3});
                    o.a = (int)s.below(16);
                    o.b = (int)s.below(16);
                    o.c = (int)s.below(8);
                    common.push_back(o);
                }
                p.push_back(o);
                PBT_NOTE(c, "round %d, thread %d: %s %d %d %d", r, t->me, kKind[o.kind], o.a, o.b, o.c);
                int bit = 1 << t->me;
                int& m = count[{o.kind * 16 + o.a, o.kind == FIND || o.kind == CONVERT ? 0 : o.b * 8 + o.c}];
                if ((o.kind <= CONVERT || o.kind == UNKNOWN || o.kind == BIND) && m && !(m & bit) && r == 0) c.nontrivial = true;
                m |= bit;
            }
            t->prog.push_back(p);
        }
    }
    for (auto& t : th) t->gone.resize(sh.dying.size());
    for (int i = 1; i < sh.used; i++) g_worker[i]->start([&, i] { th[i]->run(); });
    th[0]->run();
    for (int i = 1; i < sh.used; i++) g_worker[i]->finish();
    for (auto& t : th) PBT_CHECK(c, t->err.empty(), "%s", t->err.c_str());
    // the same lookups yield the same identities in all threads, and now
    Thread after(sh, -1);
    std::map<std::string, void*> all;
    for (auto& t : th)
        for (auto& r : t->prog) after.ops(r, true);
    PBT_CHECK(c, after.err.empty(), "afterwards, %s", after.err.c_str());
    for (auto& t : th)
        for (auto& k : t->seen) {
            auto i = all.emplace(k.first, k.second[0]).first;
            PBT_CHECK(c, i->second == k.second[0], "%s yields another identity to thread %d", k.first.c_str(), t->me);
            if (k.first.compare(0, 6, "class ") == 0) {
                env->PushLocalFrame(0);
                auto cl = native<jnivm::Class>(env, env->FindClass(k.first.c_str() + 6));
                env->PopLocalFrame(nullptr);
                PBT_CHECK(c, cl.get() == k.second[0], "%s yields another identity afterwards", k.first.c_str());
            }
        }
    for (auto& k : after.seen) {
        auto i = all.find(k.first);
        PBT_CHECK(c, i == all.end() || i->second == k.second[0], "%s yields another identity afterwards", k.first.c_str());
    }
    // nothing is lost, nothing lives longer than its references
    for (size_t i = 0; i < dead.size(); i++) PBT_CHECK(c, dead[i].expired() == !sh.dying[i], "object %zu is %s", 100 + i, dead[i].expired() ? "destroyed early" : "alive, though nothing refers to it");
    std::vector<std::weak_ptr<Base>> objs(sh.objs.begin(), sh.objs.end());
    sh.objs.clear();
    std::vector<int> held(objs.size());
    auto check = [&](size_t x) { PBT_CHECK(c, objs[x].expired() == !held[x], "object %zu is %s with %d global references", x, held[x] ? "destroyed" : "alive", held[x]); };
    std::vector<Item> left;
    for (size_t x = 0; x < objs.size(); x++)
        if (sh.globals[x]) left.push_back({sh.globals[x], (int)x});
    for (auto& i : sh.slot) {
        std::unique_ptr<Item> it(i.load());
        if (it) left.push_back(*it);
    }
    for (auto& t : th)
        for (auto& g : t->globals) left.push_back({g.first, g.second});
    for (auto& i : left) held[(size_t)i.id]++;
    for (size_t x = 0; x < objs.size(); x++) check(x);
    while (!left.empty()) {
        size_t k = s.below((uint32_t)left.size());
        auto i = left[k];
        left.erase(left.begin() + (long)k);
        env->PushLocalFrame(0);
        PBT_CHECK(c, native<Base>(env, i.ref) == objs[(size_t)i.id].lock(), "a global reference yields another object");
        env->PopLocalFrame(nullptr);
        env->DeleteGlobalRef(i.ref);
        held[(size_t)i.id]--;
        check((size_t)i.id);
    }
    for (auto& w : sh.weaks) env->DeleteWeakGlobalRef(w);
    c.label(sh.used == 2 ? "2 threads" : sh.used == 3 ? "3 threads" : "4 threads");
    for (int i = 1; i < sh.used; i++)
        if (s.chance(1, 4)) g_worker[i]->run([&] { sh.java->DetachCurrentThread(); });
}
