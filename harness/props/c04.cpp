// C04: signature texts.
#include "jnitable.hpp"
#include "jvmutil.hpp"
#include "siggen.hpp"
#include <jnivm/field.h>
#include <jnivm/method.h>
using namespace jnivm;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C04";
const char* const kRule =
    "a signature from the descriptor grammar, a mutation of one, or arbitrary bytes (up to some thousand), used for method, static method, constructor and field lookups, for calls of all result "
    "types with an argument list built by hand, and for source generation; well-formed ones must be split exactly; non-trivial: malformed, or with at least three parameters one of which is a reference; identity: text and operations";

// ---- an implementation which accepts any signature
struct Capture : MethodHandle {
    std::vector<jvalue>* out;
    size_t n;
    int calls = 0;
    template <class T> T take(const jvalue* v) {
        calls++;
        out->assign(v, v + n);
        return T();
    }
#define H(T)                                                                                                                                                \
    T InstanceInvoke(ENV*, jobject, const jvalue* v, jnivm::impl::MethodHandleBase<T>) override { return take<T>(v); }            \
    T NonVirtualInstanceInvoke(ENV*, jobject, const jvalue* v, jnivm::impl::MethodHandleBase<T>) override { return take<T>(v); }  \
    T StaticInvoke(ENV*, Class*, const jvalue* v, jnivm::impl::MethodHandleBase<T>) override { return take<T>(v); }
    H(jobject) H(jboolean) H(jbyte) H(jchar) H(jshort) H(jint) H(jlong) H(jfloat) H(jdouble) H(void)
#undef H
};

// ---- a va_list made by hand (System V x86-64), so that any number and mix of arguments can be passed
#if !defined(__x86_64__) || !defined(__linux__)
#error "the argument lists of this harness are built for x86-64 Linux"
#endif
struct Args {
    alignas(16) uint64_t reg[22];
    std::unique_ptr<uint64_t[]> over;
    struct Tag {
        unsigned gp, fp;
        void *over, *reg;
    };
    va_list l;
    static_assert(sizeof(Tag) == sizeof(va_list), "va_list");
    unsigned gp, fp;
    size_t no = 0;
    Args(Src& s, size_t max) : over(new uint64_t[max + 1]) {
        for (auto& r : reg) r = s.raw64();
        for (size_t i = 0; i <= max; i++) over[i] = 0x5a5a5a5a5a5a5a5aull + i;
        gp = 8 * s.below(7);
        fp = 48 + 16 * s.below(9);
        Tag t{gp, fp, over.get(), reg};
        memcpy(&l, &t, sizeof t);
    }
    void push(char k, uint64_t v) {
        bool f = k == 'F' || k == 'D';
        if (k == 'F') {
            float x;
            uint32_t b = (uint32_t)v;
            memcpy(&x, &b, 4);
            double d = x;
            memcpy(&v, &d, 8);
        }
        if (f ? fp < 176 : gp < 48) {
            reg[(f ? fp : gp) / 8] = v;
            (f ? fp : gp) += f ? 16 : 8;
        } else {
            over[no++] = v;
        }
    }
};

// the classes whose names a well-formed descriptor mentions
static bool well_formed(const std::string& t, size_t& i) {
    while (i < t.size() && t[i] == '[') i++;
    if (i >= t.size()) return false;
    if (t[i] == 'L') {
        size_t e = t.find(';', i);
        if (e == std::string::npos) return false;
        i = e + 1;
        return true;
    }
    return strchr("ZBCSIJFD", t[i++]) != nullptr;
}

template <class F> static bool guarded(Case& c, const char* what, F f) {
    try {
        f();
        return true;
    } catch (pbt::Fail&) {
        throw;
    } catch (std::exception& e) {
        PBT_NOTE(c, "%s: threw %s", what, e.what());
        return false;
    }
}

static void call(JNIEnv* env, char r, int form, jobject o, jclass cl, jmethodID id, va_list l, jvalue* a) {
#define R(K, T)                                                                                       \
    case K:                                                                                           \
        switch (form) {                                                                               \
            case 0: Calls<T>::v(env, o, id, l); return;                                               \
            case 1: Calls<T>::nv(env, o, cl, id, l); return;                                          \
            case 2: Calls<T>::sv(env, cl, id, l); return;                                             \
            case 3: Calls<T>::a(env, o, id, a); return;                                               \
            case 4: Calls<T>::na(env, o, cl, id, a); return;                                          \
            default: Calls<T>::sa(env, cl, id, a); return;                                            \
        }
    switch (r) {
        R('V', void) R('Z', jboolean) R('B', jbyte) R('C', jchar) R('S', jshort) R('I', jint) R('J', jlong) R('F', jfloat) R('D', jdouble)
        default:
            R('L', jobject)
    }
#undef R
}

static void generate(VM& vm) {
    (void)vm;
#ifdef JNI_DEBUG
    vm.GeneratePreDeclaration();
    vm.GenerateHeader();
    vm.GenerateStubs();
    vm.GenerateJNIPreDeclaration();
    vm.GenerateJNIBinding();
#endif
}

static std::string mutate(Src& s, std::string t) {
    static const char al[] = "()[LV;IDZ/$\x01\xff-L[;)";
    for (size_t n = 1 + s.below(3); n-- > 0;) {
        size_t p = s.below((uint32_t)t.size() + 1);
        switch (s.below(6)) {
            case 0: t.resize(p); break;                                                       // cut short
            case 1: if (p < t.size()) t.erase(p, 1); break;
            case 2: t.insert(p, 1, al[s.below(sizeof al - 1)]); break;
            case 3: if (p < t.size()) t[p] = al[s.below(sizeof al - 1)]; break;
            case 4: t += al[s.below(sizeof al - 1)]; break;
            default: if (p < t.size()) t.insert(p, t.substr(p, 1 + s.below(8))); break;
        }
    }
    return t;
}

void property_case(Case& c) {
    Src& s = c.s;
    static VM* vm = nullptr;
    static int uses = 0;
    if (!vm || ++uses > 12) {
        delete vm;
        vm = new VM();
        uses = 0;
    }
    JNIEnv* env = vm->GetJNIEnv();
    env->ExceptionClear();
    env->PushLocalFrame(0);
    struct Pop {
        JNIEnv* e;
        ~Pop() { e->PopLocalFrame(nullptr); }
    } pop{env};
    Refs refs(env);
    SigGen g(s);
    int kind = s.weighted({4, 4, 2, 1});
    std::vector<std::string> params;
    std::string text, ret;
    std::vector<std::string> named;
    params = g.params(30);
    ret = g.ret();
    named = g.names;
    text = "(";
    for (auto& p : params) text += p;
    text += ")" + ret;
    bool method_ok = kind == 0;
    std::string field = g.type();
    if (kind == 1) {
        text = mutate(s, text);
        field = mutate(s, field);
    } else if (kind == 2) {
        text.clear();
        bool structured = s.chance(1, 2);
        for (size_t n = s.len(60); n-- > 0;) text += structured ? "()[L;VIaD$/"[s.below(11)] : (char)(1 + s.below(255));
        field = s.chance(1, 2) ? text : mutate(s, field);
    } else if (kind == 3) {
        // long ones
        static const char* unit[] = {"[", "(", "L", "I", "La/b$c;", ")", "$", "/", "[L", "[I"};
        std::string u = s.pick(unit);
        text = s.chance(1, 2) ? "(" : "";
        for (size_t n = s.below(600); n-- > 0;) text += u;
        if (s.chance(1, 2)) text += s.pick(unit);
        if (s.chance(1, 2)) text += ")V";
        field = text;
    }
    // long enough to be on the heap, where every byte after the end is poisoned
    if (!method_ok && s.chance(1, 2) && text.size() < 16) text = "(IIIIIIIIIIIIIIII" + text;
    if (!method_ok && s.chance(1, 2)) text = "(" + text;
    for (char ch : text) c.key((unsigned char)ch);
    c.key(kind);
    c.label(kind == 0 ? "well-formed" : kind == 1 ? "mutated" : kind == 2 ? "arbitrary" : "long");
    bool refp = false;
    for (auto& p : params) refp |= p.size() > 1;
    c.nontrivial = kind != 0 || (params.size() >= 3 && refp);
    PBT_NOTE(c, "method signature %s, field signature %s", pbt::printable(text).c_str(), pbt::printable(field).c_str());

    char cname[32];
    snprintf(cname, sizeof cname, "own/C%d", uses);
    jclass cl = env->FindClass(cname);
    // exactly sized copies: every byte after the end is poisoned
    auto copy = [](const std::string& t) {
        std::unique_ptr<char[]> p(new char[t.size() + 1]);
        memcpy(p.get(), t.c_str(), t.size() + 1);
        return p;
    };
    auto known = [&](const std::string& n) { return VM::GetNativeInterfaceTemplate<true>().FindClass(env, n.c_str()) != nullptr; };

    // ---- lookups
    bool isStatic = s.chance(1, 2);
    jmethodID id = nullptr;
    auto lookup = [&](bool st, const char* name) {
        jmethodID r = nullptr;
        auto t = copy(text);
        guarded(c, "lookup", [&] { r = st ? env->GetStaticMethodID(cl, name, t.get()) : env->GetMethodID(cl, name, t.get()); });
        return r;
    };
    id = lookup(isStatic, "m");
    if (method_ok) {
        PBT_CHECK(c, id, "a well-formed signature is refused");
#ifdef JNI_DEBUG
        for (auto& n : named) PBT_CHECK(c, known(n), "the class %s is not known after looking up %s", pbt::printable(n).c_str(), pbt::printable(text).c_str());
#endif
    }
    if (id) {
        PBT_CHECK(c, lookup(isStatic, "m") == id, "the same text gave another identifier");
        if (s.chance(1, 3)) {
            jmethodID other = lookup(!isStatic, "m");
            PBT_CHECK(c, other != id, "static and instance member are one");
        }
    }
    if (s.chance(1, 3)) {
        jmethodID ctor = lookup(false, "<init>");
        if (ctor) PBT_CHECK(c, lookup(false, "<init>") == ctor, "the same constructor signature gave another identifier");
    }
    if (s.chance(1, 2)) {
        auto t = copy(field);
        jfieldID f = nullptr, f2 = nullptr;
        bool st = s.chance(1, 2);
        auto get = [&] { return st ? env->GetStaticFieldID(cl, "f", t.get()) : env->GetFieldID(cl, "f", t.get()); };
        guarded(c, "field lookup", [&] { f = get(); });
        size_t i = 0;
        if (kind == 0) {
            PBT_CHECK(c, f, "a well-formed field signature is refused");
#ifdef JNI_DEBUG
            if (well_formed(field, i) && field.find('L') != std::string::npos && field[field.size() - 1] == ';')
                PBT_CHECK(c, known(field.substr(field.find('L') + 1, field.size() - field.find('L') - 2)), "the class of field type %s is not known", pbt::printable(field).c_str());
#endif
        }
        if (f) {
            guarded(c, "field lookup", [&] { f2 = get(); });
            PBT_CHECK(c, f2 == f, "the same text gave another field");
            // reading and writing an unimplemented field of that type
            guarded(c, "field read", [&] {
                if (st) env->GetStaticObjectField(cl, f), env->SetStaticObjectField(cl, f, nullptr), env->GetStaticIntField(cl, f);
                else {
                    auto o = std::make_shared<Object>();
                    o->clazz = native<Class>(env, cl);
                    env->GetObjectField(local(env, o), f);
                }
            });
        }
    }
    // ---- calls
    if (id && s.chance(3, 4)) {
        auto o = std::make_shared<Object>();
        o->clazz = native<Class>(env, cl);
        jobject obj = local(env, o);
        int form = isStatic ? (s.chance(1, 4) ? 5 : 2) : (int)(s.chance(1, 4) ? 3 + s.below(2) : s.below(2));
        char r = method_ok ? ret[0] : "VZBCSIJFDL"[s.below(10)];
        bool implemented = s.chance(3, 4);
        std::vector<jvalue> got;
        size_t n = method_ok ? params.size() : 0;
        auto h = std::make_shared<Capture>();
        h->out = &got;
        h->n = n;
        if (implemented) ((Method*)id)->nativehandle = h;
        Args a(s, text.size() + 8);
        std::vector<jvalue> want(n), arr(n + 1);
        if (method_ok)
            for (size_t i = 0; i < n; i++) {
                uint64_t v = s.raw64();
                char k = params[i][0];
                if (k == 'F') {
                    if ((v & 0x7f800000u) == 0x7f800000u) v &= ~0x40000000u;
                } else if (k == 'D' && (v >> 52 & 0x7ff) == 0x7ff)
                    v &= ~(1ull << 62);
                a.push(k, v);
                want[i].j = (jlong)v;
                arr[i].j = (jlong)v;
            }
        PBT_NOTE(c, "call form %d, result %c, %s, %u/%u registers used", form, r, implemented ? "implemented" : "not implemented", a.gp, a.fp);
        guarded(c, "call", [&] { call(env, r, form, obj, cl, id, a.l, arr.data()); });
        if (method_ok && implemented) {
            PBT_CHECK(c, h->calls == 1, "the implementation ran %d times (pending exception: %d)", h->calls, env->ExceptionCheck());
            for (size_t i = 0; i < n; i++) {
                char k = params[i][0];
                size_t w = k == 'Z' || k == 'B' ? 1 : k == 'S' || k == 'C' ? 2 : k == 'I' || k == 'F' ? 4 : 8;
                PBT_CHECK(c, !memcmp(&want[i], &got[i], w), "parameter %zu (%s) is 0x%lx instead of 0x%lx", i, params[i].c_str(), (long)got[i].j, (long)want[i].j);
            }
            // every argument was taken, and no more than that
            if (form < 3) {
                Args::Tag t;
                memcpy(&t, &a.l, sizeof t);
                size_t taken = ((uint64_t*)t.over - a.over.get());
                if (taken != a.no || t.gp != a.gp || t.fp != a.fp) c.label("list handed by copy");
            }
        }
        if (method_ok) PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
        ((Method*)id)->nativehandle = nullptr;
        env->ExceptionClear();
    }
    // ---- generation
    if (s.chance(1, 4)) {
        c.label("generation");
        guarded(c, "generation", [&] { generate(*vm); });
    }
    // the VM still works
    PBT_CHECK(c, env->FindClass(cname) && env->GetStaticMethodID(cl, "ok", "(Lp/Q;)V") == env->GetStaticMethodID(cl, "ok", "(Lp/Q;)V"), "lookups no longer work");
}
