// C31: classes described with fake-jni descriptors.
#include "jvmutil.hpp"
#include "jnitable.hpp"
#include <fake-jni/fake-jni.h>
#include <map>
#include <set>
using namespace FakeJni;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C31";
const char* const kRule =
    "two VMs, one on a thread of its own, made and destroyed at will; a hierarchy of described classes (members of every kind with default and explicit flags, one described empty, one with an interface without "
    "descriptors) registered in any order and again; lookups with both kinds of staticness, calls, field accesses, constructions, type queries and native queries against the descriptors and the objects' C++ state; "
    "non-trivial: a described member was used in a VM which is not the first, or after its class was registered again; identity: the draws";

#ifdef JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT
enum { COMPAT = 1 };
#else
enum { COMPAT = 0 };
#endif

struct Leaf;
struct Base : virtual JObject {
    DEFINE_CLASS_NAME("d/Base")
    JInt f = 1;
    JLong g = 2;
    std::shared_ptr<JString> t;
    std::shared_ptr<Base> next;
    int made = 0;
    static inline JLong s = 0;
    Base() = default;
    Base(JInt a, JLong b) : f(a), g(b), made(1) {}
    virtual JInt who(JInt x) { return 1000 + x; }
    JInt inc(JInt x) { return f += x; }
    JDouble peek(JBoolean b, JDouble d) const { return b ? d : (JDouble)g; }
    std::shared_ptr<Base> link(std::shared_ptr<Base> n) {
        next.swap(n);
        return n;
    }
    JInt leafy(std::shared_ptr<Leaf> l) { return l ? 1 : 0; }
    static JLong sum(JInt a, JLong b) { return a + b; }
    JLong take(JInt a, JLong b) { return b - a; }
    static JInt peer(Base* o, JInt x) { return o->f * 2 + x; }
};
struct Mid : Base {
    DEFINE_CLASS_NAME("d/Mid", Base)
    JInt f = 7;  // hides Base's
    JDouble h = 0.5;
    Mid() = default;
    explicit Mid(JDouble d) : h(d) { made = 2; }
    JInt who(JInt x) override { return 2000 + x; }
    JInt inc2(JInt x) { return Mid::f += x; }
};
struct Leaf : Mid {
    DEFINE_CLASS_NAME("d/in/Leaf", Mid)
    JInt who(JInt x) override { return 3000 + x; }
    static JInt sum(JInt a) { return a * 3; }
};
struct Tag : virtual JObject {
    virtual JInt tag(JInt x) { return x - 1; }
};
struct Both : Mid, Tag {
    DEFINE_CLASS_NAME("d/Mid$Both", Mid, Tag)
    JInt who(JInt x) override { return 4000 + x; }
    JInt tag(JInt x) override { return x - 2; }
};
struct Other : JObject {
    DEFINE_CLASS_NAME("Other")
    JInt f = 3;
    static JLong sum(JInt a, JLong b) { return a - b; }
};

BEGIN_NATIVE_DESCRIPTOR(Base)
{Constructor<Base>{}},
{Constructor<Base, JInt, JLong>{}},
{Function<&Base::who>{}, "who"},
{Function<&Base::inc>{}, "inc", JMethodID::PUBLIC},
{Function<&Base::peek>{}, "peek", JMethodID::PRIVATE},
{Function<&Base::link>{}, "link"},
{Function<&Base::leafy>{}, "leafy"},
{Function<&Base::sum>{}, "sum", JMethodID::PUBLIC | JMethodID::STATIC},
{Function<&Base::sum>{}, "sumI", JMethodID::PUBLIC},
{Function<&Base::sum>{}, "sumD"},
{Function<&Base::peer>{}, "peer", JMethodID::PROTECTED},
{Function<&Base::peer>{}, "peerS", JMethodID::STATIC},
{Function<&Base::peer>{}, "peerD"},
{Field<&Base::f>{}, "f"},
{Field<&Base::g>{}, "g", JFieldID::PRIVATE},
{Field<&Base::t>{}, "t"},
{Field<&Base::next>{}, "next", JFieldID::PUBLIC},
{Field<&Base::s>{}, "s", JFieldID::PUBLIC | JFieldID::STATIC},
{Field<&Base::s>{}, "sI", JFieldID::PUBLIC},
{Field<&Base::s>{}, "sD"},
// one name and type, both as static and as instance member
{Field<&Base::g>{}, "s"},
{Field<&Base::g>{}, "v"},
{Field<&Base::s>{}, "v", JFieldID::STATIC},
{Function<&Base::take>{}, "sum"},
{Function<&Base::take>{}, "take"},
{Function<&Base::sum>{}, "take", JMethodID::STATIC},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Mid)
{Constructor<Mid, JDouble>{}},
{Function<&Mid::inc2>{}, "inc2"},
{Field<&Mid::f>{}, "f"},
{Field<&Mid::h>{}, "h"},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Leaf)
{Constructor<Leaf>{}},
{Function<&Leaf::who>{}, "who"},
{Function<&Leaf::sum>{}, "sum", JMethodID::STATIC},
{Field<&Leaf::g>{}, "f2"},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Both)
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Other)
{Constructor<Other>{}},
{Function<&Other::sum>{}, "sum", JMethodID::STATIC},
{Field<&Other::f>{}, "f"},
END_NATIVE_DESCRIPTOR

enum { BASE, MID, LEAF, BOTH, OTHER, TAG, OBJECT, NC };
static const char* const kName[] = {"d/Base", "d/Mid", "d/in/Leaf", "d/Mid$Both", "Other", "d/Tag", "java/lang/Object"};
// direct bases
static const std::vector<int> kUp[] = {{OBJECT}, {BASE}, {MID}, {MID, TAG}, {OBJECT}, {}, {}};
static bool is_a(int a, int b) {
    if (a == b) return true;
    for (int u : kUp[a])
        if (is_a(u, b)) return true;
    return false;
}
static const char STR[] = "Ljava/lang/String;", LB[] = "Ld/Base;";
enum Act { WHO, TAKE, INC, PEEK, LINK, LEAFY, SUM, PEER, PEERX, INC2, LSUM, OSUM, TAGF, F_BF, F_G, F_T, F_NEXT, F_S, F_MF, F_H, F_OF, CTOR0, CTOR2, CTORD, LCTOR, OCTOR };
struct Mem {
    int cls;
    const char *name, *sig;
    bool st;
    Act act;
};
static bool is_field(Act a) { return a >= F_BF && a <= F_OF; }
static bool is_ctor(Act a) { return a >= CTOR0; }
static const Mem kMem[] = {
    {BASE, "who", "(I)I", false, WHO},
    {BASE, "inc", "(I)I", false, INC},
    {BASE, "peek", "(ZD)D", false, PEEK},
    {BASE, "link", "(Ld/Base;)Ld/Base;", false, LINK},
    {BASE, "leafy", "(Ld/in/Leaf;)I", false, LEAFY},
    {BASE, "sum", "(IJ)J", true, SUM},
    {BASE, "sumI", "(IJ)J", false, SUM},
    {BASE, "sumD", "(IJ)J", COMPAT, SUM},
    {BASE, "peer", "(I)I", false, PEER},
    {BASE, "peerS", "(Ld/Base;I)I", true, PEERX},
    {BASE, "peerD", COMPAT ? "(Ld/Base;I)I" : "(I)I", COMPAT, COMPAT ? PEERX : PEER},
    {BASE, "f", "I", false, F_BF},
    {BASE, "g", "J", false, F_G},
    {BASE, "t", STR, false, F_T},
    {BASE, "next", LB, false, F_NEXT},
    {BASE, "s", "J", true, F_S},
    {BASE, "sI", "J", false, F_S},
    {BASE, "sD", "J", COMPAT, F_S},
    {BASE, "s", "J", false, F_G},
    {BASE, "v", "J", false, F_G},
    {BASE, "v", "J", true, F_S},
    {BASE, "sum", "(IJ)J", false, TAKE},
    {BASE, "take", "(IJ)J", false, TAKE},
    {BASE, "take", "(IJ)J", true, SUM},
    {MID, "inc2", "(I)I", false, INC2},
    {MID, "f", "I", false, F_MF},
    {MID, "h", "D", false, F_H},
    {LEAF, "who", "(I)I", false, WHO},
    {LEAF, "sum", "(I)I", true, LSUM},
    {LEAF, "f2", "J", false, F_G},
    {OTHER, "sum", "(IJ)J", true, OSUM},
    {OTHER, "f", "I", false, F_OF},
    {TAG, "tag", "(I)I", false, TAGF},
    {BASE, "<init>", "()V", false, CTOR0},
    {BASE, "<init>", "(IJ)V", false, CTOR2},
    {MID, "<init>", "(D)V", false, CTORD},
    {LEAF, "<init>", "()V", false, LCTOR},
    {OTHER, "<init>", "()V", false, OCTOR},
};
enum { NM = sizeof(kMem) / sizeof(*kMem) };
// what a lookup in a class meets: the class itself, then its bases depth-first
static int find(int cls, const std::string& name, const std::string& sig, bool st, bool field) {
    for (int i = 0; i < NM; i++)
        if (kMem[i].cls == cls && kMem[i].name == name && kMem[i].sig == sig && kMem[i].st == st && is_field(kMem[i].act) == field) return i;
    for (int u : kUp[cls]) {
        int r = find(u, name, sig, st, field);
        if (r >= 0) return r;
    }
    return -1;
}

struct Made {
    std::shared_ptr<JObject> o;
    int cls;
    jobject ref;  // global
    Base* b() const { return dynamic_cast<Base*>(o.get()); }
};

struct World {
    Case& c;
    Src& s;
    int index;
    Worker* w;
    std::unique_ptr<Jvm> vm;
    std::unique_ptr<LocalFrame> frame;
    Env* e = nullptr;
    bool reg[NC] = {}, named[NC] = {};
    int regs[NC] = {};
    std::map<int, void*> ids;      // of described members
    std::map<int, int> id_regs;    // how often the class was registered when the identifier was handed out
    std::vector<Made> objs;
    bool nt = false;

    World(Case& c, int index, Worker* w) : c(c), s(c.s), index(index), w(w) {
        run([&] {
            vm.reset(new Jvm);
            frame.reset(new LocalFrame(*vm));
            e = &frame->getJniEnv();
            reg[OBJECT] = true;
        });
        PBT_NOTE(c, "VM %d is made", index);
    }
    ~World() {
        run([&] {
            for (auto& o : objs) {
                if (auto b = o.b()) b->next = nullptr;
                e->DeleteGlobalRef(o.ref);
            }
            objs.clear();
            frame.reset();
            vm.reset();
        });
        PBT_NOTE(c, "VM %d is destroyed", index);
    }
    void run(std::function<void()> f) {
        if (w) w->run(f);
        else f();
    }
    bool closed(int k) const {
        if (!reg[k]) return false;
        for (int u : kUp[k])
            if (!closed(u)) return false;
        return true;
    }
    bool clean() {
        if (!e->ExceptionCheck()) return true;
        e->ExceptionClear();
        return false;
    }
    void do_register(int k) {
        PBT_NOTE(c, "VM %d: register %s%s", index, kName[k], reg[k] ? " again" : "");
        switch (k) {
            case BASE: vm->registerClass<Base>(); break;
            case MID: vm->registerClass<Mid>(); break;
            case LEAF: vm->registerClass<Leaf>(); break;
            case BOTH: vm->registerClass<Both>(); break;
            case OTHER: vm->registerClass<Other>(); break;
            default: {
                auto j = ENV::FromJNIEnv(e);
                j->GetClass<Tag>(kName[TAG])->HookInstance(j, "tag", &Tag::tag);
            }
        }
        reg[k] = true;
        regs[k]++;
        PBT_CHECK(c, clean(), "an exception is pending after registering %s", kName[k]);
    }
    jclass cls(int k) {
        jclass r = e->FindClass(kName[k]);
        PBT_CHECK(c, r && clean(), "%s is registered, but not found", kName[k]);
        return r;
    }
    void* id(int m, jclass k, int asked) {
        const Mem& d = kMem[m];
        void* r = is_field(d.act) ? (void*)(d.st ? e->GetStaticFieldID(k, d.name, d.sig) : e->GetFieldID(k, d.name, d.sig))
                                  : (void*)(d.st ? e->GetStaticMethodID(k, d.name, d.sig) : e->GetMethodID(k, d.name, d.sig));
        PBT_CHECK(c, r && clean(), "%s%s %s, described in %s, is not found in %s", d.st ? "static " : "", d.name, d.sig, kName[d.cls], kName[asked]);
        auto& known = ids[m];
        PBT_CHECK(c, !known || known == r, "%s %s of %s has another identifier than before", d.name, d.sig, kName[d.cls]);
        for (auto& o : ids) PBT_CHECK(c, o.first == m || o.second != r, "%s %s of %s has the identifier of %s of %s", d.name, d.sig, kName[d.cls], kMem[o.first].name, kName[kMem[o.first].cls]);
        if (!known) id_regs[m] = regs[d.cls];
        known = r;
        nt |= index > 0 || id_regs[m] != regs[d.cls];
        return r;
    }
    jobject object(int k, bool nil = false) {
        std::vector<jobject> fit;
        for (auto& o : objs)
            if (is_a(o.cls, k)) fit.push_back(o.ref);
        if (nil && (fit.empty() || s.chance(1, 4))) return nullptr;
        return fit.empty() ? nullptr : s.pick(fit);
    }
    int any_class() {
        std::vector<int> ks;
        for (int k = 0; k <= TAG; k++)
            if (closed(k)) ks.push_back(k);
        return ks.empty() ? -1 : s.pick(ks);
    }
    void add(std::shared_ptr<JObject> o, int k, jobject ref) {
        PBT_CHECK(c, o && clean(), "%s was not made", kName[k]);
        PBT_CHECK(c, e->IsSameObject(e->GetObjectClass(ref), cls(k)), "the class of a new %s is not it", kName[k]);
        objs.push_back({o, k, s.chance(1, 2) ? e->NewGlobalRef(ref) : vm->createGlobalReference(o)});
    }
    void make_native() {
        int k = any_class();
        if (k < 0 || objs.size() > 12) return;
        std::shared_ptr<JObject> o;
        switch (k) {
            case BASE: o = std::make_shared<Base>(); break;
            case MID: o = std::make_shared<Mid>(); break;
            case LEAF: o = std::make_shared<Leaf>(); break;
            case BOTH: o = std::make_shared<Both>(); break;
            case OTHER: o = std::make_shared<Other>(); break;
            default: return;
        }
        PBT_NOTE(c, "VM %d: make a %s", index, kName[k]);
        jobject ref = e->createLocalReference(o);
        PBT_CHECK(c, e->resolveReference(ref) == o, "the reference made for an object resolves to another one");
        add(o, k, ref);
    }
    void construct(int m) {
        const Mem& d = kMem[m];
        int k = d.cls;
        jclass jc = cls(k);
        auto mid = (jmethodID)id(m, jc, k);
        jint a = (jint)s.range(-99, 99);
        PBT_NOTE(c, "VM %d: new %s%s %d", index, kName[k], d.sig, a);
        jobject r = nullptr;
        switch (d.act) {
            case CTOR2: r = e->NewObject(jc, mid, a, (jlong)a * 3); break;
            case CTORD: r = e->NewObject(jc, mid, (jdouble)a); break;
            default: r = e->NewObject(jc, mid);
        }
        auto o = e->resolveReference(r);
        if (objs.size() > 12) return;
        add(o, k, r);
        auto b = dynamic_cast<Base*>(o.get());
        auto mi = dynamic_cast<Mid*>(o.get());
        switch (d.act) {
            case CTOR0: PBT_CHECK(c, b && !mi && b->made == 0 && b->f == 1, "Base()"); break;
            case CTOR2: PBT_CHECK(c, b && !mi && b->made == 1 && b->f == a && b->g == a * 3, "Base(%d, %d)", a, a * 3); break;
            case CTORD: PBT_CHECK(c, mi && b->made == 2 && mi->h == a, "Mid(%d)", a); break;
            case LCTOR: PBT_CHECK(c, dynamic_cast<Leaf*>(o.get()), "Leaf()"); break;
            default: PBT_CHECK(c, dynamic_cast<Other*>(o.get()), "Other()");
        }
    }
    template <class T> T invoke(bool st, jobject o, jmethodID m, std::vector<jvalue> a) {
        a.push_back(jvalue());
        return st ? Calls<T>::sa(e, (jclass)o, m, a.data()) : Calls<T>::a(e, o, m, a.data());
    }
    static jvalue I(jint x) { jvalue v{}; v.i = x; return v; }
    static jvalue J(jlong x) { jvalue v{}; v.j = x; return v; }
    static jvalue Z(bool x) { jvalue v{}; v.z = x; return v; }
    static jvalue D(jdouble x) { jvalue v{}; v.d = x; return v; }
    static jvalue L(jobject x) { jvalue v{}; v.l = x; return v; }

    void use(int m, int k) {
        const Mem& d = kMem[m];
        if (is_ctor(d.act)) {
            if (k == d.cls) construct(m);
            return;
        }
        jclass jc = cls(k);
        void* i = id(m, jc, k);
        jobject recv = d.st ? jc : object(k);
        if (!recv) return;
        // the state of the receiver, as C++ sees it
        std::shared_ptr<JObject> o = d.st ? nullptr : e->resolveReference(recv);
        Base* b = dynamic_cast<Base*>(o.get());
        Mid* mi = dynamic_cast<Mid*>(o.get());
        auto mid = (jmethodID)i;
        auto fid = (jfieldID)i;
        jint x = (jint)s.range(-500, 500);
        PBT_NOTE(c, "VM %d: use %s%s %s of %s through %s with %d", index, d.st ? "static " : "", d.name, d.sig, kName[d.cls], kName[k], x);
        bool ok = true;
        switch (d.act) {
            case WHO: {
                int v = 1000;
                for (auto& q : objs)
                    if (q.o == o) v = q.cls == LEAF ? 3000 : q.cls == BOTH ? 4000 : q.cls == MID ? 2000 : 1000;
                ok = invoke<jint>(false, recv, mid, {I(x)}) == v + x;
                break;
            }
            case INC: {
                jint was = b->Base::f = b->Base::f % 1000;
                ok = invoke<jint>(false, recv, mid, {I(x)}) == was + x && b->Base::f == was + x;
                break;
            }
            case PEEK: {
                bool z = s.chance(1, 2);
                ok = invoke<jdouble>(false, recv, mid, {Z(z), D(x / 4.0)}) == (z ? x / 4.0 : (jdouble)b->g);
                break;
            }
            case LINK: {
                auto was = b->next;
                jobject n = object(BASE, true);
                jobject r = invoke<jobject>(false, recv, mid, {L(n)});
                ok = e->resolveReference(r) == was && b->next == std::dynamic_pointer_cast<Base>(e->resolveReference(n));
                break;
            }
            case LEAFY: {
                jobject n = object(LEAF, true);
                ok = invoke<jint>(false, recv, mid, {L(n)}) == (n ? 1 : 0);
                break;
            }
            case SUM: ok = invoke<jlong>(d.st, recv, mid, {I(x), J(5)}) == x + 5; break;
            case TAKE: ok = invoke<jlong>(false, recv, mid, {I(x), J(8)}) == 8 - x; break;
            case PEER: ok = invoke<jint>(false, recv, mid, {I(x)}) == (b->Base::f = b->Base::f % 1000) * 2 + x; break;
            case PEERX: {
                jobject n = object(BASE);
                if (!n) return;
                Base* p = dynamic_cast<Base*>(e->resolveReference(n).get());
                p->Base::f %= 1000;
                ok = invoke<jint>(true, recv, mid, {L(n), I(x)}) == p->Base::f * 2 + x;
                break;
            }
            case INC2: {
                jint was = mi->f = mi->f % 1000;
                ok = invoke<jint>(false, recv, mid, {I(x)}) == was + x && mi->f == was + x;
                break;
            }
            case LSUM: ok = invoke<jint>(true, recv, mid, {I(x)}) == x * 3; break;
            case OSUM: ok = invoke<jlong>(true, recv, mid, {I(x), J(9)}) == x - 9; break;
            case TAGF: ok = invoke<jint>(false, recv, mid, {I(x)}) == x - (dynamic_cast<Both*>(o.get()) ? 2 : 1); break;
#define FIELD(T, lvalue, v)                                                                                                        \
    {                                                                                                                              \
        auto& at = lvalue;                                                                                                         \
        if (s.chance(1, 2)) {                                                                                                      \
            d.st ? Fields<T>::sset(e, (jclass)recv, fid, v) : Fields<T>::set(e, recv, fid, v);                                     \
            ok = at == v;                                                                                                          \
        } else ok = (d.st ? Fields<T>::sget(e, (jclass)recv, fid) : Fields<T>::get(e, recv, fid)) == at;                           \
        break;                                                                                                                     \
    }
            case F_BF: FIELD(jint, b->Base::f, x)
            case F_MF: FIELD(jint, mi->f, x)
            case F_G: FIELD(jlong, b->g, ((jlong)x << 33))
            case F_H: FIELD(jdouble, mi->h, x * 0.125)
            case F_S: FIELD(jlong, Base::s, ((jlong)x * 77))
            case F_OF: FIELD(jint, dynamic_cast<Other*>(o.get())->f, x)
            case F_T:
                if (s.chance(1, 2)) {
                    jobject str = s.chance(1, 4) ? nullptr : e->NewStringUTF(std::to_string(x).data());
                    e->SetObjectField(recv, fid, str);
                    ok = b->t == std::dynamic_pointer_cast<JString>(e->resolveReference(str));
                } else ok = e->resolveReference(e->GetObjectField(recv, fid)) == b->t;
                break;
            default:
                if (s.chance(1, 2)) {
                    jobject n = object(BASE, true);
                    e->SetObjectField(recv, fid, n);
                    ok = b->next == std::dynamic_pointer_cast<Base>(e->resolveReference(n));
                } else ok = e->resolveReference(e->GetObjectField(recv, fid)) == std::static_pointer_cast<JObject>(b->next);
        }
        PBT_CHECK(c, ok, "%s%s %s of %s, used through %s, does something else than the described member", d.st ? "static " : "", d.name, d.sig, kName[d.cls], kName[k]);
        PBT_CHECK(c, clean(), "using %s %s of %s left an exception", d.name, d.sig, kName[d.cls]);
    }
    void lookup(int k) {
        // any described name and signature, in any class, as a member of either kind
        const Mem &n = kMem[s.below(NM)], &g = s.chance(1, 4) ? kMem[s.below(NM)] : n;
        if (is_ctor(n.act) || is_ctor(g.act) || is_field(n.act) != is_field(g.act)) return;
        bool st = s.chance(1, 3) ? !n.st : n.st, field = is_field(n.act);
        // under its full signature a function with a typed first parameter may be found, too
        if (!st && std::string(g.sig) == "(Ld/Base;I)I") return;
        int m = find(k, n.name, g.sig, st, field);
        jclass jc = cls(k);
        PBT_NOTE(c, "VM %d: look up %s%s %s in %s: %s", index, st ? "static " : "", n.name, g.sig, kName[k], m < 0 ? "nothing" : kName[kMem[m].cls]);
        if (m >= 0) return use(m, k);
        void* r = field ? (void*)(st ? e->GetStaticFieldID(jc, n.name, g.sig) : e->GetFieldID(jc, n.name, g.sig)) : (void*)(st ? e->GetStaticMethodID(jc, n.name, g.sig) : e->GetMethodID(jc, n.name, g.sig));
        clean();
        PBT_CHECK(c, !r, "%s%s %s is found in %s, where it is not described", st ? "static " : "", n.name, g.sig, kName[k]);
    }
    void hierarchy() {
        int a = any_class(), b = any_class();
        if (a < 0) return;
        if (s.chance(1, 4)) b = OBJECT;
        jclass ja = cls(a), jb = cls(b);
        PBT_NOTE(c, "VM %d: %s and %s", index, kName[a], kName[b]);
        if (a != TAG) {
            PBT_CHECK(c, e->IsAssignableFrom(ja, jb) == is_a(a, b), "%s is%s assignable to %s", kName[a], is_a(a, b) ? " not" : "", kName[b]);
            PBT_CHECK(c, e->IsSameObject(e->GetSuperclass(ja), cls(kUp[a][0])), "the superclass of %s", kName[a]);
            jobject o = object(a);
            if (o) {
                for (auto& q : objs)
                    if (e->IsSameObject(q.ref, o)) {
                        PBT_CHECK(c, e->IsInstanceOf(o, jb) == is_a(q.cls, b), "an object of %s is%s an instance of %s", kName[q.cls], is_a(q.cls, b) ? " not" : "", kName[b]);
                        PBT_CHECK(c, q.o->getClass().getName() == kName[q.cls], "the object of %s says it is %s", kName[q.cls], q.o->getClass().getName().data());
                        PBT_CHECK(c, &q.o->getClass() == vm->findClass(kName[q.cls]).get(), "the object of %s has another class than the one found", kName[q.cls]);
                        break;
                    }
            }
        }
        PBT_CHECK(c, clean(), "type queries left an exception");
    }
    void all_classes() {
        PBT_NOTE(c, "VM %d: all classes", index);
        auto all = vm->getClasses();
        for (int k = 0; k < NC; k++) {
            int n = 0;
            for (auto& x : all) n += x->getName() == kName[k];
            if (reg[k]) {
                PBT_CHECK(c, n == 1, "%s is listed %d times", kName[k], n);
                auto f = vm->findClass(kName[k]);
                PBT_CHECK(c, f && std::find(all.begin(), all.end(), f) != all.end(), "%s is not listed as found", kName[k]);
            }
        }
    }
    void unregistered() {
        int k = (int)s.below(TAG + 1);
        // a class around a registered one exists, too
        if (reg[k] || named[k] || (k == MID && reg[BOTH])) return;
        PBT_NOTE(c, "VM %d: look for %s, which is not registered", index, kName[k]);
        PBT_CHECK(c, !vm->findClass(kName[k]), "%s is found though it was not registered in this VM", kName[k]);
    }
    static jint early(jint x) { return x + 1; }
    void hook_early() {
        int k = (int)s.below(TAG + 1);
        PBT_NOTE(c, "VM %d: hook a function of %s, which is%s registered", index, kName[k], reg[k] ? "" : " not");
        auto j = ENV::FromJNIEnv(e);
        auto cl = j->GetClass(kName[k]);
        cl->Hook(j, "early", &early);
        named[k] = true;
        if (k == BOTH) named[MID] = true;
        jclass jc = cls(k);
        jmethodID m = e->GetStaticMethodID(jc, "early", "(I)I");
        PBT_CHECK(c, m && e->CallStaticIntMethod(jc, m, 4) == 5, "the function hooked in %s is not called", kName[k]);
        c.label("hooked otherwise");
    }
    void bad() {
        PBT_NOTE(c, "describe an instance member as static");
        bool threw = false;
        try {
            if (s.chance(1, 2)) Descriptor(Function<&Base::inc>{}, "bad", JMethodID::PUBLIC | JMethodID::STATIC);
            else Descriptor(Field<&Base::g>{}, "bad", JFieldID::STATIC);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        PBT_CHECK(c, threw, "an instance member can be described as static");
    }
    void step() {
        e->PushLocalFrame(0);
        switch (s.weighted({4, 3, 6, 6, 2, 1, 1, 1, 1})) {
            case 0: do_register((int)s.below(TAG + 1)); break;
            case 1: make_native(); break;
            case 2: {
                int k = any_class();
                if (k >= 0) lookup(k);
                break;
            }
            case 3: {
                int k = any_class(), m = (int)s.below(NM);
                // the member a lookup in the class meets
                if (k >= 0 && is_a(k, kMem[m].cls) && (is_ctor(kMem[m].act) || find(k, kMem[m].name, kMem[m].sig, kMem[m].st, is_field(kMem[m].act)) == m)) use(m, k);
                break;
            }
            case 4: hierarchy(); break;
            case 5: all_classes(); break;
            case 6: unregistered(); break;
            case 7: hook_early(); break;
            default: bad();
        }
        e->PopLocalFrame(nullptr);
    }
};

void property_case(Case& c) {
    Src& s = c.s;
    Base::s = 0;
    std::unique_ptr<Worker> w;
    if (s.chance(1, 3)) w.reset(new Worker), c.label("two threads");
    std::unique_ptr<World> here, there;
    int made = 0;
    bool nt = false;
    for (size_t steps = 10 + s.len(120); steps-- > 0;) {
        auto& at = w && s.chance(1, 2) ? there : here;
        if (!at) {
            if (made > 4) continue;
            at.reset(new World(c, made++, &at == &there ? w.get() : nullptr));
            // most of the hierarchy, in any order
            for (int i = (int)s.below(12); i-- > 0;) at->run([&] { at->do_register((int)s.below(TAG + 1)); });
        } else if (s.chance(1, 50)) {
            nt |= at->nt;
            at.reset();
        } else at->run([&] { at->step(); });
    }
    if (here) nt |= here->nt;
    if (there) nt |= there->nt;
    here.reset();
    there.reset();
    if (made > 1) c.label("several VMs");
    if (COMPAT) c.label("minecraft-linux compat");
    c.nontrivial = nt;
}
