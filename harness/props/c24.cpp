// C24: everything is released.
#include "scene.hpp"

const char* const kProperty = "C24";
const char* const kRule =
    "a history of operations of the whole function table over objects of every kind, plus leftovers (unpopped frames with locals, undeleted global and weak references to objects and to references, invented classes and "
    "members, hooks owning natives objects, a pending exception, registered natives, threads still attached, sources generated), cut off by destroying the VM; run three times on fresh VMs, comparing the number of live heap "
    "blocks, and several times on one VM; objects owned natively are used afterwards; non-trivial: four kinds of leftovers and five kinds of operation; identity: the draws";

struct Left {
    int what;
    uint32_t a, b;
};
enum { L_FRAME, L_LOCAL, L_GLOBAL, L_WEAK, L_GLOBALWEAK, L_CLASS, L_MEMBER, L_HOOK, L_THROW, L_NATIVE, L_THREAD, L_ARRAY, L_STRING, L_SOURCES, L_REFLECT, L_DEFAULT, L_OWNED, L_CYCLE, L_COUNT };

struct Token {
    static int live;
    Token() { live++; }
    Token(const Token&) { live++; }
    ~Token() { live--; }
};
int Token::live;

struct Owned {
    std::vector<std::shared_ptr<T>> t;
    std::vector<std::shared_ptr<String>> s;
    std::vector<std::shared_ptr<Array<jint>>> i;
    std::vector<std::shared_ptr<Array<T>>> a;
    std::vector<std::shared_ptr<Object>> o;
    void use(Case& c) {
        for (auto& x : t) {
            x->n++;
            PBT_CHECK(c, x->n < 1000000 && (!x->getClassInternal(nullptr) || true), "an object is broken");
            PBT_CHECK(c, x->clazz.expired(), "the class of an object survives the VM");
        }
        for (auto& x : s) PBT_CHECK(c, *x == "owned text", "a string owned natively is broken");
        for (auto& x : i) {
            PBT_CHECK(c, x->getSize() == 5 && (*x)[4] == 5, "an array owned natively is broken");
            (*x)[0] = 9;
        }
        for (auto& x : a) {
            PBT_CHECK(c, x->getSize() == 3 && (*x)[1], "an object array owned natively is broken");
            ((T*)(*x)[1])->n++;
            (*x)[1] = std::shared_ptr<T>();
        }
        t.clear(); s.clear(); i.clear(); a.clear(); o.clear();
    }
};

static void leave(Scene& w, const Left& l, Owned& own, std::vector<std::unique_ptr<Worker>>* threads, bool repeat) {
    JNIEnv* e = w.e;
    ENV* je = w.je;
    jobject any = w.objs[l.a % Scene::NOBJ];
    std::string n = std::string(1, (char)('a' + l.a % 20)) + std::to_string(l.b % 7);
    switch (l.what) {
        case L_FRAME:
            e->PushLocalFrame(l.b & 1 ? l.a : l.a % 5);
            break;
        case L_LOCAL:
            for (uint32_t k = 0; k < 1 + l.b % 4; k++) e->NewLocalRef(any);
            local(e, std::make_shared<T>());
            break;
        case L_GLOBAL:
            if (!repeat) e->NewGlobalRef(any);
            break;
        case L_WEAK:
            if (!repeat) e->NewWeakGlobalRef(any);
            break;
        case L_GLOBALWEAK:
            if (!repeat) {
                jobject g = e->NewGlobalRef(e->NewWeakGlobalRef(any));
                e->NewWeakGlobalRef(g);
                if (l.b & 1) e->DeleteGlobalRef(g);
            }
            break;
        case L_CLASS: e->FindClass(("pkg/" + n + "$In/Sub" + n).data()); e->FindClass(("[[L" + n + ";").data()); break;
        case L_MEMBER: {
            jclass k = e->FindClass(l.b & 1 ? "p/T" : n.data());
            e->GetMethodID(k, n.data(), "(IJ[Ljava/lang/String;Lnew/Cls;)V");
            e->GetStaticMethodID(k, n.data(), "()[[J");
            e->GetFieldID(k, n.data(), "[Z");
            e->GetStaticFieldID(k, n.data(), "Lother/Cls;");
            e->GetMethodID(k, "<init>", "(I)V");
            break;
        }
        case L_HOOK: {  // again and again
            auto k = je->GetClass(l.b & 1 ? "p/T" : ("hk/" + n).data());
            auto tok = std::make_shared<Token>();
            auto obj = std::make_shared<T>();
            if (l.b & 2) k->Hook(je, n, [tok, obj](ENV*, jnivm::Class*, jint x) -> jint { return x; });
            else k->HookInstanceFunction(je, n, [tok, obj](ENV*, Object*, std::shared_ptr<String> s) -> std::shared_ptr<Object> { return obj; });
            k->HookGetterFunction(je, n, [tok](ENV*, jnivm::Class*) -> jint { return 1; });
            if (l.b & 4) k->HookGetterFunction(je, n, [tok](ENV*, jnivm::Class*) -> jint { return 2; });
            jmethodID m = l.b & 2 ? e->GetStaticMethodID(e->FindClass(l.b & 1 ? "p/T" : ("hk/" + n).data()), n.data(), "(I)I") : nullptr;
            if (m) e->CallStaticIntMethod(e->FindClass("p/T"), m, 4);
            break;
        }
        case L_THROW:
            if (l.b & 1) e->Throw((jthrowable)w.objs[Scene::THR0]);
            else e->ThrowNew(e->FindClass("java/lang/Error"), "left");
            break;
        case L_NATIVE: {
            JNINativeMethod nm{(char*)n.data(), (char*)"()V", (void*)+[](JNIEnv*, jobject) {}};
            e->RegisterNatives(e->FindClass("p/T"), &nm, 1);
            break;
        }
        case L_THREAD:
            if (threads && threads->size() < 2) {
                threads->emplace_back(new Worker);
                VM* vm = w.vm;
                threads->back()->run([vm, &l] {
                    JNIEnv* e2;
                    vm->GetJavaVM()->AttachCurrentThread(&e2, nullptr);
                    e2->PushLocalFrame(0);
                    e2->NewStringUTF("in another thread");
                    e2->NewObjectArray(3, e2->FindClass("java/lang/String"), e2->NewStringUTF("x"));
                    if (l.b & 1) e2->ThrowNew(e2->FindClass("java/lang/Error"), "there");
                    if (l.b & 2) e2->NewGlobalRef(local(e2, std::make_shared<T>()));
                    if (l.b & 4) vm->GetJavaVM()->DetachCurrentThread();
                });
            }
            break;
        case L_ARRAY: {
            jobjectArray a = e->NewObjectArray(1 + l.a % 30, e->FindClass("java/lang/Object"), nullptr);
            for (uint32_t k = 0; k < 1 + l.a % 30; k++) e->SetObjectArrayElement(a, k, k % 3 ? (jobject)e->NewIntArray(l.b % 50) : (jobject)e->NewStringUTF("element"));
            jint* q = e->GetIntArrayElements((jintArray)w.objs[Scene::ARRI], nullptr);
            e->ReleaseIntArrayElements((jintArray)w.objs[Scene::ARRI], q, 0);
            break;
        }
        case L_STRING: {
            std::vector<jchar> b(l.a * 3, (jchar)(l.b * 7));
            jstring s = e->NewString(b.data(), (jsize)b.size());
            const jchar* q = e->GetStringChars(s, nullptr);
            e->ReleaseStringChars(s, q);
            q = e->GetStringCritical(s, nullptr);
            e->ReleaseStringCritical(s, q);
            const char* u = e->GetStringUTFChars(s, nullptr);
            e->ReleaseStringUTFChars(s, u);
            break;
        }
        case L_SOURCES: {
            std::string s = w.vm->GeneratePreDeclaration() + w.vm->GenerateHeader() + w.vm->GenerateStubs() + w.vm->GenerateJNIPreDeclaration() + w.vm->GenerateJNIBinding();
            break;
        }
        case L_REFLECT: {
            jobject r = e->ToReflectedMethod(e->FindClass("p/T"), e->GetMethodID(e->FindClass("p/T"), "v", "(Ljava/lang/Object;)V"), false);
            if (!repeat) e->NewGlobalRef(r);
            break;
        }
        case L_DEFAULT: {
            jclass k = e->FindClass("x/Unknown");
            jmethodID m = e->GetStaticMethodID(k, "make", l.b & 1 ? "()[[Lq/R;" : l.b & 2 ? "()Lq/R;" : "()Lp/T;");
            e->CallStaticObjectMethod(k, m);
            break;
        }
        case L_OWNED: {
            if (repeat) break;
            switch (l.b % 4) {
                case 0: own.t.push_back(native<T>(e, w.objs[Scene::T0 + l.a % 3])); break;
                case 1: own.s.push_back(native<String>(e, e->NewStringUTF("owned text"))); break;
                case 2: {
                    jintArray a = e->NewIntArray(5);
                    jint v[5] = {1, 2, 3, 4, 5};
                    e->SetIntArrayRegion(a, 0, 5, v);
                    own.i.push_back(native<Array<jint>>(e, a));
                    break;
                }
                default: {
                    jobjectArray a = (jobjectArray)local(e, std::make_shared<Array<T>>(3));
                    e->SetObjectArrayElement(a, 1, local(e, std::make_shared<T>()));
                    own.a.push_back(native<Array<T>>(e, a));
                }
            }
            break;
        }
        default: {  // objects of the VM which hold each other, in a chain
            jobjectArray prev = nullptr;
            for (uint32_t k = 0; k < 1 + l.a % 12; k++) prev = e->NewObjectArray(2, e->FindClass("java/lang/Object"), prev);
            if (!repeat) e->NewGlobalRef(prev);
        }
    }
}

void property_case(Case& c) {
    Src& s = c.s;
    struct Step {
        bool left;
        Op op;
        Left l;
    };
    std::vector<Step> steps;
    uint64_t ops = 0, lefts = 0;
    bool baron = s.chance(1, 4), repeat = s.chance(1, 3);
    for (size_t n = 1 + s.len(24); n-- > 0;) {
        Step t;
        t.left = s.chance(1, 2);
        if (t.left) {
            t.l = {(int)s.below(L_COUNT), s.below(210), s.below(210)};
            lefts |= 1ull << t.l.what;
        } else {
            t.op = Op::gen(s);
            ops |= 1ull << t.op.op;
        }
        steps.push_back(t);
    }
    PBT_NOTE(c, "%s VM, %s", baron ? "Baron" : "plain", repeat ? "repeated on one VM" : "on fresh VMs");
    for (auto& t : steps) {
        if (t.left) PBT_NOTE(c, "leave %d (%u, %u)", t.l.what, t.l.a, t.l.b);
        else PBT_NOTE(c, "operation %d (%u, %u, %u, %u) with references (%d, %d, %d, %d, %d)", t.op.op, t.op.a, t.op.b, t.op.x, t.op.y, t.op.k[0], t.op.k[1], t.op.k[2], t.op.k[3], t.op.k[4]);
    }
    int64_t before = 0;
    // some operations initialise things of the process; the first round does not count
    for (int round = 0; round < 3; round++) {
        {
            Owned own;
            std::vector<std::unique_ptr<Worker>> threads;
            {
                Scene w(c, true, baron);
                int64_t mid = 0;
                for (int rep = 0; rep < (repeat ? 4 : 1); rep++) {
                    w.e->PushLocalFrame(0);
                    int frames = 0;
                    for (auto& t : steps) {
                        if (!t.left) w.run(t.op);
                        else {
                            if (t.l.what == L_FRAME) frames++;
                            leave(w, t.l, own, repeat ? nullptr : &threads, repeat);
                        }
                    }
                    if (repeat) {
                        w.e->ExceptionClear();
                        while (frames-- >= 0) w.e->PopLocalFrame(nullptr);
                        w.trace.clear();
                        w.trace.shrink_to_fit();
                        if (rep == 3 && pbt::alloc_accounting()) PBT_CHECK(c, pbt::live_allocs() == mid, "repeating the same operations on one VM accumulates %ld heap blocks", (long)(pbt::live_allocs() - mid));
                        mid = pbt::live_allocs();
                    }
                }
            }
            own.use(c);
        }
        PBT_CHECK(c, T::live() == 0, "%d objects are left after destroying the VM", (int)T::live());
        PBT_CHECK(c, Token::live == 0, "%d hooks are left after destroying the VM", Token::live);
        if (round == 2 && pbt::alloc_accounting()) PBT_CHECK(c, pbt::live_allocs() == before, "a VM leaves %ld heap blocks behind", (long)(pbt::live_allocs() - before));
        before = pbt::live_allocs();
    }
    c.label(baron ? "Baron" : "plain");
    c.nontrivial = __builtin_popcountll(lefts) >= 4 && __builtin_popcountll(ops) >= 5;
}
void property_setup() { pbt::install_alloc_hooks(); }
