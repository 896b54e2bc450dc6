// C11: primitive arrays against vectors.
#include "jvmutil.hpp"
#include <map>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C11";
const char* const kRule =
    "up to six primitive arrays of random types and lengths, made through the JNI or natively (owning, copying, viewing), and a history of region reads and writes on random "
    "in-range slices (empty ones included), element-pointer and critical accesses with every release mode, native reads and writes, through all reference kinds, against "
    "vectors; caller buffers are exactly sized and checked beyond the slice; all arrays are compared at the end; then memory is counted while arrays are made and dropped; "
    "non-trivial: two arrays of several elements were written and read through different paths; identity: the draws";

#define PRIMS(X) X(Boolean, jboolean, "[Z") X(Byte, jbyte, "[B") X(Char, jchar, "[C") X(Short, jshort, "[S") X(Int, jint, "[I") X(Long, jlong, "[J") X(Float, jfloat, "[F") X(Double, jdouble, "[D")
using Bytes = std::vector<uint8_t>;

struct Arr {
    std::shared_ptr<jnivm::Object> keep;  // set for natively made ones
    jobject ref = nullptr;
    jsize n = 0;
    Bytes model;
    virtual ~Arr() {}
    virtual size_t width() = 0;
    virtual const char* cls() = 0;
    virtual void make(JNIEnv* env, Src& s, jsize n, int how) = 0;
    virtual void get(JNIEnv* env, jobject a, jsize at, jsize k, void* buf) = 0;
    virtual void set(JNIEnv* env, jobject a, jsize at, jsize k, const void* buf) = 0;
    virtual void* elements(JNIEnv* env, jobject a, jboolean* copy) = 0;
    virtual void release(JNIEnv* env, jobject a, void* p, jint mode) = 0;
    virtual void native_get(JNIEnv* env, jobject a, jsize i, void* to) = 0;
    virtual void native_set(JNIEnv* env, jobject a, jsize i, const void* from) = 0;
    virtual jsize native_size(JNIEnv* env, jobject a) = 0;
};
template <class T> struct ArrBase : Arr {
    std::unique_ptr<T[]> viewed;
    size_t width() override { return sizeof(T); }
    void make_native(JNIEnv* env, Src& s, jsize len, int how) {
        n = len;
        model.assign(len * sizeof(T), 0);
        std::shared_ptr<jnivm::Array<T>> p;
        std::vector<T> init(len);
        if (len > 2000) {
            uint32_t x = s.below(100);
            for (auto& v : init) v = (T)(x++ % 100);
        } else
            for (auto& x : init) x = (T)s.below(100);
        switch (how) {
            case 1: p = std::make_shared<jnivm::Array<T>>(init); break;
            case 2: p = std::make_shared<jnivm::Array<T>>(init.data(), len); break;
            case 3:
                viewed.reset(new T[len]);
                if (len) memcpy(viewed.get(), init.data(), len * sizeof(T));
                p = std::make_shared<jnivm::Array<T>>(viewed.get(), len, false);
                break;
            default:
                p = std::make_shared<jnivm::Array<T>>(len);
                for (jsize i = 0; i < len; i++) (*p)[i] = init[i];
        }
        if (len) memcpy(model.data(), init.data(), len * sizeof(T));
        p->clazz = jenv(env)->GetClass(cls());
        keep = p;
        ref = local(env, p);
    }
    static std::shared_ptr<jnivm::Array<T>> arr(JNIEnv* env, jobject a) { return native<jnivm::Array<T>>(env, a); }
    void native_get(JNIEnv* env, jobject a, jsize i, void* to) override {
        T v = (*arr(env, a))[i];
        memcpy(to, &v, sizeof(T));
    }
    void native_set(JNIEnv* env, jobject a, jsize i, const void* from) override { memcpy(&(*arr(env, a))[i], from, sizeof(T)); }
    jsize native_size(JNIEnv* env, jobject a) override { return arr(env, a)->getSize(); }
};
#define X(N, T, C)                                                                                                             \
    struct Arr##N : ArrBase<T> {                                                                                               \
        const char* cls() override { return C; }                                                                               \
        void make(JNIEnv* env, Src& s, jsize len, int how) override {                                                          \
            if (how) return make_native(env, s, len, how);                                                                     \
            n = len;                                                                                                           \
            model.assign(len * sizeof(T), 0);                                                                                  \
            ref = env->New##N##Array(len);                                                                                     \
        }                                                                                                                      \
        void get(JNIEnv* env, jobject a, jsize at, jsize k, void* b) override { env->Get##N##ArrayRegion((T##Array)a, at, k, (T*)b); }       \
        void set(JNIEnv* env, jobject a, jsize at, jsize k, const void* b) override { env->Set##N##ArrayRegion((T##Array)a, at, k, (const T*)b); } \
        void* elements(JNIEnv* env, jobject a, jboolean* copy) override { return env->Get##N##ArrayElements((T##Array)a, copy); }    \
        void release(JNIEnv* env, jobject a, void* p, jint mode) override { env->Release##N##ArrayElements((T##Array)a, (T*)p, mode); } \
    };
PRIMS(X)
#undef X
static Arr* make_arr(int t) {
    using Make = Arr* (*)();
    static const Make make[] = {
#define X(N, T, C) [] { return (Arr*)new Arr##N; },
        PRIMS(X)
#undef X
    };
    return make[t]();
}

static jsize gen_len(Src& s) {
    switch (s.weighted({400, 10, 1})) {
        case 0: return (jsize)s.len(40);
        case 1: return (jsize)s.below(5000);
        default: return (jsize)((1u << (10 + s.below(8))) + s.below(1000));
    }
}
static void fill(Src& s, uint8_t* p, size_t n, bool bools) {
    if (n > 2000) {
        uint64_t x = s.raw64() | 1;
        for (size_t i = 0; i < n; i++) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            p[i] = bools ? x & 1 : (uint8_t)(x >> 32);
        }
        return;
    }
    for (size_t i = 0; i < n; i += 2) {
        uint32_t x = s.below(65536);
        p[i] = bools ? x & 1 : (uint8_t)x;
        if (i + 1 < n) p[i + 1] = bools ? (x >> 8) & 1 : (uint8_t)(x >> 8);
    }
}

static void run(Case& c, VM* vm) {
    Src& s = c.s;
    JNIEnv* env = vm->GetJNIEnv();
    env->PushLocalFrame(0);
    {
        Refs refs(env);
        std::vector<std::unique_ptr<Arr>> arrs;
        std::vector<unsigned> paths;  // bits: how it was written (1, 2, 4, 8), read (16, ...)
        auto add = [&] {
            int t = (int)s.below(8), how = (int)s.weighted({12, 1, 1, 2, 1});
            jsize n = gen_len(s);
            arrs.emplace_back(make_arr(t));
            Arr& a = *arrs.back();
            a.make(env, s, n, how);
            paths.push_back(0);
            static const char* hows[] = {"through the JNI", "from a vector", "copying", "viewing", "natively"};
            PBT_NOTE(c, "array %zu: %s of %d, made %s", arrs.size() - 1, a.cls(), n, hows[how]);
            PBT_CHECK(c, a.ref, "no array was made");
        };
        // the whole array, by all means of reading
        auto check = [&](size_t x) {
            Arr& a = *arrs[x];
            jobject r = refs.any(s, a.ref);
            PBT_CHECK(c, env->GetArrayLength((jarray)r) == a.n && a.native_size(env, r) == a.n, "array %zu has length %d instead of %d", x, env->GetArrayLength((jarray)r), a.n);
            PBT_CHECK(c, env->IsSameObject(env->GetObjectClass(r), env->FindClass(a.cls())), "array %zu is not of class %s", x, a.cls());
            PBT_CHECK(c, env->IsInstanceOf(r, env->FindClass(a.cls())), "array %zu is not an instance of %s", x, a.cls());
            Bytes b(a.model.size() + 16, 0xa5);
            a.get(env, r, 0, a.n, b.data());
            PBT_CHECK(c, !memcmp(b.data(), a.model.data(), a.model.size()), "array %zu of %s holds other elements than stored", x, a.cls());
            for (int i = 0; i < 16; i++) PBT_CHECK(c, b[a.model.size() + i] == 0xa5, "reading array %zu wrote beyond the slice", x);
            void* p = a.elements(env, r, nullptr);
            PBT_CHECK(c, p || !a.n, "array %zu has no elements", x);
            PBT_CHECK(c, !a.n || !memcmp(p, a.model.data(), a.model.size()), "array %zu of %s holds other elements than stored, by its element pointer", x, a.cls());
            a.release(env, r, p, JNI_ABORT);
        };
        for (size_t i = 1 + s.below(4); i-- > 0;) {
            add();
            check(arrs.size() - 1);
        }
        size_t steps = 3 + s.len(40);
        for (size_t i = 0; i < steps; i++) {
            if (arrs.size() < 6 && s.chance(1, 12)) {
                add();
                check(arrs.size() - 1);
                continue;
            }
            size_t x = s.below((uint32_t)arrs.size());
            Arr& a = *arrs[x];
            size_t w = a.width();
            jobject r = refs.any(s, a.ref);
            jsize at = (jsize)s.below((uint32_t)a.n + 1), k = (jsize)s.below((uint32_t)(a.n - at) + 1);
            if (s.chance(1, 5)) k = a.n - at;
            if (k > 200 && !s.chance(1, 3)) k = 200;
            int op = (int)s.below(6);
            bool bools = a.cls()[1] == 'Z';
            switch (op) {
                case 0: {
                    std::unique_ptr<uint8_t[]> b(new uint8_t[k * w]);
                    fill(s, b.get(), k * w, bools);
                    Bytes copy(b.get(), b.get() + k * w);
                    PBT_NOTE(c, "array %zu: write region %d+%d", x, at, k);
                    a.set(env, r, at, k, b.get());
                    PBT_CHECK(c, !k || !memcmp(copy.data(), b.get(), k * w), "writing a region changed the caller's buffer");
                    if (k) memcpy(&a.model[at * w], b.get(), k * w);
                    if (k) paths[x] |= 1;
                    break;
                }
                case 1: {
                    Bytes b(k * w + 32, 0x5a);
                    PBT_NOTE(c, "array %zu: read region %d+%d", x, at, k);
                    a.get(env, r, at, k, b.data() + 16);
                    PBT_CHECK(c, !k || !memcmp(b.data() + 16, &a.model[at * w], k * w), "region %d+%d of array %zu (%s of %d) reads as something else", at, k, x, a.cls(), a.n);
                    for (int q = 0; q < 16; q++) PBT_CHECK(c, b[q] == 0x5a && b[16 + k * w + q] == 0x5a, "reading region %d+%d of array %zu wrote beyond the slice", at, k, x);
                    if (k) paths[x] |= 16;
                    break;
                }
                case 2:
                case 3: {
                    bool crit = op == 3;
                    jboolean copy = 77;
                    void* p = crit ? env->GetPrimitiveArrayCritical((jarray)r, s.chance(1, 2) ? &copy : nullptr) : a.elements(env, r, s.chance(1, 2) ? &copy : nullptr);
                    PBT_NOTE(c, "array %zu: %s pointer, write %d+%d", x, crit ? "critical" : "element", at, k);
                    PBT_CHECK(c, copy == 77 || copy == 0 || copy == 1, "the copy flag is %d", copy);
                    PBT_CHECK(c, p || !a.n, "array %zu has no elements", x);
                    PBT_CHECK(c, !a.n || !memcmp(p, a.model.data(), a.model.size()), "array %zu reads as something else through its pointer", x);
                    if (k) {
                        fill(s, (uint8_t*)p + at * w, k * w, bools);
                        memcpy(&a.model[at * w], (uint8_t*)p + at * w, k * w);
                        paths[x] |= crit ? 4 : 2;
                    }
                    bool commit = s.chance(1, 3);
                    if (commit) crit ? env->ReleasePrimitiveArrayCritical((jarray)r, p, JNI_COMMIT) : a.release(env, r, p, JNI_COMMIT);
                    crit ? env->ReleasePrimitiveArrayCritical((jarray)r, p, 0) : a.release(env, r, p, 0);
                    break;
                }
                case 4: {
                    if (!a.n) continue;
                    jsize q = (jsize)s.below((uint32_t)a.n);
                    uint8_t v[8];
                    fill(s, v, w, bools);
                    PBT_NOTE(c, "array %zu: native write of element %d", x, q);
                    a.native_set(env, r, q, v);
                    memcpy(&a.model[q * w], v, w);
                    paths[x] |= 8;
                    break;
                }
                default: {
                    if (!a.n) continue;
                    jsize q = (jsize)s.below((uint32_t)a.n);
                    uint8_t v[8];
                    a.native_get(env, r, q, v);
                    PBT_CHECK(c, !memcmp(v, &a.model[q * w], w), "element %d of array %zu reads as something else natively", q, x);
                    paths[x] |= 32;
                }
            }
            PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
            if (s.chance(1, 4)) check(s.below((uint32_t)arrs.size()));
        }
        for (size_t x = 0; x < arrs.size(); x++) check(x);
        int rich = 0;
        for (size_t x = 0; x < arrs.size(); x++) {
            unsigned p = paths[x];
            rich += arrs[x]->n > 1 && (p & 15) & ((p & 15) - 1);
        }
        c.nontrivial = rich >= 2;
    }
    env->PopLocalFrame(nullptr);
    // the memory of arrays is released with them
    std::vector<std::pair<int, jsize>> made;
    for (size_t i = 1 + s.below(4); i-- > 0;) {
        int t = (int)s.below(8);
        made.push_back({t, gen_len(s)});
    }
    bool global = s.chance(1, 2);
    int64_t base = 0;
    for (int round = 0; round < 3; round++) {
        env->PushLocalFrame(0);
        std::vector<std::weak_ptr<jnivm::Object>> w;
        std::vector<jobject> g;
        for (auto& m : made) {
            std::unique_ptr<Arr> a(make_arr(m.first));
            a->make(env, s, m.second, 0);
            w.push_back(native<jnivm::Object>(env, a->ref));
            if (global) g.push_back(env->NewGlobalRef(a->ref));
        }
        env->PopLocalFrame(nullptr);
        for (auto x : g) env->DeleteGlobalRef(x);
        g = {};
        for (size_t i = 0; i < w.size(); i++) PBT_CHECK(c, w[i].expired(), "a %s of %d still exists", "dropped array", made[i].second);
        w = {};
        if (pbt::alloc_accounting()) {
            if (round == 2) PBT_CHECK(c, pbt::live_allocs() == base, "%ld blocks are left after dropping %zu arrays again", (long)(pbt::live_allocs() - base), made.size());
            base = pbt::live_allocs();
        }
    }
}

static VM* g_vm;
void property_setup() { pbt::install_alloc_hooks(); g_vm = new VM(false, false); g_vm->GetEnv(); }
void property_case(Case& c) { run(c, g_vm); }
