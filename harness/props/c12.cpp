// C12: object arrays against vectors of objects.
#include "jvmutil.hpp"
#include <jnivm/extends.h>
#include <set>
using pbt::Case;
using pbt::Src;
using jnivm::Object;

const char* const kProperty = "C12";
const char* const kRule =
    "up to eight object arrays over a class hierarchy (chains, an interface, several bases, a diamond), strings, arrays of arrays, made by NewObjectArray (with and without a "
    "native element type, with initial objects) or natively; a history of stores and loads through the JNI and through native views of the own and every base type, objects "
    "of every type (wrong ones too) through every reference kind, dropping and taking over owners; against vectors of objects and a model of who keeps whom alive; "
    "non-trivial: a natively typed array was written through a base view or refused a store, and an element outlived its owner; identity: the draws";

struct A : jnivm::Extends<> { int a = 1; };
struct B : jnivm::Extends<A> { long b = 2; };
struct C : jnivm::Extends<B> { int c = 3; };
struct I : jnivm::Extends<> { long i[3]; };
struct J : jnivm::Extends<A, I> { int j = 4; };
struct K : jnivm::Extends<J, B> { int k = 5; };
template <class T> using Arr = jnivm::Array<T>;

// the element types of arrays, and the types of plain objects
#define TYPES(X)                                                                                                       \
    X(0, Object, "java/lang/Object") X(1, A, "p/A") X(2, B, "p/B") X(3, C, "p/C") X(4, I, "p/I") X(5, J, "p/J") X(6, K, "p/K") \
    X(7, jnivm::String, "java/lang/String") X(8, Arr<Object>, "[Ljava/lang/Object;") X(9, Arr<A>, "[Lp/A;") X(10, Arr<jint>, "[I") X(11, Arr<Arr<A>>, "[[Lp/A;")
constexpr int kTypes = 12, kPlain = 8;
static const char* const kName[] = {
#define X(N, T, C) C,
    TYPES(X)
#undef X
};
static std::string array_name(int t) { return kName[t][0] == '[' ? std::string("[") + kName[t] : std::string("[L") + kName[t] + ";"; }

using P = std::shared_ptr<Object>;
// A view of an array by one of the element types it can be accessed as
struct View {
    const char* name;
    bool (*applies)(Object* arr);
    P (*get)(Case& c, JNIEnv* env, const P& arr, jobject ref, jint i, int how);
    void (*set)(JNIEnv* env, const P& arr, jobject ref, jint i, const P& o, int how);
    bool (*static_ok)(Object* o);  // a native caller can name such an object as V at all
};
template <class V> struct ViewOf {
    static std::shared_ptr<Arr<V>> arr(JNIEnv* env, const P& a, jobject ref, int how) {
        return how % 2 ? native<Arr<V>>(env, ref) : std::dynamic_pointer_cast<Arr<V>>(a);
    }
    static bool applies(Object* a) { return dynamic_cast<Arr<V>*>(a) != nullptr; }
    static bool static_ok(Object* o) { return !o || dynamic_cast<V*>(o); }
    static P get(Case& c, JNIEnv* env, const P& a, jobject ref, jint i, int how) {
        auto p = arr(env, a, ref, how);
        how /= 2;
        if (how == 0) {
            std::shared_ptr<V> v = (*p)[i];
            return v;
        }
        if (how == 1) {
            const Arr<V>& k = *p;
            std::shared_ptr<V> v = k[i];
            return v;
        }
        if (how == 2) return p->Get(i, jnivm::impl::array_type_t<V>{});
        auto g = (*p)[i];
        V* raw = how == 3 ? (V*)g : (bool)g ? (how == 4 ? &*g : g.operator->()) : nullptr;
        const Arr<V>& k = *p;
        PBT_CHECK(c, (V*)k[i] == raw && (bool)k[i] == (bool)raw && (!raw || k[i].operator->() == raw), "the views of an array and of a constant array differ");
        if (!raw) {
            PBT_CHECK(c, !(bool)g, "an element which converts to a null pointer converts to true");
            return nullptr;
        }
        // of the object itself, unless the pointer is off
        return P(raw->shared_from_this());
    }
    static void set(JNIEnv* env, const P& a, jobject ref, jint i, const P& o, int how) {
        auto p = arr(env, a, ref, how);
        auto v = std::dynamic_pointer_cast<V>(o);
        switch (how / 2) {
            case 0: (*p)[i] = std::shared_ptr<V>(v); break;
            case 1: p->Set(i, v); break;
            case 2: (*p)[i] = v.get(); break;
            default:
                if (v)
                    (*p)[i] = *v;
                else
                    (*p)[i] = (V*)nullptr;
        }
    }
    static View view(const char* n) { return {n, applies, get, set, static_ok}; }
};
static const View kViews[] = {
#define X(N, T, C) ViewOf<T>::view(#T),
    TYPES(X)
#undef X
};

template <class T> static P make_typed(jsize n) { return std::make_shared<Arr<T>>(n); }
static P (*const kMake[])(jsize) = {
#define X(N, T, C) make_typed<T>,
    TYPES(X)
#undef X
};
template <class T> static bool is_a(Object* o) { return !o || dynamic_cast<T*>(o); }
static bool (*const kIs[])(Object*) = {
#define X(N, T, C) is_a<T>,
    TYPES(X)
#undef X
};

struct Setup {
    VM vm{false, false};
    bool typed;
    explicit Setup(bool typed) : typed(typed) {
        auto env = vm.GetEnv();
        env->GetClass<A>("p/A");
        env->GetClass<B>("p/B");
        env->GetClass<C>("p/C");
        env->GetClass<I>("p/I");
        env->GetClass<J>("p/J");
        env->GetClass<K>("p/K");
        if (typed) {
            auto h = env->GetClass("p/Hooks");
#define X(N, T, C) h->Hook(env.get(), "take", [](std::shared_ptr<Arr<T>>) {});
            TYPES(X)
#undef X
        }
    }
};
static Setup* g_setup[2];
void property_setup() {
    g_setup[0] = new Setup(false);
    g_setup[1] = new Setup(true);
}

struct Obj {
    P own;
    std::weak_ptr<Object> w;
    const void* id;
    int type;     // of a plain object
    int elem = -1;  // of an array
    bool typed = false;
    std::vector<int> at;
    std::string show;
};

void property_case(Case& c) {
    Src& s = c.s;
    Setup& st = *g_setup[s.chance(1, 2)];
    JNIEnv* env = st.vm.GetJNIEnv();
    std::vector<Obj> objs;
    // the model: who is alive
    auto alive = [&](size_t x) {
        std::vector<char> live(objs.size(), 0);
        std::vector<size_t> todo;
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].own) todo.push_back(i);
        while (!todo.empty()) {
            size_t i = todo.back();
            todo.pop_back();
            if (live[i]) continue;
            live[i] = 1;
            for (int e : objs[i].at)
                if (e >= 0) todo.push_back((size_t)e);
        }
        return (bool)live[x];
    };
    bool base_write = false, refused = false, outlived = false;
    auto index_of = [&](const P& p) {
        if (!p) return -1;
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].id == p.get() && !objs[i].w.expired()) return (int)i;
        return -2;
    };
    auto name = [&](int x) { return x == -1 ? std::string("null") : x < 0 ? std::string("something else") : objs[x].show; };
    auto add_plain = [&] {
        int t = (int)s.below(kPlain);
        Obj o;
        o.type = t;
        switch (t) {
            case 0: o.own = std::make_shared<Object>(); break;
            case 1: o.own = std::make_shared<A>(); break;
            case 2: o.own = std::make_shared<B>(); break;
            case 3: o.own = std::make_shared<C>(); break;
            case 4: o.own = std::make_shared<I>(); break;
            case 5: o.own = std::make_shared<J>(); break;
            case 6: o.own = std::make_shared<K>(); break;
            default: o.own = std::make_shared<jnivm::String>("x");
        }
        o.w = o.own;
        o.id = o.own.get();
        o.show = "o" + std::to_string(objs.size()) + ":" + kName[t];
        PBT_NOTE(c, "new %s", o.show.c_str());
        objs.push_back(o);
    };
    // an object which is alive, or null (-1)
    auto pick = [&]() -> int {
        if (s.chance(1, 8)) return -1;
        for (int k = 0; k < 4; k++) {
            int x = (int)s.below((uint32_t)objs.size());
            if (!objs[x].w.expired()) return x;
        }
        return -1;
    };
    auto ref_to = [&](Refs& refs, int x, bool* dead) -> jobject {
        *dead = false;
        if (x < 0) {
            // a weak reference to a dead object stands for null
            if (s.chance(1, 4)) {
                env->PushLocalFrame(0);
                jweak w = (jweak)refs.weak(local(env, std::make_shared<Object>()));
                env->PopLocalFrame(nullptr);
                *dead = true;
                return w;
            }
            return nullptr;
        }
        return refs.any(s, local(env, objs[x].w.lock()));
    };
    auto add_array = [&] {
        Refs refs(env);
        int t = (int)s.below(kTypes);
        bool huge = s.chance(1, 150);
        jsize n = huge ? (jsize)(100 + s.below(12000)) : (jsize)s.len(8);
        if (huge) c.label("long array");
        Obj o;
        o.type = -1;
        o.elem = t;
        int how = (int)s.weighted({3, 2});
        o.show = "o" + std::to_string(objs.size()) + ":" + array_name(t);
        if (how == 0) {
            int init = s.chance(1, 2) ? pick() : -1;
            o.typed = st.typed;
            bool dead;
            jobject i = ref_to(refs, init, &dead);
            bool fits = !o.typed || init < 0 || kIs[t](objs[init].w.lock().get()) || !n;
            PBT_NOTE(c, "%s = NewObjectArray(%d, %s, %s%s)%s", o.show.c_str(), n, kName[t], name(init).c_str(), dead ? " (dead weak)" : "", o.typed ? " natively typed" : "");
            jobjectArray a = nullptr;
            try {
                a = env->NewObjectArray(n, env->FindClass(kName[t]), i);
            } catch (const std::exception&) {
                a = nullptr;
            }
            if (!fits) {
                if (env->ExceptionCheck())
                    env->ExceptionClear();
                else
                    PBT_CHECK(c, !a, "an array was made with an initial object of a wrong type");
                refused = true;
                return;
            }
            PBT_CHECK(c, a && !env->ExceptionCheck(), "no array was made");
            o.own = native<Object>(env, a);
            o.at.assign(n, init);
            PBT_CHECK(c, env->IsSameObject(env->GetObjectClass(a), env->FindClass(array_name(t).data())), "a new array is not of the class %s", array_name(t).data());
            if (st.typed) PBT_CHECK(c, dynamic_cast<Arr<Object>*>(o.own.get()), "a new array is no native array");
        } else {
            o.own = kMake[t](n);
            o.typed = true;
            o.own->clazz = jenv(env)->GetClass(array_name(t).data());
            o.at.assign(n, -1);
            PBT_NOTE(c, "%s made natively, %d elements", o.show.c_str(), n);
        }
        o.w = o.own;
        o.id = o.own.get();
        if (huge) {
            // the checks between the steps look at some elements of it only
            jobject r = local(env, o.own);
            for (jsize i = 0; i < n; i++) {
                env->PushLocalFrame(0);
                int got = index_of(native<Object>(env, env->GetObjectArrayElement((jobjectArray)r, i)));
                PBT_CHECK(c, got == o.at[i], "element %d of %s is %s instead of %s", i, o.show.c_str(), name(got).c_str(), name(o.at[i]).c_str());
                env->PopLocalFrame(nullptr);
            }
        }
        PBT_CHECK(c, env->GetArrayLength((jarray)local(env, o.own)) == n, "%s has length %d instead of %d", o.show.c_str(), env->GetArrayLength((jarray)local(env, o.own)), n);
        objs.push_back(o);
    };
    auto step = [&](auto f) {
        env->PushLocalFrame(0);
        f();
        env->PopLocalFrame(nullptr);
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
    };
    // every element of every array through the JNI, and one view each
    auto check_all = [&] {
        for (size_t x = 0; x < objs.size(); x++) {
            bool live = alive(x);
            PBT_CHECK(c, objs[x].w.expired() == !live, "%s is %s", objs[x].show.c_str(), live ? "destroyed, though still referred to" : "still alive, though nothing refers to it");
            if (!live) continue;
            if (!objs[x].own) outlived = true;
            if (objs[x].elem < 0) continue;
            step([&] {
                P a = objs[x].w.lock();
                jobject r = local(env, a);
                PBT_CHECK(c, env->GetArrayLength((jarray)r) == (jsize)objs[x].at.size(), "the length of %s changed", objs[x].show.c_str());
                size_t n = objs[x].at.size();
                auto skip = [n](size_t i) { return n > 64 && i > 3 && i + 3 < n && i % 512 > 1; };
                for (size_t i = 0; i < objs[x].at.size(); i++) {
                    if (skip(i)) continue;
                    jobject e = env->GetObjectArrayElement((jobjectArray)r, (jsize)i);
                    int got = index_of(native<Object>(env, e));
                    PBT_CHECK(c, got == objs[x].at[i], "element %zu of %s is %s instead of %s", i, objs[x].show.c_str(), name(got).c_str(), name(objs[x].at[i]).c_str());
                }
                for (auto& v : kViews) {
                    if (!v.applies(a.get())) continue;
                    for (size_t i = 0; i < objs[x].at.size(); i++) {
                        if (skip(i)) continue;
                        P p = v.get(c, env, a, r, (jint)i, (int)(i % 2));
                        int got = index_of(p);
                        PBT_CHECK(c, got == objs[x].at[i], "element %zu of %s is %s instead of %s, as %s", i, objs[x].show.c_str(), name(got).c_str(), name(objs[x].at[i]).c_str(), v.name);
                    }
                }
            });
        }
    };
    for (size_t i = 2 + s.below(6); i-- > 0;) add_plain();
    for (size_t i = 1 + s.below(3); i-- > 0;) step([&] { add_array(); });
    size_t steps = 4 + s.len(40);
    for (size_t k = 0; k < steps; k++) {
        size_t op = s.weighted({8, 8, 3, 5, 2, 1, 1});
        std::vector<int> arrays;
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].elem >= 0 && !objs[i].w.expired()) arrays.push_back((int)i);
        if (op == 5 && objs.size() < 24) {
            add_plain();
            continue;
        }
        if ((op == 4 || arrays.empty()) && objs.size() < 24) {
            step([&] { add_array(); });
            continue;
        }
        if (arrays.empty()) continue;
        int x = s.pick(arrays);
        Obj& o = objs[x];
        step([&] {
            Refs refs(env);
            P a = o.w.lock();
            jobject r = refs.any(s, local(env, a));
            jsize n = (jsize)o.at.size();
            jsize i = n ? (jsize)s.below((uint32_t)n) : 0;
            std::vector<const View*> views;
            for (auto& v : kViews)
                if (v.applies(a.get())) views.push_back(&v);
            PBT_CHECK(c, !views.empty(), "%s is no array natively", o.show.c_str());
            switch (op) {
                case 0: {  // store through the JNI
                    if (!n) break;
                    int y = pick();
                    if (y >= x) y = -1;  // no cycles
                    bool dead;
                    jobject v = ref_to(refs, y, &dead);
                    bool fits = !o.typed || y < 0 || kIs[o.elem](objs[y].w.lock().get());
                    PBT_NOTE(c, "%s[%d] = %s%s%s", o.show.c_str(), i, name(y).c_str(), dead ? " (dead weak)" : "", fits ? "" : ": refused");
                    bool threw = false;
                    try {
                        env->SetObjectArrayElement((jobjectArray)r, i, v);
                    } catch (const std::exception&) {
                        threw = true;
                    }
                    if (env->ExceptionCheck()) {
                        env->ExceptionClear();
                        threw = true;
                    }
                    PBT_CHECK(c, threw == !fits, "storing %s into %s %s", name(y).c_str(), o.show.c_str(), threw ? "threw" : "did not throw");
                    if (fits)
                        o.at[i] = y;
                    else
                        refused = true;
                    break;
                }
                case 1: {  // store through a native view
                    if (!n) break;
                    int y = pick();
                    if (y >= x) y = -1;
                    const View& v = *s.pick(views);
                    P val = y < 0 ? nullptr : objs[y].w.lock();
                    if (!v.static_ok(val.get())) {
                        y = -1;
                        val = nullptr;
                    }
                    bool fits = !o.typed || y < 0 || kIs[o.elem](val.get());
                    int how = (int)s.below(8);
                    PBT_NOTE(c, "%s[%d] = %s natively as %s (%d)%s", o.show.c_str(), i, name(y).c_str(), v.name, how, fits ? "" : ": refused");
                    bool threw = false;
                    try {
                        v.set(env, a, r, i, val, how);
                    } catch (const std::exception&) {
                        threw = true;
                    }
                    PBT_CHECK(c, threw == !fits, "storing %s into %s as %s %s", name(y).c_str(), o.show.c_str(), v.name, threw ? "threw" : "did not throw");
                    if (fits) {
                        o.at[i] = y;
                        if (o.typed && y >= 0 && &v != &kViews[o.elem]) base_write = true;
                    } else
                        refused = true;
                    break;
                }
                case 2: {  // load
                    if (!n) break;
                    const View& v = *s.pick(views);
                    int how = (int)s.below(12);
                    P p = v.get(c, env, a, r, i, how);
                    int got = index_of(p);
                    PBT_CHECK(c, got == o.at[i], "element %d of %s is %s instead of %s, as %s (%d)", i, o.show.c_str(), name(got).c_str(), name(o.at[i]).c_str(), v.name, how);
                    jobject e = env->GetObjectArrayElement((jobjectArray)r, i);
                    PBT_CHECK(c, (e == nullptr) == (o.at[i] < 0), "element %d of %s is %snull", i, o.show.c_str(), e ? "not " : "");
                    if (e) {
                        PBT_CHECK(c, env->IsSameObject(e, local(env, p)) && env->IsSameObject(e, refs.any(s, local(env, objs[got].w.lock()))), "element %d of %s is not the same object", i, o.show.c_str());
                        for (int other = 0; other < (int)objs.size(); other++)
                            if (other != got && !objs[other].w.expired()) PBT_CHECK(c, !env->IsSameObject(e, local(env, objs[other].w.lock())), "element %d of %s is also %s", i, o.show.c_str(), name(other).c_str());
                    }
                    break;
                }
                case 3: {  // drop an owner
                    int y = (int)s.below((uint32_t)objs.size());
                    if (!objs[y].own) break;
                    PBT_NOTE(c, "drop %s", name(y).c_str());
                    objs[y].own = nullptr;
                    break;
                }
                default: {  // take over what is still alive
                    int y = (int)s.below((uint32_t)objs.size());
                    if (objs[y].own || objs[y].w.expired()) break;
                    PBT_NOTE(c, "own %s again", name(y).c_str());
                    objs[y].own = objs[y].w.lock();
                }
            }
        });
        // the model of a dead array keeps nothing
        if (s.chance(1, 3)) check_all();
        for (size_t i = 0; i < objs.size(); i++)
            if (objs[i].w.expired()) PBT_CHECK(c, !alive(i), "%s is destroyed, though still referred to", objs[i].show.c_str());
    }
    check_all();
    c.nontrivial = (base_write || refused) && outlived;
}
