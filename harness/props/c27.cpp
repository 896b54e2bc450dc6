// C27: native code which the VM calls and which uses the VM.
#include "jvmutil.hpp"
#include <baron/baron.h>
#include <map>
#include <memory>
using pbt::Case;
using pbt::Src;
using jnivm::Object;

const char* const kProperty = "C27";
const char* const kRule =
    "a tree of operations: hooked methods, accessors, natives and the destructors of native objects run operations of their own while the VM is in the middle of calling them: calling "
    "and hooking members again (their own included), registering and unregistering natives, taking and deleting references (the one they were called through included), frames, arrays, "
    "exceptions, other threads which attach and detach; every call must reach the implementation installed when it started and finish with what that captured, and after each outermost "
    "operation exactly the objects and implementations something holds are alive; non-trivial: an implementation replaced itself or a native unregistered itself, and a destructor used "
    "the VM while a frame, an exception, an array element or a thread was released; identity: the draws";

namespace {
struct World;
World* W;

struct Probe : Object {
    int id = -1;
    ~Probe();
};
struct Ex : std::runtime_error {
    std::shared_ptr<Probe> held;
    Ex(int id, std::shared_ptr<Probe> p) : std::runtime_error(std::to_string(id)), held(std::move(p)) {}
};
struct Impl {
    int id;
    int probe = -1;
    std::shared_ptr<Probe> held;
    uint64_t canary;
    ~Impl();
};
enum Kind { SMETHOD, SVOID, SOBJECT, IMETHOD, IVOID, SGET, SSET, IGET, ISET, NATIVE, NKINDS };
const char* const kKindName[] = {"static method", "static void method", "static object method", "method", "void method", "static getter", "static setter", "getter", "setter", "native"};

struct Ctx {  // an attached thread
    JNIEnv* env;
    std::vector<std::vector<int>> frames{1};
    int pend = 0, pendProbe = -1;
};
struct PModel {
    Probe* raw = nullptr;
    bool own = false, alive = true, script = false;
    int died = 0;
    std::vector<jobject> globals;
    std::vector<jweak> weaks;
};
struct Slot {
    int cls, kind;
    bool recv = false;  // implementations take the receiver or class, and are bound with it as a parameter as well
    std::string name;
    int imp = -1;  // natives: function, -1 if there is none
    jmethodID m = nullptr;
    jfieldID f = nullptr;
};
struct Running {
    int slot, imp;
    bool entered = false, threw = false;
    int self = -1;          // probe it is called on
    int via = 0;            // 0 local, 1 global, 2 weak
    size_t depth;
};

struct World {
    Case& c;
    Src& s;
    FakeJni::Jvm* jvm = nullptr;
    Ctx main, *x = &main;
    std::vector<std::shared_ptr<Probe>> own;
    std::vector<PModel> p;
    std::vector<std::shared_ptr<jnivm::Class>> cls;
    std::vector<jclass> jcls;
    std::vector<Slot> slots;
    std::vector<int> impAlive, impProbe;
    std::vector<int> arr = {-1, -1, -1};
    jobjectArray array = nullptr;
    std::vector<Running*> stack;
    jobject plain = nullptr;
    int depth = 0, budget = 60, exid = 0, limit = 6, deepest = 0;
    bool recursive = false;  // implementations mostly call on
    bool quiet = false, self_replace = false, destructor_used = false;
    const char* releasing = nullptr;
    int noexc = 0;  // destructors which run while an exception is on its way: what they throw might come before or after it

    explicit World(Case& c) : c(c), s(c.s) {}

    int count_local(const Ctx& x, int i) const {
        int n = 0;
        for (auto& f : x.frames)
            for (int o : f) n += o == i;
        return n;
    }
    bool held(int i) const {
        if (p[i].own || !p[i].globals.empty()) return true;
        if (count_local(main, i) || (x != &main && count_local(*x, i))) return true;
        for (int a : arr)
            if (a == i) return true;
        if (main.pendProbe == i || x->pendProbe == i) return true;
        for (auto& sl : slots)
            if (sl.kind != NATIVE && sl.imp >= 0 && impProbe[sl.imp] == i) return true;
        return false;
    }
    // everything the running operation did not touch is as the model says
    void settle() {
        if (depth) return;
        for (size_t i = 0; i < p.size(); i++) {
            bool h = held((int)i);
            if (h != p[i].alive) c.fail("object %zu is %s though %s holds it", i, p[i].alive ? "alive" : "destroyed", h ? "something" : "nothing");
            if (p[i].died != !h) c.fail("object %zu was destroyed %d times", i, p[i].died);
        }
        for (size_t i = 0; i < impAlive.size(); i++) {
            bool in = false;
            for (auto& sl : slots) in |= sl.kind != NATIVE && sl.imp == (int)i;
            if (in != (bool)impAlive[i]) c.fail("implementation %zu is %s though it is %s", i, impAlive[i] ? "alive" : "destroyed", in ? "installed" : "replaced");
        }
    }
    void check_pending() {
        auto cur = jenv(x->env)->current_exception;
        int got = 0;
        if (cur) {
            try {
                std::rethrow_exception(cur->except);
            } catch (const std::exception& e) {
                got = atoi(e.what());
            }
        }
        PBT_CHECK(c, got == x->pend, "exception %d is pending instead of %d", got, x->pend);
        PBT_CHECK(c, (bool)x->env->ExceptionCheck() == (x->pend != 0), "ExceptionCheck disagrees with the pending exception");
    }
    bool used(int i) const {  // a running call relies on its receiver
        for (auto r : stack)
            if (r->self == i) return true;
        return false;
    }
    int fresh(bool script) {
        auto o = std::make_shared<Probe>();
        o->id = (int)p.size();
        o->clazz = cls[0];
        PModel m;
        m.raw = o.get();
        m.own = true;
        m.script = script;
        p.push_back(m);
        own.push_back(o);
        return o->id;
    }
    jobject add_local(int i) {  // the object must be reachable
        jobject r = x->env->NewLocalRef((jobject)(Object*)p[i].raw);
        PBT_CHECK(c, r == (jobject)(Object*)p[i].raw, "a local reference to object %d is another one", i);
        x->frames.back().push_back(i);
        return r;
    }
    void disown(int i) {
        p[i].own = false;
        auto o = std::move(own[i]);
        own[i] = nullptr;
    }
    int some_alive() {
        std::vector<int> v;
        for (size_t i = 0; i < p.size(); i++)
            if (p[i].alive && held((int)i)) v.push_back((int)i);
        return v.empty() ? fresh(false) : v[s.below((uint32_t)v.size())];
    }
    // a strong pointer to a living object, as native code which was handed it has one
    std::shared_ptr<Probe> strong(int i) { return std::static_pointer_cast<Probe>(p[i].raw->shared_from_this()); }

    void install(int k);
    void uninstall_native(int cl);
    void call(int k);
    void body(int imp, bool may_throw);
    void release_some();
    void thread();
    void op();
    void ops(size_t n) {
        for (size_t i = 0; i < n && budget > 0; i++) op();
    }
};

Impl::~Impl() {
    canary = 0;
    if (W) W->impAlive[id] = 0;
}
Probe::~Probe() {
    if (!W || id < 0) return;
    auto& w = *W;
    w.p[id].alive = false;
    w.p[id].died++;
    if (w.quiet) return;
    for (size_t i = 0; i < w.p[id].weaks.size(); i++)
        if (w.x->env->NewLocalRef((jobject)w.p[id].weaks[i])) w.c.flag("a weak reference yields object %d while it is being destroyed", id);
    if (!w.p[id].script || w.budget <= 0) return;
    PBT_NOTE(w.c, "%*sdestructor of object %d%s%s", w.depth * 2, "", id, w.releasing ? " by " : "", w.releasing ? w.releasing : "");
    if (w.releasing) w.destructor_used = true;
    w.depth++;
    auto before = w.releasing;
    bool no = !before || strstr(before, "exception") || strstr(before, "thread");
    w.noexc += no;
    w.releasing = nullptr;
    try {
        w.ops(1 + w.s.below(2));
    } catch (const pbt::Fail&) {
    } catch (const std::exception& e) {
        w.c.flag("an operation of the destructor of object %d threw %s", id, e.what());
    }
    w.releasing = before;
    w.noexc -= no;
    w.depth--;
}

// What every implementation does: the operations, and then it still has what it captured
jint enter(const std::shared_ptr<Impl>& imp, JNIEnv* env, jint arg, bool may_throw) {
    auto& w = *W;
    int id = imp->id;
    if (jenv(env) != jenv(w.x->env)) w.c.flag("implementation %d got another environment", id);
    if (w.stack.empty() || w.stack.back()->imp != id || w.stack.back()->entered) w.c.flag("implementation %d ran instead of %d", id, w.stack.empty() ? -1 : w.stack.back()->imp);
    w.body(id, may_throw);
    if (imp->id != id || imp->canary != id * 0x9e3779b97f4a7c15ull) w.c.flag("implementation %d lost what it captured while it ran", id);
    return imp->id * 1000 + arg;
}
template <int F> jint native_fn(JNIEnv* env, jobject, jint arg) {
    auto& w = *W;
    if (jenv(env) != jenv(w.x->env)) w.c.flag("native %d got another environment", F);
    if (w.stack.empty() || w.stack.back()->imp != F || w.stack.back()->entered) w.c.flag("native %d ran instead of %d", F, w.stack.empty() ? -1 : w.stack.back()->imp);
    w.body(F, false);
    return F * 1000 + arg;
}
void* const kNative[] = {(void*)&native_fn<0>, (void*)&native_fn<1>, (void*)&native_fn<2>};

void World::install(int k) {
    int cl = slots[k].cls, kind = slots[k].kind;
    std::string name = slots[k].name;
    ENV* e = jenv(x->env);
    if (kind == NATIVE) {
        int f = (int)s.below(3);
        PBT_NOTE(c, "%*sregister native %d as %s", depth * 2, "", f, name.c_str());
        JNINativeMethod m[2] = {{(char*)name.c_str(), (char*)"(I)I", kNative[f]}, {(char*)(name + "x").c_str(), (char*)"()V", kNative[f]}};
        std::string other = name + "x";
        m[1].name = (char*)other.c_str();
        slots[k].imp = f;
        PBT_CHECK(c, x->env->RegisterNatives(jcls[cl], m, 2) == 0, "RegisterNatives failed");
        return;
    }
    auto imp = std::make_shared<Impl>();
    imp->id = (int)impAlive.size();
    imp->canary = imp->id * 0x9e3779b97f4a7c15ull;
    impAlive.push_back(1);
    impProbe.push_back(-1);
    if (s.chance(1, 4)) {
        int q = fresh(s.chance(1, 2));
        imp->held = own[q];
        impProbe.back() = q;
        disown(q);
    }
    PBT_NOTE(c, "%*shook %s %s: implementation %d%s", depth * 2, "", kKindName[kind], name.c_str(), imp->id, impProbe.back() >= 0 ? (" with object " + std::to_string(impProbe.back())).c_str() : "");
    for (auto r : stack)
        if (r->slot == k && r->imp == slots[k].imp && slots[k].imp >= 0) self_replace = true;
    slots[k].imp = imp->id;
    auto before = releasing;
    releasing = "a replaced hook";
    auto C = cls[cl];
    bool obj = slots[k].recv;
    std::shared_ptr<Impl> i = std::move(imp);
    switch (kind) {
        case SMETHOD:
            if (obj) C->Hook(e, name, [i = std::move(i)](ENV* env, jnivm::Class*, jint a) -> jint { return enter(i, env->GetJNIEnv(), a, true); });
            else C->Hook(e, name, [i = std::move(i)](JNIEnv* env, jint a) -> jint { return enter(i, env, a, true); });
            break;
        case SVOID: C->Hook(e, name, [i = std::move(i)](JNIEnv* env) -> void { enter(i, env, 0, true); }); break;
        case SOBJECT: C->Hook(e, name, [i = std::move(i)](JNIEnv* env, std::shared_ptr<Object> o) -> std::shared_ptr<Object> { return enter(i, env, 7, true) == i->id * 1000 + 7 ? o : nullptr; }); break;
        case IMETHOD:
            if (obj) C->HookInstance(e, name, [i = std::move(i)](ENV* env, Object*, jint a) -> jint { return enter(i, env->GetJNIEnv(), a, true); });
            else C->HookInstance(e, name, [i = std::move(i)](JNIEnv* env, jint a) -> jint { return enter(i, env, a, true); });
            break;
        case IVOID:
            if (obj) C->HookInstance(e, name, [i = std::move(i)](JNIEnv* env, Object*) -> void { enter(i, env, 0, true); });
            else C->HookInstance(e, name, [i = std::move(i)](JNIEnv* env) -> void { enter(i, env, 0, true); });
            break;
        case SGET: C->HookGetterFunction(e, name, [i = std::move(i)](JNIEnv* env) -> jint { return enter(i, env, 5, false); }); break;
        case SSET: C->HookSetterFunction(e, name, [i = std::move(i)](JNIEnv* env, jint a) -> void { enter(i, env, a, false); }); break;
        case IGET:
            if (obj) C->HookInstanceGetterFunction(e, name, [i = std::move(i)](JNIEnv* env, Object*) -> jint { return enter(i, env, 5, false); });
            else C->HookInstanceGetterFunction(e, name, [i = std::move(i)](JNIEnv* env) -> jint { return enter(i, env, 5, false); });
            break;
        case ISET:
            if (obj) C->HookInstanceSetterFunction(e, name, [i = std::move(i)](JNIEnv* env, Object*, jint a) -> void { enter(i, env, a, false); });
            else C->HookInstanceSetterFunction(e, name, [i = std::move(i)](JNIEnv* env, jint a) -> void { enter(i, env, a, false); });
            break;
    }
    releasing = before;
    jclass jc = jcls[cl];
    JNIEnv* env = x->env;
    auto& sl = slots[k];
    if (kind <= SOBJECT) {
        jmethodID m = env->GetStaticMethodID(jc, name.c_str(), kind == SMETHOD ? "(I)I" : kind == SVOID ? "()V" : "(Ljava/lang/Object;)Ljava/lang/Object;");
        PBT_CHECK(c, m && (!sl.m || sl.m == m), "%s has another identity after it was hooked again", name.c_str());
        sl.m = m;
    } else if (kind <= IVOID) {
        jmethodID m = env->GetMethodID(jc, name.c_str(), kind == IMETHOD ? "(I)I" : "()V");
        PBT_CHECK(c, m && (!sl.m || sl.m == m), "%s has another identity after it was hooked again", name.c_str());
        sl.m = m;
    } else {
        jfieldID f = kind <= SSET ? env->GetStaticFieldID(jc, name.c_str(), "I") : env->GetFieldID(jc, name.c_str(), "I");
        PBT_CHECK(c, f && (!sl.f || sl.f == f), "%s has another identity after it was hooked again", name.c_str());
        sl.f = f;
    }
}
void World::uninstall_native(int cl) {
    PBT_NOTE(c, "%*sunregister the natives of class %d", depth * 2, "", cl);
    for (size_t k = 0; k < slots.size(); k++)
        if (slots[k].cls == cl && slots[k].kind == NATIVE) {
            for (auto r : stack)
                if (r->slot == (int)k) self_replace = true;
            slots[k].imp = -1;
        }
    PBT_CHECK(c, x->env->UnregisterNatives(jcls[cl]) == 0, "UnregisterNatives failed");
}

// Runs inside an implementation: its operations, and possibly the exception it throws
void World::body(int imp, bool may_throw) {
    Running* r = stack.back();
    r->entered = true;
    depth++;
    struct Out {
        int& d;
        ~Out() { d--; }
    } out{depth};
    size_t n = 1 + s.below(3);
    for (size_t i = 0; i < n && budget > 0; i++) {
        // what concerns the running call itself
        size_t w = s.weighted({5, 3, 2});
        if (recursive && !i && depth < limit && s.chance(7, 8)) {
            budget--;
            call(s.chance(1, 2) ? r->slot : (int)s.below((uint32_t)slots.size()));
            continue;
        }
        if (w == 1) {
            budget--;
            if (slots[r->slot].kind == NATIVE && s.chance(1, 2)) uninstall_native(slots[r->slot].cls);
            else install(r->slot);
        } else if (w == 2 && r->self >= 0 && p[r->self].alive) {
            budget--;
            int q = r->self;
            auto before = releasing;
            releasing = "its last reference";
            if (r->via == 0) {
                if (count_local(*x, q)) {
                    PBT_NOTE(c, "%*sdelete the local reference to object %d", depth * 2, "", q);
                    for (size_t f = x->frames.size(); f--;) {
                        auto at = std::find(x->frames[f].begin(), x->frames[f].end(), q);
                        if (at != x->frames[f].end()) {
                            x->frames[f].erase(at);
                            break;
                        }
                    }
                    if (p[q].own && s.chance(1, 2)) disown(q);
                    x->env->DeleteLocalRef((jobject)(Object*)p[q].raw);
                }
            } else if (r->via == 1 && !p[q].globals.empty()) {
                PBT_NOTE(c, "%*sdelete the global reference to object %d", depth * 2, "", q);
                jobject g = p[q].globals.back();
                p[q].globals.pop_back();
                x->env->DeleteGlobalRef(g);
            } else if (r->via == 2 && !p[q].weaks.empty()) {
                jweak g = p[q].weaks.back();
                p[q].weaks.pop_back();
                x->env->DeleteWeakGlobalRef(g);
            }
            releasing = before;
            r->self = -1;
        } else {
            op();
        }
    }
    if (may_throw && !noexc && s.chance(1, 6)) {
        std::shared_ptr<Probe> o;
        int q = -1;
        if (s.chance(1, 2)) {
            q = fresh(s.chance(1, 2));
            o = own[q];
            disown(q);
        }
        int id = ++exid;
        PBT_NOTE(c, "%*sthrow exception %d%s", depth * 2, "", id, q >= 0 ? (" with object " + std::to_string(q)).c_str() : "");
        x->pend = id;
        x->pendProbe = q;
        r->threw = true;
        releasing = nullptr;
        throw Ex(id, std::move(o));
    }
}

void World::call(int k) {
    int kind = slots[k].kind, cl = slots[k].cls;
    if (kind == NATIVE && noexc) return;  // it would hand on what is pending
    JNIEnv* env = x->env;
    Running r;
    r.slot = k;
    r.imp = slots[k].imp;
    r.depth = stack.size();
    jobject recv = nullptr;
    std::shared_ptr<Probe> keep;
    int adds = -1, late = -1;
    bool inst = kind == IMETHOD || kind == IVOID || kind == IGET || kind == ISET;
    jclass jc = jcls[cl];
    if (inst) {
        // an object only the reference of the call holds, or any other
        int q = s.chance(1, 2) ? fresh(s.chance(1, 2)) : some_alive();
        r.via = (int)s.below(3);
        if (r.via == 0) recv = add_local(q);
        else if (r.via == 1) {
            recv = env->NewGlobalRef((jobject)(Object*)p[q].raw);
            p[q].globals.push_back(recv);
        } else {
            recv = (jobject)env->NewWeakGlobalRef((jobject)(Object*)p[q].raw);
            p[q].weaks.push_back((jweak)recv);
        }
        // an implementation which takes the receiver as a pointer gets it with a local reference
        bool pointer = slots[k].recv;
        if (pointer && r.imp >= 0) adds = q;
        if (p[q].own && s.chance(1, 2) && r.via != 2) late = q;
        r.self = q;
    }
    jint arg = (jint)s.below(1000);
    PBT_NOTE(c, "%*scall %s %s: implementation %d%s", depth * 2, "", kKindName[kind], slots[k].name.c_str(), r.imp, r.self >= 0 ? (" on object " + std::to_string(r.self)).c_str() : "");
    stack.push_back(&r);
    deepest = std::max(deepest, (int)stack.size());
    if (adds >= 0) x->frames.back().push_back(adds);
    if (late >= 0) disown(late);
    auto before = releasing;
    releasing = nullptr;
    depth++;
    jint want = r.imp * 1000 + arg, got = 0;
    bool has = true;
    jobject gotobj = nullptr, passed = nullptr;
    jmethodID m = slots[k].m;
    jfieldID f = slots[k].f;
    int form = (int)s.below(2);
    jvalue a[1];
    memset(a, 0, sizeof a);
    a[0].i = arg;
    std::string escaped;
    try {
        releasing = "a replaced exception";  // what the end of the call may release
        switch (kind) {
            case SMETHOD: got = form ? env->CallStaticIntMethod(jc, m, arg) : env->CallStaticIntMethodA(jc, m, a); break;
            case SVOID: env->CallStaticVoidMethod(jc, m); has = false; break;
            case SOBJECT:
                passed = plain;
                gotobj = env->CallStaticObjectMethod(jc, m, passed);
                has = false;
                break;
            case IMETHOD:
                switch (s.below(3)) {
                    case 0: got = env->CallIntMethod(recv, m, arg); break;
                    case 1: got = env->CallIntMethodA(recv, m, a); break;
                    default: got = env->CallNonvirtualIntMethod(recv, jc, m, arg);
                }
                break;
            case IVOID:
                if (form) env->CallVoidMethod(recv, m);
                else env->CallNonvirtualVoidMethod(recv, jc, m);
                has = false;
                break;
            case SGET: got = env->GetStaticIntField(jc, f); want = r.imp * 1000 + 5; break;
            case SSET: env->SetStaticIntField(jc, f, arg); has = false; break;
            case IGET: got = env->GetIntField(recv, f); want = r.imp * 1000 + 5; break;
            case ISET: env->SetIntField(recv, f, arg); has = false; break;
            case NATIVE: {
                auto proxy = cls[cl]->getMethod("(I)I", slots[k].name.c_str());
                PBT_CHECK(c, (bool)proxy == (r.imp >= 0), "native %s is %s", slots[k].name.c_str(), r.imp < 0 ? "found, though it is not registered" : "not found");
                if (r.imp < 0) {
                    has = false;
                    r.entered = true;
                    break;
                }
                // an exception which is already pending is handed on after the call
                got = proxy->invoke(*env, cls[cl].get(), arg).i;
            }
        }
    } catch (const pbt::Fail&) {
        throw;
    } catch (const std::exception& e) {
        escaped = e.what();
    }
    releasing = before;
    depth--;
    stack.pop_back();
    PBT_CHECK(c, r.entered, "the call of %s %s ran nothing", kKindName[kind], slots[k].name.c_str());
    if (kind == NATIVE) {
        // j2invoke hands on what is pending when the native returns
        if (r.imp >= 0 && x->pend) {
            PBT_CHECK(c, escaped == std::to_string(x->pend), "the native call handed on %s instead of exception %d", escaped.empty() ? "nothing" : escaped.c_str(), x->pend);
            has = false;
        } else {
            PBT_CHECK(c, escaped.empty(), "the native call threw %s", escaped.c_str());
        }
    } else {
        PBT_CHECK(c, escaped.empty(), "the call of %s %s threw %s", kKindName[kind], slots[k].name.c_str(), escaped.c_str());
    }
    if (has) PBT_CHECK(c, got == (r.threw ? 0 : want), "the call of %s %s returned %d instead of %d", kKindName[kind], slots[k].name.c_str(), got, r.threw ? 0 : want);
    if (kind == SOBJECT && !r.threw) PBT_CHECK(c, env->IsSameObject(gotobj, passed), "the call of %s returned another object", slots[k].name.c_str());
}

// A thread attaches, takes references to objects, and is detached
void World::thread() {
    PBT_NOTE(c, "%*sa thread", depth * 2, "");
    std::string err;
    int how = (int)s.below(3);
    Ctx* outer = x;
    Ctx inner;
    std::thread([&] {
        auto work = [&](JNIEnv* env) {
            inner.env = env;
            x = &inner;
            size_t n = 1 + s.below(3);
            depth++;
            struct Out {
                int& d;
                ~Out() { d--; }
            } out{depth};
            for (size_t i = 0; i < n; i++) {
                int q = fresh(s.chance(1, 2));
                add_local(q);
                disown(q);
            }
            ops(s.below(3));
            PBT_NOTE(c, "%*sdetaches", depth * 2, "");
            inner.frames = {{}};
            inner.pend = 0;
            inner.pendProbe = -1;
            releasing = "a thread";
        };
        depth++;
        try {
            if (how == 0) {
                JNIEnv* env = nullptr;
                jvm->AttachCurrentThread(&env, nullptr);
                work(env);
                jvm->DetachCurrentThread();
            } else if (how == 1) {
                FakeJni::JniEnvContext ctx(*jvm);
                work(&ctx.getJniEnv());
            } else {
                JNIEnv* env = nullptr;
                ((JavaVM*)jvm)->GetEnv((void**)&env, JNI_VERSION_1_6);
                work(env);
            }
        } catch (const pbt::Fail&) {
        } catch (const std::exception& e) {
            err = e.what();
        }
        depth--;
        // the end of the thread detaches it, when nothing else did
    }).join();
    releasing = nullptr;
    x = outer;
    PBT_CHECK(c, err.empty(), "the thread failed: %s", err.c_str());
}

void World::op() {
    if (budget-- <= 0 || c.failed) return;
    JNIEnv* env = x->env;
    bool deep = depth >= limit;
    auto before = releasing;
    switch (s.weighted({(uint32_t)(deep ? 0 : 10), 5, 2, 4, 4, 4, (uint32_t)(deep ? 0 : 4), 4, 4, 3, (uint32_t)(deep || x != &main ? 0 : 1), 3})) {
        case 0: call((int)s.below((uint32_t)slots.size())); break;
        case 1: install((int)s.below((uint32_t)slots.size())); break;
        case 2: uninstall_native((int)s.below(2)); break;
        case 3: {  // a local reference
            int q = s.chance(1, 2) ? fresh(s.chance(2, 3)) : some_alive();
            PBT_NOTE(c, "%*slocal reference to object %d", depth * 2, "", q);
            add_local(q);
            if (p[q].own && !used(q)) disown(q);
            break;
        }
        case 4: {  // a global or weak reference
            int q = s.chance(1, 2) ? fresh(s.chance(2, 3)) : some_alive();
            if (s.chance(1, 3)) {
                jweak g = env->NewWeakGlobalRef((jobject)(Object*)p[q].raw);
                PBT_CHECK(c, g, "no weak reference");
                p[q].weaks.push_back(g);
            } else {
                jobject g = env->NewGlobalRef((jobject)(Object*)p[q].raw);
                PBT_CHECK(c, g, "no global reference");
                p[q].globals.push_back(g);
                if (p[q].own && !used(q)) disown(q);
            }
            break;
        }
        case 5: {  // delete a reference
            int q = -1;
            size_t n = p.size(), at = n ? s.below((uint32_t)n) : 0;
            for (size_t i = 0; i < n && q < 0; i++) {
                int t = (int)((at + i) % n);
                if (p[t].alive && !used(t) && (!p[t].globals.empty() || count_local(*x, t) || p[t].own)) q = t;
            }
            if (q < 0) break;
            releasing = "its last reference";
            if (!p[q].globals.empty()) {
                jobject g = p[q].globals.back();
                p[q].globals.pop_back();
                PBT_NOTE(c, "%*sdelete a global reference to object %d", depth * 2, "", q);
                env->DeleteGlobalRef(g);
            } else if (count_local(*x, q)) {
                for (size_t f = x->frames.size(); f--;) {
                    auto it = std::find(x->frames[f].begin(), x->frames[f].end(), q);
                    if (it != x->frames[f].end()) {
                        x->frames[f].erase(it);
                        break;
                    }
                }
                PBT_NOTE(c, "%*sdelete a local reference to object %d", depth * 2, "", q);
                env->DeleteLocalRef((jobject)(Object*)p[q].raw);
            } else disown(q);
            break;
        }
        case 6: {  // a frame
            PBT_NOTE(c, "%*spush a frame", depth * 2, "");
            PBT_CHECK(c, env->PushLocalFrame((jint)s.below(4)) == 0, "PushLocalFrame failed");
            x->frames.emplace_back();
            size_t mine = x->frames.size();
            depth++;
            size_t n = 1 + s.below(4);
            try {
                for (size_t i = 0; i < n && budget > 0; i++) op();
            } catch (...) {
                depth--;
                throw;
            }
            depth--;
            PBT_CHECK(c, x->frames.size() == mine, "harness: frames do not nest");
            int res = -1;
            if (!x->frames.back().empty() && s.chance(1, 3)) res = x->frames.back()[s.below((uint32_t)x->frames.back().size())];
            PBT_NOTE(c, "%*spop the frame%s", depth * 2, "", res >= 0 ? (" with object " + std::to_string(res)).c_str() : "");
            x->frames.pop_back();
            releasing = "a frame";
            depth++;
            jobject r = env->PopLocalFrame(res >= 0 ? (jobject)(Object*)p[res].raw : nullptr);
            depth--;
            PBT_CHECK(c, r == (res >= 0 ? (jobject)(Object*)p[res].raw : nullptr), "PopLocalFrame returned another object");
            if (res >= 0) x->frames.back().push_back(res);
            break;
        }
        case 7: {  // an array element
            int i = (int)s.below((uint32_t)arr.size()), q = s.chance(1, 4) ? -1 : s.chance(1, 2) ? fresh(s.chance(2, 3)) : some_alive();
            PBT_NOTE(c, "%*selement %d = object %d", depth * 2, "", i, q);
            auto o = q >= 0 ? p[q].raw : nullptr;
            if (q >= 0 && p[q].own) add_local(q);
            arr[i] = q;
            releasing = "an array element";
            env->SetObjectArrayElement(array, i, (jobject)(Object*)o);
            break;
        }
        case 8: {  // exceptions
            if (noexc) break;
            releasing = "an exception";
            if (s.chance(1, 2)) {
                PBT_NOTE(c, "%*sclear the exception", depth * 2, "");
                x->pend = 0;
                x->pendProbe = -1;
                env->ExceptionClear();
            } else {
                int id = ++exid;
                PBT_NOTE(c, "%*sthrow new exception %d", depth * 2, "", id);
                x->pend = id;
                x->pendProbe = -1;
                jclass t = env->FindClass("java/lang/Throwable");
                env->ThrowNew(t, std::to_string(id).c_str());
            }
            break;
        }
        case 9: {  // anything which makes the tables grow
            size_t n = 1 + s.below(6);
            for (size_t i = 0; i < n; i++) {
                std::string nm = "n" + std::to_string(s.below(40));
                switch (s.below(5)) {
                    case 0: env->NewStringUTF(nm.c_str()); break;
                    case 1: env->NewIntArray(3); break;
                    case 2: jenv(env)->GetClass(("g/" + nm).c_str()); break;
                    case 3: cls[s.below(2)]->Hook(jenv(env), nm, [](jint a) { return a; }); break;
                    default: env->NewObjectArray(1, jcls[0], nullptr);
                }
            }
            break;
        }
        case 10: thread(); break;
        default:
            PBT_CHECK(c, env->EnsureLocalCapacity((jint)s.below(64)) == 0, "EnsureLocalCapacity failed");
            if (!noexc) check_pending();
    }
    releasing = before;
    settle();
    if (!depth) check_pending();
}
}  // namespace

void property_case(Case& c) {
    World w(c);
    Src& s = c.s;
    std::unique_ptr<FakeJni::Jvm> jvm;
    if (s.chance(1, 3)) jvm.reset(new Baron::Jvm());
    else jvm.reset(new FakeJni::Jvm());
    w.jvm = jvm.get();
    W = &w;
    struct Off {
        World& w;
        std::unique_ptr<FakeJni::Jvm>& jvm;
        ~Off() {
            w.quiet = true;
            w.own.clear();
            jvm.reset();
            W = nullptr;
        }
    } off{w, jvm};
    {
        FakeJni::JniEnvContext ctx(*jvm);
        w.main.env = &ctx.getJniEnv();
        JNIEnv* env = w.main.env;
        ENV* e = jenv(env);
        w.cls.push_back(e->GetClass<Probe>("r/P"));
        w.cls.push_back(e->GetClass("r/Q"));
        for (auto& k : w.cls) w.jcls.push_back((jclass)(Object*)k.get());
        jclass oc = env->FindClass("java/lang/Object");
        w.array = env->NewObjectArray(3, oc, nullptr);
        w.plain = env->NewStringUTF("p");
        size_t n = 3 + s.below(5);
        for (size_t i = 0; i < n; i++) {
            Slot sl;
            sl.cls = (int)s.below(2);
            sl.kind = (int)s.below(NKINDS);
            sl.recv = s.chance(1, 2);
            sl.name = std::string("m") + std::to_string(i);
            w.slots.push_back(sl);
            w.depth = 1;
            w.install((int)i);
            w.depth = 0;
        }
        w.budget = (int)(10 + s.len(120));
        static const int limits[] = {6, 6, 12, 60};
        w.limit = limits[s.below(4)];
        w.recursive = w.limit > 6;
        try {
            while (w.budget > 0) w.op();
        } catch (const pbt::Fail&) {
            w.quiet = true;
            throw;
        }
        w.quiet = true;
    }
    if (w.destructor_used) c.label("destructor used the VM");
    if (w.deepest > 8) c.label("more than 8 calls nested");
    if (w.self_replace) c.label("replaced itself");
    c.nontrivial = w.destructor_used && w.self_replace;
}
