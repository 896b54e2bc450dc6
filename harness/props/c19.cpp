// C19: native libraries.
#include "jvmutil.hpp"
#include <array>
#include <baron/baron.h>
#include <map>
#include <utility>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C19";
const char* const kRule =
    "a history of attaching (also again) and removing (also unknown) libraries with names of all shapes on a FakeJni or Baron VM, then its destruction; two families of substituted "
    "functions decide per case which names open, which hooks exist (plain ones and those of libraries linked into the program) and whether opening again yields the same handle; hooks use the "
    "VM and may attach another library; every opening, closing and hook is recorded and checked; non-trivial: a fallback to the program, a failed opening and a removal all "
    "happened; identity: the draws";

constexpr int kSlots = 24, kBare = 3;
constexpr int kKinds = 2 + 2 * kBare;  // JNI_OnLoad, JNI_OnUnload, and both for each bare name
static const char kLong[] = "a_library_whose_name_is_rather_long_and_has_many_words_in_it_so_that_no_buffer_of_a_small_size_would_do";
static const char* kBareNames[kBare] = {"a", "ab", kLong};
static const char* kNames[] = {"a", "ab", kLong, "a.so", "/lib/a", "./b", "", "lib/ab.so", "/x.y/b", "c"};

struct Open {
    std::string name;
    bool program;
    int family, handle;
    bool closed = false;
    int loads = 0, unloads = 0;  // hooks which ran
    std::string key;             // the library it was opened for
};
struct World {
    Case* c;
    JavaVM* vm;
    bool shared;  // the same name yields the same handle
    std::map<std::string, bool> opens;
    bool program_opens = true;
    std::vector<bool> has;  // per handle and kind
    std::vector<Open> log;
    std::map<std::string, int> handles[2];
    std::vector<std::string> asked;
    std::string attaching, removing;
    bool ending = false;
    int nested = -1;  // the next load hook attaches this name
    FakeJni::Jvm* jvm = nullptr;
};
static World* W;
static void* to_handle(int h) { return (void*)(uintptr_t)(0x1000 + h * 16); }
static int of_handle(void* p) { return ((int)(uintptr_t)p - 0x1000) / 16; }
static void attach(FakeJni::Jvm* jvm, const std::string& name, int family);

// The opening a hook or a closing belongs to: the last one of the handle that is not closed
static Open* opening(int family, int handle) {
    Open* r = nullptr;
    for (auto& o : W->log)
        if (o.family == family && o.handle == handle && !o.closed) r = &o;
    return r;
}
static void hook(int slot, int kind, JavaVM* vm) {
    int family = slot & 1;
    if (vm != W->vm) W->c->flag("a hook got another VM");
    JNIEnv* e = nullptr;
    if (vm->GetEnv((void**)&e, JNI_VERSION_1_6) != JNI_OK || !e) return W->c->flag("a hook got no environment");
    e->PushLocalFrame(0);
    if (!e->FindClass("java/lang/String")) W->c->flag("a hook cannot find a class");
    e->PopLocalFrame(nullptr);
    bool load = !(kind & 1);
    // with shared handles several openings are told apart only by what is due
    Open* r = nullptr;
    for (auto& o : W->log)
        if (o.family == family && o.handle == slot && !o.closed && (load ? !o.loads : !o.unloads)) r = &o;
    if (!r) return W->c->flag("a%s hook of handle %d ran too often or while it was not open", load ? " load" : "n unload", slot);
    if (r->program) {
        int want = -1;
        for (int i = 0; i < kBare; i++)
            if (r->key == kBareNames[i]) want = 2 + 2 * i + !load;
        // (several openings of the program: one for this hook's library)
        if (kind != want)
            for (auto& o : W->log)
                if (o.family == family && o.handle == slot && !o.closed && (load ? !o.loads : !o.unloads) && kind >= 2 && o.key == kBareNames[(kind - 2) / 2]) {
                    r = &o;
                    want = kind;
                }
        if (kind != want) W->c->flag("hook %d of the program ran for library %s", kind, r->key.data());
    } else if (kind > 1)
        W->c->flag("hook %d ran for a library which was opened", kind);
    (load ? r->loads : r->unloads)++;
    if (!load && !W->ending && W->attaching.empty() && !W->jvm) W->c->flag("an unload hook ran unexpectedly");
    PBT_NOTE(*W->c, "    %s hook of handle %d (%d)", load ? "load" : "unload", slot, kind);
    if (load && W->nested >= 0 && W->jvm) {
        std::string n = kNames[W->nested];
        W->nested = -1;
        auto was = W->attaching;
        attach(W->jvm, n, family);
        W->attaching = W->removing = was;
    }
}
template <int I> static jint thunk(JavaVM* vm, void*) {
    hook(I / kKinds, I % kKinds, vm);
    return JNI_VERSION_1_6;
}
template <int I> static void vthunk(JavaVM* vm, void*) { hook(I / kKinds, I % kKinds, vm); }
template <int I> static constexpr void* pick_thunk() { return I % kKinds % 2 ? (void*)vthunk<I> : (void*)thunk<I>; }
template <int... I> static void* thunk_at(int i, std::integer_sequence<int, I...>) {
    static void* t[] = {pick_thunk<I>()...};
    return t[i];
}
template <int F> static void* my_open(const char* name, int) {
    W->asked.push_back(name ? name : "(program)");
    bool ok = name ? W->opens[name] : W->program_opens;
    PBT_NOTE(*W->c, "    open %s: %s", name ? name : "the program", ok ? "done" : "fails");
    if (!ok) return nullptr;
    std::string k = name ? name : "(program)";
    int h = -1;
    if (W->shared) {
        auto f = W->handles[F].find(k);
        if (f != W->handles[F].end()) h = f->second;
    }
    if (h < 0) {
        h = F;
        for (auto& o : W->log) h = std::max(h, (o.handle | 1) + 1 + F);
        if (h >= kSlots) return nullptr;
        W->handles[F][k] = h;
    }
    W->log.push_back(Open{k, !name, F, h, false, 0, 0, W->attaching});
    return to_handle(h);
}
static int kind_of(const char* name) {
    std::string n = name;
    if (n == "JNI_OnLoad") return 0;
    if (n == "JNI_OnUnload") return 1;
    for (int i = 0; i < kBare; i++) {
        if (n == std::string("JNI_OnLoad_") + kBareNames[i]) return 2 + 2 * i;
        if (n == std::string("JNI_OnUnload_") + kBareNames[i]) return 3 + 2 * i;
    }
    return -1;
}
static bool has(int handle, int kind) { return W->has[(size_t)(handle * kKinds + kind)]; }
template <int F> static void* my_sym(void* h, const char* name) {
    int handle = of_handle(h);
    if (!h || !opening(F, handle)) {
        W->c->flag("a symbol of a closed or foreign handle was looked up");
        return nullptr;
    }
    int k = kind_of(name);
    if (k < 0) {  // a library linked into the program without hooks
        return nullptr;
    }
    return has(handle, k) ? thunk_at(handle * kKinds + k, std::make_integer_sequence<int, kSlots * kKinds>()) : nullptr;
}
template <int F> static int my_close(void* h) {
    int handle = of_handle(h);
    if (!h || !opening(F, handle)) {
        W->c->flag("a closed or foreign handle was closed");
        return 0;
    }
    // which of several openings of a shared handle this is: one whose hooks ran
    Open* r = nullptr;
    int best = -1;
    for (auto& o : W->log) {
        if (o.family != F || o.handle != handle || o.closed) continue;
        int u = 1;
        if (o.program) {
            u = -1;
            for (int i = 0; i < kBare; i++)
                if (o.key == kBareNames[i]) u = 3 + 2 * i;
        }
        bool want = u >= 0 && has(handle, u);
        if (o.unloads == (want ? 1 : 0)) {
            // prefer the library being removed, then one that had to be unloaded
            auto rank = [&](Open& x, bool w) { return (W->removing == x.key ? 2 : 0) + w; };
            int k = rank(o, want);
            if (!r || k >= best) {
                r = &o;
                best = k;
            }
        }
    }
    if (!r) {
        W->c->flag("handle %d was closed before its unload hook ran", handle);
        return 0;
    }
    PBT_NOTE(*W->c, "    close handle %d", handle);
    r->closed = true;
    return 0;
}
static FakeJni::LibraryOptions options(int family) {
    return family ? FakeJni::LibraryOptions(my_open<1>, my_sym<1>, my_close<1>) : FakeJni::LibraryOptions(my_open<0>, my_sym<0>, my_close<0>);
}
static void attach(FakeJni::Jvm* jvm, const std::string& name, int family) {
    W->attaching = W->removing = name;
    PBT_NOTE(*W->c, "attach \"%s\" (family %d)", name.data(), family);
    jvm->attachLibrary(name, "", options(family));
    W->attaching.clear();
    W->removing.clear();
}

void property_case(Case& c) {
    Src& s = c.s;
    World w;
    w.c = &c;
    W = &w;
    w.shared = s.chance(1, 3);
    std::unique_ptr<FakeJni::Jvm> jvm(s.chance(1, 2) ? new FakeJni::Jvm : new Baron::Jvm);
    // (the VM is not deleted through the base otherwise)
    w.vm = jvm.get();
    w.program_opens = s.chance(3, 4);
    for (auto n : kNames) w.opens[n] = s.chance(1, 2);
    for (int i = 0; i < kSlots * kKinds; i++) w.has.push_back(s.chance(2, 3));
    std::map<std::string, std::vector<size_t>> attached;  // the openings of each library
    bool fellback = false, failed = false, removed = false, again = false;
    auto open_for = [&](const std::string& n) {
        int k = 0;
        for (auto& o : w.log) k += !o.closed && o.key == n;
        return k;
    };
    auto check = [&] {
        if (c.failed) c.fail("%s", c.msg.c_str());
        for (auto& o : w.log) {
            int l = 0, u = 1;
            if (o.program) {
                l = u = -1;
                for (int i = 0; i < kBare; i++)
                    if (o.key == kBareNames[i]) {
                        l = 2 + 2 * i;
                        u = 3 + 2 * i;
                    }
            }
            int wl = l >= 0 && has(o.handle, l), wu = u >= 0 && has(o.handle, u);
            PBT_CHECK(c, o.loads == wl, "the load hook of handle %d (%s) ran %d times instead of %d", o.handle, o.key.data(), o.loads, wl);
            PBT_CHECK(c, o.unloads == (o.closed ? wu : 0), "the unload hook of handle %d (%s) ran %d times", o.handle, o.key.data(), o.unloads);
        }
        for (auto& a : attached) PBT_CHECK(c, open_for(a.first) == 1, "library \"%s\" is opened %d times while attached", a.first.data(), open_for(a.first));
        for (auto& o : w.log) PBT_CHECK(c, o.closed || attached.count(o.key), "library \"%s\" is open though it is not attached", o.key.data());
    };
    w.jvm = jvm.get();
    for (size_t n = 2 + s.len(16); n-- > 0;) {
        std::string name = s.pick(kNames);
        if (s.chance(2, 3)) {
            if (w.log.size() + 4 >= kSlots / 2) break;
            int family = s.chance(1, 4);
            bool dup = attached.count(name) != 0;
            w.nested = s.chance(1, 6) ? (int)s.below(10) : -1;
            std::string inner = w.nested >= 0 ? kNames[w.nested] : "";
            bool nest = w.nested >= 0 && inner != name;
            if (!nest) w.nested = -1;
            size_t from = w.log.size();
            w.asked.clear();
            attach(jvm.get(), name, family);
            if (c.failed) c.fail("%s", c.msg.c_str());
            bool did_nest = nest && w.nested < 0;
            w.nested = -1;
            (void)from;
            auto expect = [&](const std::string& nm) {
                bool bare = !nm.empty() && nm.find('/') == std::string::npos && nm.find('.') == std::string::npos;
                if (w.opens[nm]) return 1;
                failed = true;
                if (bare && w.program_opens) {
                    fellback = true;
                    return 2;
                }
                return 0;
            };
            auto account = [&](const std::string& nm, bool was) {
                int e = expect(nm);
                if (was) {
                    again = true;
                    return;
                }
                int k = 0;
                for (size_t i = from; i < w.log.size(); i++)
                    if (w.log[i].key == nm) {
                        k++;
                        PBT_CHECK(c, w.log[i].program == (e == 2), "library \"%s\" was opened as %s", nm.data(), w.log[i].name.data());
                    }
                PBT_CHECK(c, k == (e ? 1 : 0), "library \"%s\" was opened %d times instead of %d", nm.data(), k, e ? 1 : 0);
                if (e) attached[nm] = {};
            };
            bool inner_was = attached.count(inner) != 0;
            account(name, dup);
            if (did_nest) account(inner, inner_was);
        } else {
            PBT_NOTE(c, "remove \"%s\"", name.data());
            w.removing = name;
            jvm->removeLibrary(name);
            w.removing.clear();
            if (attached.erase(name)) removed = true;
        }
        check();
    }
    PBT_NOTE(c, "destroy the VM");
    w.ending = true;
    jvm.reset();
    attached.clear();
    check();
    c.nontrivial = fellback && failed && removed;
    if (again) c.label("attached again");
    c.label(w.shared ? "shared handles" : "own handles");
    W = nullptr;
}
