// C30: direct buffers, windows on memory of the native code.
#include "jvmutil.hpp"
#include <baron/baron.h>
#include <jnivm/bytebuffer.h>
#include <sys/mman.h>
using jnivm::Array;
using jnivm::ByteBuffer;
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C30";
const char* const kRule =
    "up to eight direct buffers of every size (zero to 2^34 bytes), over memory the program uses, memory nobody may touch, overlapping and equal memory, made by NewDirectByteBuffer or natively (a subclass of the native "
    "type too), in up to 60 operations: asked for address, capacity, class and identity through all reference kinds and threads, passed to and returned from hooks and natives by pointer and shared pointer, kept in fields and arrays, "
    "written through what any of these ways gives, references and frames dropped in any order; compared with the memory and a model of who keeps which buffer alive; non-trivial: a buffer of more than 2^31 bytes or of "
    "none was used, and one was reached in three ways; identity: the draws";

struct Sub : ByteBuffer {
    using ByteBuffer::ByteBuffer;
    long more = 5;
};
struct Holder : Object {
    std::shared_ptr<ByteBuffer> b;
    std::shared_ptr<Object> o;
};

static constexpr size_t kLive = 4096, kSealed = (size_t)1 << 35;
static char* sealed() {  // mapped, but whoever reads or writes it dies
    static char* p = (char*)mmap(nullptr, kSealed, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p;
}

struct Buf {
    char* addr;
    jlong cap;
    bool live;  // in the memory the program may use
    bool sub;
    std::weak_ptr<Object> obj;
    const void* id;
};
struct Holding {  // something which keeps a buffer alive
    int buf;
    jobject ref;
    int kind;   // 0 local, 1 global, 2 weak (keeps nothing alive)
    int frame;  // of a local one
};
struct Seen {
    std::vector<std::pair<void*, jlong>> v;
    ByteBuffer* last = nullptr;
};
static thread_local Seen* t_seen;
static thread_local std::shared_ptr<ByteBuffer> t_give;
static jlong nat(JNIEnv* e, jclass, jobject b) {
    t_seen->v.push_back({e->GetDirectBufferAddress(b), e->GetDirectBufferCapacity(b)});
    return e->GetDirectBufferCapacity(b);
}

void property_case(Case& c) {
    Src& s = c.s;
    bool usebaron = s.chance(1, 3);
    std::unique_ptr<VM> plain;
    std::unique_ptr<Baron::Jvm> baron;
    if (usebaron) baron.reset(new Baron::Jvm());
    else plain.reset(new VM());
    VM* vm = usebaron ? VM::FromJavaVM(baron.get()) : plain.get();
    JNIEnv* e = vm->GetJNIEnv();
    ENV* je = jenv(e);
    std::unique_ptr<char[]> mem(new char[kLive]);
    std::vector<char> model(kLive);
    for (size_t i = 0; i < kLive; i++) mem[i] = model[i] = (char)(i * 7);
    if (sealed() == MAP_FAILED) c.discard();

    Seen seen;
    t_seen = &seen;
    auto hc = je->GetClass<Holder>("p/Holder");
    je->GetClass<Sub>("p/Sub");
    hc->HookInstance(je, "b", &Holder::b);
    hc->HookInstance(je, "o", &Holder::o);
    hc->Hook(je, "take", [](ENV*, jnivm::Class*, std::shared_ptr<ByteBuffer> b) -> jlong {
        if (!b) return -7;
        t_seen->v.push_back({b->buffer, b->capacity});
        t_seen->last = b.get();
        return b->capacity;
    });
    hc->HookInstanceFunction(je, "takep", [](ENV*, Holder*, jint i, ByteBuffer* b, jlong at, jbyte v) -> jlong {
        if (!b) return -7;
        t_seen->v.push_back({b->buffer, b->capacity});
        t_seen->last = b;
        if (i) ((jbyte*)b->buffer)[at] = v;
        return b->capacity;
    });
    hc->Hook(je, "give", [](ENV*, jnivm::Class*) -> std::shared_ptr<ByteBuffer> { return t_give; });
    hc->Hook(je, "same", [](ENV*, jnivm::Class*, std::shared_ptr<ByteBuffer> b) -> std::shared_ptr<ByteBuffer> { return b; });
    e->PushLocalFrame(0);
    jobject holder = local(e, std::make_shared<Holder>());
    jclass hk = e->FindClass("p/Holder"), bk = e->FindClass("java/nio/ByteBuffer");
    jobject arr = e->NewObjectArray(4, bk, nullptr), narr = local(e, std::make_shared<Array<ByteBuffer>>(4));
    PBT_CHECK(c, native<jnivm::Class>(e, bk)->getName() == "java/nio/ByteBuffer", "the class of buffers is called %s", native<jnivm::Class>(e, bk)->getName().c_str());
    JNINativeMethod nm{(char*)"nat", (char*)"(Ljava/nio/ByteBuffer;)J", (void*)nat};
    PBT_CHECK(c, e->RegisterNatives(hk, &nm, 1) == 0, "RegisterNatives fails");
    jmethodID take = e->GetStaticMethodID(hk, "take", "(Ljava/nio/ByteBuffer;)J"), takep = e->GetMethodID(hk, "takep", "(ILjava/nio/ByteBuffer;JB)J");
    jmethodID give = e->GetStaticMethodID(hk, "give", "()Ljava/nio/ByteBuffer;"), same = e->GetStaticMethodID(hk, "same", "(Ljava/nio/ByteBuffer;)Ljava/nio/ByteBuffer;");
    jfieldID fb = e->GetFieldID(hk, "b", "Ljava/nio/ByteBuffer;"), fo = e->GetFieldID(hk, "o", "Ljava/lang/Object;");
    PBT_CHECK(c, take && takep && give && same && fb && fo, "a hooked member with buffers is not found under its signature");

    std::vector<Buf> bufs;
    std::vector<Holding> refs;
    int frames = 0;
    // who else keeps them
    int in_b = -1, in_o = -1, in_arr[4] = {-1, -1, -1, -1}, in_narr[4] = {-1, -1, -1, -1};
    Worker other;
    unsigned ways = 0;
    bool extreme = false;

    auto keeps = [&](int b) {
        for (auto& r : refs)
            if (r.buf == b && r.kind != 2) return true;
        if (in_b == b || in_o == b) return true;
        for (int i = 0; i < 4; i++)
            if (in_arr[i] == b || in_narr[i] == b) return true;
        return false;
    };
    auto lives = [&] {
        for (size_t i = 0; i < bufs.size(); i++) {
            bool k = keeps((int)i), a = !bufs[i].obj.expired();
            PBT_CHECK(c, k == a, "buffer %zu %s", i, k ? "is gone while something refers to it" : "outlives everything which refers to it");
        }
        PBT_CHECK(c, !memcmp(mem.get(), model.data(), kLive), "the memory of the buffers was changed");
    };
    auto verify = [&](JNIEnv* x, jobject r, int b, const char* how) {
        const Buf& f = bufs[(size_t)b];
        void* p = x->GetDirectBufferAddress(r);
        jlong n = x->GetDirectBufferCapacity(r);
        PBT_CHECK(c, p == f.addr, "%s: buffer %d has address %p instead of %p", how, b, p, (void*)f.addr);
        PBT_CHECK(c, n == f.cap, "%s: buffer %d has capacity %lld instead of %lld", how, b, (long long)n, (long long)f.cap);
        if (f.cap > 0x7fffffff || !f.cap) extreme = true;
    };
    // a reference to a living buffer
    auto some = [&](int kinds) -> Holding* {
        std::vector<Holding*> l;
        for (auto& r : refs)
            if (keeps(r.buf) && (kinds >> r.kind & 1)) l.push_back(&r);
        return l.empty() ? nullptr : s.pick(l);
    };
    auto add = [&](int b, jobject r, int kind) { refs.push_back({b, r, kind, kind ? -1 : frames}); };
    auto is = [&](jobject r, int b, const char* how) {
        auto p = native<Object>(e, r);
        PBT_CHECK(c, p && p.get() == bufs[(size_t)b].id, "%s gives another object than buffer %d", how, b);
        verify(e, r, b, how);
    };
    auto called = [&](jlong ret, int b, const char* how) {
        const Buf& f = bufs[(size_t)b];
        PBT_CHECK(c, !e->ExceptionCheck(), "%s: an exception", how);
        PBT_CHECK(c, seen.v.size() == 1 && seen.v[0].first == f.addr && seen.v[0].second == f.cap, "%s: sees another address or capacity than buffer %d has", how, b);
        PBT_CHECK(c, ret == f.cap, "%s: returned %lld instead of %lld", how, (long long)ret, (long long)f.cap);
    };

    size_t steps = 3 + s.len(57);
    for (size_t step = 0; step < steps; step++) {
        int op = (int)s.weighted({5, 2, 4, 6, 4, 3, 2, 3, 3, 3, 2, 2, 4, 2, 2, 2});
        seen.v.clear();
        seen.last = nullptr;
        switch (op) {
            case 0: case 1: {  // a new one
                if (bufs.size() >= 8) break;
                Buf f;
                f.live = s.chance(1, 2);
                f.sub = false;
                if (f.live) {
                    size_t at = s.below(kLive), n = s.below((uint32_t)(kLive - at) + 1);
                    f.addr = mem.get() + at;
                    f.cap = (jlong)n;
                } else {
                    static const uint64_t edge[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x3ffffffffull, 0x400000000ull};
                    size_t at = s.chance(1, 2) ? s.below(16) : s.wide(1ull << 34);
                    f.addr = sealed() + at;
                    f.cap = (jlong)(s.chance(2, 3) ? s.pick(edge) : s.wide(1ull << 34));
                }
                if (!bufs.empty() && s.chance(1, 5)) {  // over the very same memory
                    const Buf& o = bufs[s.below((uint32_t)bufs.size())];
                    f.addr = o.addr;
                    f.live = o.live;
                    if (s.chance(1, 2)) f.cap = o.cap;
                    else if (f.live) f.cap = std::min<jlong>(f.cap, mem.get() + kLive - f.addr);
                }
                jobject r;
                int n = (int)bufs.size();
                if (op == 0) {
                    r = e->NewDirectByteBuffer(f.addr, f.cap);
                } else {
                    f.sub = s.chance(1, 3);
                    t_give = f.sub ? std::make_shared<Sub>(f.addr, f.cap) : std::make_shared<ByteBuffer>(f.addr, f.cap);
                    r = s.chance(1, 2) ? e->CallStaticObjectMethod(hk, give) : local(e, t_give);
                    PBT_CHECK(c, native<Object>(e, r) == t_give, "a natively made buffer arrives as another object");
                    t_give = nullptr;
                }
                PBT_NOTE(c, "buffer %d: %s address +%zd capacity %lld, %s%s", n, f.live ? "usable" : "sealed", f.live ? f.addr - mem.get() : f.addr - sealed(), (long long)f.cap, op ? "made natively" : "NewDirectByteBuffer", f.sub ? ", subclass" : "");
                PBT_CHECK(c, r, "no buffer was made");
                auto p = native<Object>(e, r);
                f.obj = p;
                f.id = p.get();
                for (size_t i = 0; i < bufs.size(); i++)
                    if (!bufs[i].obj.expired()) PBT_CHECK(c, bufs[i].id != f.id, "a new buffer is buffer %zu", i);
                p = nullptr;
                bufs.push_back(f);
                add(n, r, 0);
                verify(e, r, n, "just made");
                break;
            }
            case 2: {  // another reference
                Holding* h = some(7);
                if (!h) break;
                int k = (int)s.below(3), b = h->buf;
                jobject r = k == 0 ? e->NewLocalRef(h->ref) : k == 1 ? e->NewGlobalRef(h->ref) : (jobject)e->NewWeakGlobalRef(h->ref);
                PBT_NOTE(c, "%s reference to buffer %d", k == 0 ? "local" : k == 1 ? "global" : "weak", b);
                PBT_CHECK(c, r, "no reference to buffer %d", b);
                add(b, r, k);
                verify(e, r, b, "new reference");
                break;
            }
            case 3: {  // asked
                Holding* h = some(7);
                if (!h) break;
                int b = h->buf;
                bool sub = bufs[(size_t)b].sub;
                PBT_NOTE(c, "ask buffer %d", b);
                ways |= 1u << h->kind;
                verify(e, h->ref, b, "asked");
                jclass k = e->GetObjectClass(h->ref);
// one made natively gets the class of the type it was first passed as
                if (!sub) PBT_CHECK(c, native<jnivm::Class>(e, k)->getName() == "java/nio/ByteBuffer", "buffer %d is a %s", b, native<jnivm::Class>(e, k)->getName().c_str());
                if (!sub) PBT_CHECK(c, e->IsSameObject(k, bk) && e->IsInstanceOf(h->ref, bk), "buffer %d is no instance of the class of buffers", b);
                PBT_CHECK(c, !e->IsInstanceOf(h->ref, e->FindClass("java/lang/String")), "buffer %d is a string", b);
                e->DeleteLocalRef(k);
                if (Holding* g = some(7)) PBT_CHECK(c, (bool)e->IsSameObject(h->ref, g->ref) == (b == g->buf), "buffers %d and %d are %s", b, g->buf, b == g->buf ? "different" : "the same");
                break;
            }
            case 4: {  // hook with a shared pointer
                Holding* h = some(7);
                if (!h) break;
                PBT_NOTE(c, "take buffer %d", h->buf);
                ways |= 8;
                int w = (int)s.below(2);
                jvalue v;
                v.l = h->ref;
                jlong r = w ? e->CallStaticLongMethodA(hk, take, &v) : e->CallStaticLongMethod(hk, take, h->ref);
                called(r, h->buf, "hook");
                PBT_CHECK(c, (Object*)seen.last == bufs[(size_t)h->buf].id, "a hook sees another object than buffer %d", h->buf);
                break;
            }
            case 5: {  // hook with a plain pointer, which may write
                Holding* h = some(7);
                if (!h) break;
                int b = h->buf;
                const Buf& f = bufs[(size_t)b];
                bool wr = f.live && f.cap > 0;
                jlong at = wr ? (jlong)s.below((uint32_t)f.cap) : s.range(-5, 5);
                jbyte v = (jbyte)s.below(256);
                PBT_NOTE(c, "takep buffer %d, %s %lld", b, wr ? "write" : "no write", (long long)at);
                ways |= 16;
                // a plain pointer leaves a local reference behind
                e->PushLocalFrame(0);
                jlong r = e->CallLongMethod(holder, takep, (jint)wr, h->ref, at, v);
                e->PopLocalFrame(nullptr);
                if (wr) model[(size_t)(f.addr - mem.get() + at)] = (char)v;
                called(r, b, "hook");
                break;
            }
            case 6: {  // native
                Holding* h = some(7);
                if (!h || !usebaron) break;
                PBT_NOTE(c, "native with buffer %d", h->buf);
                ways |= 32;
                auto m = hc->getMethod("(Ljava/nio/ByteBuffer;)J", "nat");
                PBT_CHECK(c, m, "the native is not found");
                e->PushLocalFrame(0);
                jlong r = m->invoke(*e, hc.get(), native<ByteBuffer>(e, h->ref)).j;
                e->PopLocalFrame(nullptr);
                called(r, h->buf, "native");
                break;
            }
            case 7: {  // through a hook and back
                Holding* h = some(7);
                if (!h) break;
                int b = h->buf;
                PBT_NOTE(c, "return buffer %d", b);
                jobject r = e->CallStaticObjectMethod(hk, same, h->ref);
                is(r, b, "a hook which returns it");
                ways |= 64;
                add(b, r, 0);
                break;
            }
            case 8: {  // into a field or out of it
                bool ob = s.chance(1, 2);
                jfieldID f = ob ? fo : fb;
                int& in = ob ? in_o : in_b;
                if (s.chance(1, 2)) {
                    Holding* h = s.chance(1, 6) ? nullptr : some(7);
                    PBT_NOTE(c, "field %s = buffer %d", ob ? "o" : "b", h ? h->buf : -1);
                    e->SetObjectField(holder, f, h ? h->ref : nullptr);
                    in = h ? h->buf : -1;
                } else {
                    jobject r = e->GetObjectField(holder, f);
                    PBT_NOTE(c, "get field %s", ob ? "o" : "b");
                    PBT_CHECK(c, !!r == (in >= 0), "the field is %s", r ? "not empty" : "empty");
                    if (!r) break;
                    is(r, in, "a field");
                    ways |= 128;
                    add(in, r, 0);
                }
                break;
            }
            case 9: {  // arrays
                bool nv = s.chance(1, 2);
                int i = (int)s.below(4);
                int& in = nv ? in_narr[i] : in_arr[i];
                jobjectArray a = (jobjectArray)(nv ? narr : arr);
                if (s.chance(1, 2)) {
                    Holding* h = s.chance(1, 6) ? nullptr : some(7);
                    PBT_NOTE(c, "array %d [%d] = buffer %d", nv, i, h ? h->buf : -1);
                    e->SetObjectArrayElement(a, i, h ? h->ref : nullptr);
                    in = h ? h->buf : -1;
                } else {
                    jobject r = e->GetObjectArrayElement(a, i);
                    PBT_NOTE(c, "get array %d [%d]", nv, i);
                    PBT_CHECK(c, !!r == (in >= 0), "the element is %s", r ? "not empty" : "empty");
                    if (!r) break;
                    is(r, in, "an array");
                    ways |= 256;
                    add(in, r, 0);
                }
                break;
            }
            case 10: {  // another thread
                Holding* h = some(6);
                if (!h) break;
                PBT_NOTE(c, "buffer %d on another thread", h->buf);
                ways |= 512;
                other.run([&] {
                    JNIEnv* x = nullptr;
                    ((JavaVM*)vm->GetJavaVM())->AttachCurrentThread(&x, nullptr);
                    try {
                        verify(x, h->ref, h->buf, "another thread");
                    } catch (...) {
                        vm->GetJavaVM()->DetachCurrentThread();
                        throw;
                    }
                    vm->GetJavaVM()->DetachCurrentThread();
                });
                break;
            }
            case 11: {  // written by the program
                Holding* h = some(7);
                if (!h) break;
                const Buf& f = bufs[(size_t)h->buf];
                if (!f.live || !f.cap) break;
                size_t at = s.below((uint32_t)f.cap);
                char v = (char)s.below(256);
                PBT_NOTE(c, "write buffer %d at %zu", h->buf, at);
                ((char*)e->GetDirectBufferAddress(h->ref))[at] = v;
                model[(size_t)(f.addr - mem.get()) + at] = v;
                break;
            }
            case 12: case 13: {  // drop a reference
                if (refs.empty()) break;
                size_t i = s.below((uint32_t)refs.size());
                Holding h = refs[i];
                if (!h.kind && h.frame != frames) break;  // of an outer frame
                PBT_NOTE(c, "drop a reference to buffer %d", h.buf);
                if (h.kind == 0) e->DeleteLocalRef(h.ref);
                else if (h.kind == 1) e->DeleteGlobalRef(h.ref);
                else e->DeleteWeakGlobalRef(h.ref);
                refs.erase(refs.begin() + (long)i);
                break;
            }
            case 14:
                if (frames >= 4) break;
                PBT_NOTE(c, "push a frame");
                e->PushLocalFrame((jint)s.below(4));
                frames++;
                break;
            case 15: {
                if (!frames) break;
                Holding* h = s.chance(1, 2) ? some(7) : nullptr;
                int b = h ? h->buf : -1;
                PBT_NOTE(c, "pop a frame, keep buffer %d", b);
                jobject r = e->PopLocalFrame(h ? h->ref : nullptr);
                for (size_t i = refs.size(); i-- > 0;)
                    if (!refs[i].kind && refs[i].frame == frames) refs.erase(refs.begin() + (long)i);
                frames--;
                if (b >= 0) {
                    PBT_CHECK(c, r, "buffer %d does not survive its frame", b);
                    add(b, r, 0);
                    is(r, b, "the end of a frame");
                }
                break;
            }
        }
        PBT_CHECK(c, !e->ExceptionCheck(), "an exception is pending");
        lives();
    }
    for (auto& r : refs)
        if (r.kind == 1) e->DeleteGlobalRef(r.ref);
        else if (r.kind == 2) e->DeleteWeakGlobalRef(r.ref);
    for (; frames >= 0; frames--) e->PopLocalFrame(nullptr);
    for (size_t i = 0; i < bufs.size(); i++) PBT_CHECK(c, bufs[i].obj.expired(), "buffer %zu outlives everything which refers to it", i);
    hc = nullptr;
    plain.reset();
    baron.reset();
    PBT_CHECK(c, !memcmp(mem.get(), model.data(), kLive), "the memory of the buffers was changed");
    c.nontrivial = extreme && __builtin_popcount(ways) >= 3;
}
