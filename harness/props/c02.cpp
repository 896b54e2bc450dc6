// C02: strings made from arbitrary bytes.
#include "jvmutil.hpp"
#include <jnivm/string.h>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C02";
const char* const kRule =
    "a NUL-terminated byte sequence assembled from well-formed, overlong, truncated, four-byte, stray-continuation and random pieces, read by every accessor and by "
    "regions up to and across the first malformed group, against an independent structural decoder and with exactly sized buffers; non-trivial: it has a malformed "
    "group or a multi-byte group; identity: the bytes and the regions";

struct Groups {
    std::vector<unsigned> units;        // of the well-formed prefix
    std::vector<size_t> start;          // byte offset of each group, and of what follows them
    bool ok = true;                     // nothing malformed follows
};
static Groups decode(const std::string& b) {
    Groups g;
    size_t i = 0;
    auto cont = [&](size_t k) { return k < b.size() && ((unsigned char)b[k] >> 6) == 2; };
    while (i < b.size()) {
        unsigned char c = (unsigned char)b[i];
        g.start.push_back(i);
        if (c < 0x80) {
            g.units.push_back(c);
            i++;
        } else if (c >= 0xC0 && c < 0xE0 && cont(i + 1)) {
            g.units.push_back((c % 32u) * 64 + (unsigned char)b[i + 1] % 64u);
            i += 2;
        } else if (c >= 0xE0 && c < 0xF0 && cont(i + 1) && cont(i + 2)) {
            g.units.push_back((c % 16u) * 4096 + (unsigned char)b[i + 1] % 64u * 64 + (unsigned char)b[i + 2] % 64u);
            i += 3;
        } else {
            g.ok = false;
            g.start.pop_back();
            break;
        }
    }
    g.start.push_back(i);
    return g;
}

template <class F> static bool throws(F f) {
    try {
        f();
    } catch (pbt::Fail&) {
        throw;
    } catch (std::exception&) {
        return true;
    }
    return false;
}

void property_case(Case& c) {
    Src& s = c.s;
    static VM* vm = nullptr;
    static int uses = 0;
    if (!vm || ++uses > 64) {
        delete vm;
        vm = new VM();
        uses = 0;
        pbt::install_alloc_hooks();
    }
    JNIEnv* env = vm->GetJNIEnv();
    env->PushLocalFrame(0);
    struct Pop {
        JNIEnv* e;
        ~Pop() { e->PopLocalFrame(nullptr); }
    } pop{env};
    std::string b;
    size_t n = s.len(30);
    bool clean = s.chance(1, 4);
    auto cont = [&] { return (char)(0x80 + s.below(64)); };
    for (size_t i = 0; i < n; i++) {
        switch (s.weighted({6, 4, 4, clean ? 0u : 1u, clean ? 0u : 1u, clean ? 0u : 1u, clean ? 0u : 1u, clean ? 0u : 1u})) {
            case 0: b += (char)(1 + s.below(127)); break;
            case 1: b += (char)(0xC0 + s.below(32)); b += cont(); break;
            case 2: b += (char)(0xE0 + s.below(16)); b += cont(); b += cont(); break;
            case 3: b += cont(); break;                                                       // stray continuation
            case 4: b += (char)(0xF0 + s.below(16)); for (int k = s.below(4); k-- > 0;) b += cont(); break;
            case 5: b += (char)(0xC0 + s.below(32)); break;                                    // truncated, whatever follows
            case 6: b += (char)(0xE0 + s.below(16)); if (s.chance(1, 2)) b += cont(); break;
            default: b += (char)(1 + s.below(255));
        }
    }
    // the end of the text is the interesting place
    if (!clean && s.chance(1, 4)) switch (s.below(4)) {
            case 0: b += (char)(0xC0 + s.below(32)); break;
            case 1: b += (char)(0xE0 + s.below(16)); break;
            case 2: b += (char)(0xE0 + s.below(16)); b += cont(); break;
            default: b += (char)(0xF0 + s.below(16)); b += cont(); b += cont();
        }
    Groups g = decode(b);
    size_t good = g.units.size();
    c.nontrivial = !g.ok || good < b.size();
    for (char x : b) c.key((unsigned char)x);
    c.label(g.ok ? "decodable" : "malformed");
    PBT_NOTE(c, "bytes %s: %zu well-formed groups%s", pbt::printable(b).c_str(), good, g.ok ? "" : ", then a malformed one");

    std::unique_ptr<char[]> in(new char[b.size() + 1]);
    memcpy(in.get(), b.c_str(), b.size() + 1);
    jstring str = env->NewStringUTF(in.get());
    in.reset();
    PBT_CHECK(c, str, "no string");
    bool asweak = s.chance(1, 4);
    jobject ref = asweak ? env->NewWeakGlobalRef(str) : nullptr;
    jstring rd = asweak ? (jstring)ref : str;
    PBT_CHECK(c, env->GetStringUTFLength(rd) == (jsize)b.size(), "byte length %d of %zu bytes", env->GetStringUTFLength(rd), b.size());
    const char* u = env->GetStringUTFChars(rd, nullptr);
    PBT_CHECK(c, u && !memcmp(u, b.c_str(), b.size() + 1), "the bytes read back as %s", u ? pbt::printable(u).c_str() : "null");
    env->ReleaseStringUTFChars(rd, u);

    int64_t live = pbt::live_allocs();
    // whole string
    jsize len = -1;
    bool t = throws([&] { len = env->GetStringLength(rd); });
    PBT_CHECK(c, t == !g.ok, "GetStringLength %s on a string which is %s", t ? "threw" : "returned", g.ok ? "decodable" : "malformed");
    if (g.ok) PBT_CHECK(c, len == (jsize)good, "GetStringLength is %d instead of %zu", len, good);
    for (int crit = 0; crit < 2; crit++) {
        const jchar* ch = nullptr;
        t = throws([&] { ch = crit ? env->GetStringCritical(rd, nullptr) : env->GetStringChars(rd, nullptr); });
        PBT_CHECK(c, t == !g.ok, "GetString%s %s on a string which is %s", crit ? "Critical" : "Chars", t ? "threw" : "returned", g.ok ? "decodable" : "malformed");
        if (!t) {
            for (size_t i = 0; i < good; i++) PBT_CHECK(c, ch[i] == g.units[i], "unit %zu is 0x%x instead of 0x%x", i, ch[i], g.units[i]);
            if (crit) env->ReleaseStringCritical(rd, ch);
            else env->ReleaseStringChars(rd, ch);
        }
    }
    // regions which end inside the well-formed part are decoded, those which reach a malformed group throw
    int regions = 1 + s.below(4);
    for (int k = 0; k < regions; k++) {
        size_t total = good + (g.ok ? 0 : 1 + s.below(6));
        size_t a = s.below((uint32_t)total + 1), e = a + s.below((uint32_t)(total - a) + 1);
        bool bad = e > good || a > good;
        c.key(a * 8191 + e);
        PBT_NOTE(c, "region [%zu,%zu) %s", a, e, bad ? "reaches the malformed group" : "well-formed");
        if (bad) c.label("region across a malformed group");
        std::unique_ptr<jchar[]> buf(new jchar[e - a]);
        t = throws([&] { env->GetStringRegion(rd, (jsize)a, (jsize)(e - a), buf.get()); });
        if (!(bad && e == a)) PBT_CHECK(c, t == bad, "GetStringRegion(%zu,%zu) %s", a, e - a, t ? "threw" : "returned");
        for (size_t i = a; i < e && i < good; i++) PBT_CHECK(c, buf[i - a] == g.units[i] || bad, "region unit %zu is 0x%x instead of 0x%x", i, buf[i - a], g.units[i]);
        size_t bytes = 0;
        if (!bad) bytes = g.start[e] - g.start[a];
        else bytes = 3 * (e - a);
        std::unique_ptr<char[]> ub(new char[bytes + 1]);
        memset(ub.get(), 0x55, bytes + 1);
        t = throws([&] { env->GetStringUTFRegion(rd, (jsize)a, (jsize)(e - a), ub.get()); });
        if (!(bad && e == a)) PBT_CHECK(c, t == bad, "GetStringUTFRegion(%zu,%zu) %s", a, e - a, t ? "threw" : "returned");
        if (!bad) PBT_CHECK(c, !memcmp(ub.get(), b.data() + g.start[a], bytes) && ub[bytes] == 0, "GetStringUTFRegion(%zu,%zu) returned other bytes", a, e - a);
    }
    PBT_CHECK(c, env->GetStringUTFLength(rd) == (jsize)b.size() && !memcmp(env->GetStringUTFChars(rd, nullptr), b.c_str(), b.size() + 1), "reading changed the string");
    if (pbt::alloc_accounting())
        PBT_CHECK(c, pbt::live_allocs() == live, "%ld heap blocks were left behind by reading the string", (long)(pbt::live_allocs() - live));
    PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
    if (asweak) env->DeleteWeakGlobalRef((jweak)ref);
}
