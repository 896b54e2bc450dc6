// C01: strings made from UTF-16 read back unchanged, whichever way they are read.
#include "jvmutil.hpp"
#include <jnivm/string.h>
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C01";
const char* const kRule =
    "a UTF-16 sequence (all unit classes: NUL, ASCII, 2-byte, 3-byte, surrogates paired and lone) put into a string by one of five entry points and read back "
    "by all reading entry points and random in-range regions, against an independent modified-UTF-8 encoder; non-trivial: at least one unit outside 1..0x7F "
    "and at least 2 units; identity: the units, the entry point and the regions";

static std::string encode(const std::u16string& u) {
    std::string r;
    for (char16_t c : u) {
        unsigned v = c;
        if (v >= 1 && v <= 0x7f) r.push_back((char)v);
        else if (v <= 0x7ff) {
            r.push_back((char)(0xC0 + v / 64));
            r.push_back((char)(0x80 + v % 64));
        } else {
            r.push_back((char)(0xE0 + v / 4096));
            r.push_back((char)(0x80 + v / 64 % 64));
            r.push_back((char)(0x80 + v % 64));
        }
    }
    return r;
}

static char16_t gen_unit(Src& s) {
    static const char16_t edge[] = {0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 1, 0, 0xfeff, 0xfffe, 0x7fe, 0x801, 0xfff, 0x1000, 0xbf, 0xc0};
    switch (s.weighted({5, 5, 4, 4, 1})) {
        case 0: return (char16_t)(0x20 + s.below(0x5f));
        case 1: return s.pick(edge);
        case 2: return (char16_t)(0x80 + s.below(0x780));
        case 3: return (char16_t)(0x800 + s.below(0xf800));
        default: return (char16_t)s.below(0x10000);
    }
}

void property_case(Case& c) {
    Src& s = c.s;
    static VM* vm = nullptr;
    static int uses = 0;
    if (!vm || ++uses > 64) {
        delete vm;
        vm = new VM();
        uses = 0;
    }
    JNIEnv* env = vm->GetJNIEnv();
    env->PushLocalFrame(0);
    struct Pop {
        JNIEnv* e;
        ~Pop() { e->PopLocalFrame(nullptr); }
    } pop{env};
    bool huge = s.chance(1, 1500);
    size_t n = s.chance(1, 200) ? 1000 + s.below(9000) : s.len(80);
    std::u16string u;
    for (size_t i = 0; i < n; i++) {
        if (s.chance(1, 12) && i + 1 < n) {
            u.push_back((char16_t)(0xd800 + s.below(0x400)));
            u.push_back((char16_t)(0xdc00 + s.below(0x400)));
            i++;
        } else u.push_back(gen_unit(s));
    }
    if (huge && !u.empty()) {
        // what was drawn, repeated, and units of all kinds in some places
        std::u16string t;
        for (size_t want = 30000 + s.below(200000); t.size() < want;) t += u;
        for (int i = 0; i < 20; i++) {
            size_t at = i < 4 ? t.size() - 1 - i : s.below((uint32_t)t.size());
            t[at] = gen_unit(s);
        }
        u = std::move(t);
        c.label("huge");
    }
    std::string ref = encode(u);
    bool special = false;
    for (auto x : u) special |= x == 0 || x > 0x7f;
    c.nontrivial = special && u.size() >= 2;
    for (auto x : u) c.key(x);
    int how = s.below(5);
    c.key(how);
    jstring str = nullptr;
    std::shared_ptr<jnivm::String> holder;
    switch (how) {
        case 0:
        case 1: {
            // exact-size copy, so that reading past it is seen
            std::unique_ptr<jchar[]> in(new jchar[u.size()]);
            for (size_t i = 0; i < u.size(); i++) in[i] = u[i];
            str = env->NewString(in.get(), (jsize)u.size());
            break;
        }
        case 2: {
            std::unique_ptr<char[]> in(new char[ref.size() + 1]);
            memcpy(in.get(), ref.c_str(), ref.size() + 1);
            str = env->NewStringUTF(in.get());
            break;
        }
        case 3: holder = std::make_shared<jnivm::String>(ref); str = jnivm::JNITypes<std::shared_ptr<jnivm::String>>::ToJNIType(ENV::FromJNIEnv(env), holder); break;
        default: {
            jstring t = env->NewStringUTF(ref.c_str());
            switch (s.below(3)) {
                case 0: str = (jstring)env->NewGlobalRef(t); break;
                case 1: str = (jstring)env->NewWeakGlobalRef(t); break;
                default: str = (jstring)env->NewLocalRef(t);
            }
        }
    }
    PBT_NOTE(c, "entry point %d, %zu units, modified UTF-8 %s", how, u.size(), pbt::printable(ref).c_str());
    PBT_CHECK(c, str, "no string was made of %zu units", u.size());
    c.label(u.empty() ? "empty" : u.size() > 500 ? "long" : "short");
    // lengths
    jsize len = env->GetStringLength(str), ulen = env->GetStringUTFLength(str);
    PBT_CHECK(c, len == (jsize)u.size(), "GetStringLength says %d for %zu units", len, u.size());
    PBT_CHECK(c, ulen == (jsize)ref.size(), "GetStringUTFLength says %d for %zu bytes", ulen, ref.size());
    // whole contents
    jboolean copy = 77;
    const char* utf = env->GetStringUTFChars(str, &copy);
    PBT_CHECK(c, utf && !memcmp(utf, ref.c_str(), ref.size() + 1), "GetStringUTFChars returned %s instead of %s", utf ? pbt::printable(utf).c_str() : "null", pbt::printable(ref).c_str());
    PBT_CHECK(c, copy == JNI_TRUE || copy == JNI_FALSE, "isCopy not written by GetStringUTFChars");
    env->ReleaseStringUTFChars(str, utf);
    for (int crit = 0; crit < 2; crit++) {
        copy = 77;
        bool ask = s.chance(3, 4);
        const jchar* ch = crit ? env->GetStringCritical(str, ask ? &copy : nullptr) : env->GetStringChars(str, ask ? &copy : nullptr);
        PBT_CHECK(c, ch || u.empty(), "no characters");
        for (size_t i = 0; i < u.size(); i++)
            PBT_CHECK(c, ch[i] == u[i], "unit %zu reads as 0x%x instead of 0x%x (GetString%s)", i, ch[i], u[i], crit ? "Critical" : "Chars");
        PBT_CHECK(c, !ask || copy == JNI_TRUE || copy == JNI_FALSE, "isCopy not written");
        if (crit) env->ReleaseStringCritical(str, ch);
        else env->ReleaseStringChars(str, ch);
    }
    // regions
    int regions = 1 + s.below(3);
    for (int k = 0; k < regions; k++) {
        size_t a = s.below((uint32_t)u.size() + 1), b = a + s.below((uint32_t)(u.size() - a) + 1);
        if (s.chance(1, 4)) b = u.size();
        c.key(a * 131071 + b);
        PBT_NOTE(c, "region [%zu,%zu)", a, b);
        std::unique_ptr<jchar[]> buf(new jchar[b - a]);
        env->GetStringRegion(str, (jsize)a, (jsize)(b - a), buf.get());
        for (size_t i = a; i < b; i++) PBT_CHECK(c, buf[i - a] == u[i], "GetStringRegion(%zu, %zu) unit %zu is 0x%x instead of 0x%x", a, b - a, i, buf[i - a], u[i]);
        std::string want = encode(u.substr(a, b - a));
        std::unique_ptr<char[]> ub(new char[want.size() + 1]);
        memset(ub.get(), 0x55, want.size() + 1);
        env->GetStringUTFRegion(str, (jsize)a, (jsize)(b - a), ub.get());
        PBT_CHECK(c, !memcmp(ub.get(), want.data(), want.size()), "GetStringUTFRegion(%zu, %zu) is %s instead of %s", a, b - a,
                  pbt::printable(std::string(ub.get(), want.size())).c_str(), pbt::printable(want).c_str());
        PBT_CHECK(c, ub[want.size()] == 0, "GetStringUTFRegion result is not terminated");
        if (a > 0 && b < u.size()) c.label("inner region");
    }
    // the native side sees the same bytes, and a string made from what was read is equal
    auto back = jnivm::JNITypes<std::shared_ptr<jnivm::String>>::JNICast(ENV::FromJNIEnv(env), (jobject)str);
    PBT_CHECK(c, back && back->asStdString() == ref, "asStdString differs");
    if (how >= 3 && (how != 3 || holder)) c.label("via native object or reference");
    PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
    if (how == 4) {
        jobjectRefType t = env->GetObjectRefType(str);
        if (t == JNIGlobalRefType) env->DeleteGlobalRef(str);
        else if (t == JNIWeakGlobalRefType) env->DeleteWeakGlobalRef((jweak)str);
    }
}
