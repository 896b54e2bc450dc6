// C22: reflected methods and fields.
#include "graph.hpp"
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
#include <jnivm/throwable.h>
using jnivm::Object;
using pbt::Case;
using pbt::Src;

const char* const kProperty = "C22";
const char* const kRule =
    "histories over random class graphs: members are invented, hooked, inherited, registered as natives or found again (methods, constructors, fields, static and not, with equal and prefix names), reflected through "
    "references of all kinds to their class or a derived one, kept in all kinds of references, arrays, outer frames and other threads, and converted back at any later time; asked with the wrong staticness, with "
    "null identifiers and classes, and with objects of every other class; non-trivial: methods, constructors and fields, both through references, and an inherited member; identity: the draws";

struct Member {
    int cls;    // of the graph
    bool field, st, ctor, native;
    std::string name, sig;
    void* id;
};
struct Kept {
    int m;
    jobject ref;
    bool global, weak;
};

void property_case(Case& c) {
    Src& s = c.s;
    std::unique_ptr<VM> plain;
    std::unique_ptr<FakeJni::Jvm> fake;
    VM* vm;
    int mode = (int)s.weighted({6, 2, 2, 2});
    bool invents = mode == 0 || mode == 3;
    switch (mode) {
        case 0: case 1:
            plain.reset(new VM(false, mode == 1));
            vm = plain.get();
            break;
        case 2:
            fake.reset(new FakeJni::Jvm);
            vm = VM::FromJavaVM(fake.get());
            break;
        default:
            fake.reset(new Baron::Jvm);
            vm = VM::FromJavaVM(fake.get());
    }
    JNIEnv* env = vm->GetJNIEnv();
    env->PushLocalFrame(0);
    ENV* je = jenv(env);
    Graph g(s, je, 1 + s.below(6));
    size_t n = g.cls.size();
    std::vector<Member> ms;
    std::vector<Kept> kept;
    std::unique_ptr<Worker> other;
    bool sm = false, sc = false, sf = false, sref = false, sinh = false;
    static const char* names[] = {"a", "ab", "b", "abc", "<clinit>", "<in"};
    static const char* sigs[] = {"()V", "(I)I", "(Ljava/lang/String;)V", "(II)J"};
    static const char* types[] = {"I", "Ljava/lang/String;", "[I", "J"};
    auto jclassOf = [&](Refs& r, int k) { return (jclass)r.any(s, env->FindClass(g.name[k].data())); };
    auto remember = [&](Member m) -> int {
        for (size_t i = 0; i < ms.size(); i++)
            if (ms[i].id == m.id) return (int)i;
        ms.push_back(m);
        return (int)ms.size() - 1;
    };
    auto hook = [&](int k, int i, bool st, bool field) {
        const char* nm = names[i];
        auto& cl = g.cls[k];
        if (field) {
            if (st) cl->HookGetterFunction(je, nm, [](ENV*, jnivm::Class*) -> jint { return 1; });
            else cl->HookInstanceGetterFunction(je, nm, [](ENV*, Object*) -> jint { return 1; });
        } else if (st) cl->Hook(je, nm, [](ENV*, jnivm::Class*, jint x) -> jint { return x; });
        else cl->HookInstanceFunction(je, nm, [](ENV*, Object*, jint x) -> jint { return x; });
    };
    // an object which is no reflected member
    auto otherobj = [&](Refs& r) -> jobject {
        switch (s.below(8)) {
            case 0: return env->NewStringUTF("java/lang/reflect/Method");
            case 1: return env->NewIntArray(1);
            case 2: return env->FindClass("java/lang/reflect/Method");
            case 3: return env->FindClass("java/lang/reflect/Field");
            case 4: return local(env, std::make_shared<Object>());
            case 5: return local(env, std::make_shared<jnivm::Throwable>());
            case 6: return env->NewDirectByteBuffer(&r, 4);
            default: return env->NewObjectArray(2, env->FindClass("java/lang/reflect/Method"), nullptr);
        }
    };
    auto check = [&](JNIEnv* e, Refs& r, int mi, jobject o) {
        Member& m = ms[mi];
        const char* what = m.field ? "field" : m.ctor ? "constructor" : "method";
        const char* want = m.field ? "java/lang/reflect/Field" : "java/lang/reflect/Method";
        PBT_CHECK(c, o, "the %s %s %s is not reflected", what, m.name.data(), m.sig.data());
        int kind = (int)s.below(6);
        jobject q = r.make(o, kind);
        sref |= kind > 1;
        void* back = m.field ? (void*)e->FromReflectedField(q) : (void*)e->FromReflectedMethod(q);
        PBT_CHECK(c, back == m.id, "the %s %s %s%s converts back to %s (%s)", what, m.name.data(), m.sig.data(), m.st ? " (static)" : "", back ? "another identifier" : "null", Refs::kind_name(kind));
        back = m.field ? (void*)e->FromReflectedMethod(q) : (void*)e->FromReflectedField(q);
        PBT_CHECK(c, !back, "the %s %s converts back to a member of the other kind", what, m.name.data());
        jclass k = e->FindClass(want);
        PBT_CHECK(c, e->IsInstanceOf(q, k) && e->IsSameObject(e->GetObjectClass(q), k), "the reflected %s is not an instance of %s", what, want);
        auto nk = native<jnivm::Class>(e, e->GetObjectClass(q));
        PBT_CHECK(c, nk->getName() == want, "the reflected %s is an object of class %s", what, nk->getName().data());
        jclass wrong = e->FindClass(m.field ? "java/lang/reflect/Method" : "java/lang/reflect/Field");
        PBT_CHECK(c, !e->IsInstanceOf(q, wrong), "the reflected %s is an instance of the other reflection class", what);
        if (m.field) sf = true;
        else if (m.ctor) sc = true;
        else sm = true;
    };
    auto reflect = [&](JNIEnv* e, jclass k, Member& m, jboolean st) -> jobject {
        return m.field ? e->ToReflectedField(k, (jfieldID)m.id, st) : e->ToReflectedMethod(k, (jmethodID)m.id, st);
    };
    size_t steps = 4 + s.len(28);
    for (size_t step = 0; step < steps; step++) {
        Refs r(env);
        env->PushLocalFrame(0);
        switch (s.weighted({6, 3, 8, 3, 4, 2, 2, 3})) {
            case 0: {  // look up (or invent)
                int k = (int)s.below((uint32_t)n);
                jclass jc = jclassOf(r, k);
                Member m{k, s.chance(1, 3), s.chance(1, 2), false, false, names[s.below(6)], "", nullptr};
                m.sig = m.field ? types[s.below(4)] : sigs[s.below(4)];
                if (!m.field && s.chance(1, 4)) {
                    m.ctor = true;
                    m.name = "<init>";
                    m.sig = m.sig.substr(0, m.sig.find(')') + 1) + "V";
                    m.st = false;
                }
                m.id = m.field ? (m.st ? (void*)env->GetStaticFieldID(jc, m.name.data(), m.sig.data()) : (void*)env->GetFieldID(jc, m.name.data(), m.sig.data()))
                               : (m.st ? (void*)env->GetStaticMethodID(jc, m.name.data(), m.sig.data()) : (void*)env->GetMethodID(jc, m.name.data(), m.sig.data()));
                PBT_CHECK(c, m.id || !invents, "a member was not invented");
                PBT_NOTE(c, "look up %s%s %s %s in %s: %s", m.st ? "static " : "", m.field ? "field" : "method", m.name.data(), m.sig.data(), g.name[k].data(), m.id ? "found" : "null");
                if (!m.id) break;
                size_t before = ms.size();
                int i = remember(m);
                if ((size_t)i < before && ms[i].cls != k) sinh = true;
                break;
            }
            case 1: {
                int k = (int)s.below((uint32_t)n), i = (int)s.below(6);
                bool st = s.chance(1, 2), f = s.chance(1, 3);
                PBT_NOTE(c, "hook %s%s %s in %s", st ? "static " : "", f ? "field" : "method", names[i], g.name[k].data());
                hook(k, i, st, f);
                jclass jc = (jclass)env->FindClass(g.name[k].data());
                Member m{k, f, st, false, false, names[i], f ? "I" : "(I)I", nullptr};
                m.id = f ? (st ? (void*)env->GetStaticFieldID(jc, names[i], "I") : (void*)env->GetFieldID(jc, names[i], "I")) : (st ? (void*)env->GetStaticMethodID(jc, names[i], "(I)I") : (void*)env->GetMethodID(jc, names[i], "(I)I"));
                PBT_CHECK(c, m.id, "a hooked member was not found");
                remember(m);
                break;
            }
            case 2: {  // reflect
                if (ms.empty()) break;
                int mi = (int)s.below((uint32_t)ms.size());
                Member& m = ms[mi];
                int k = (int)s.below((uint32_t)n);
                if (!g.reach[k][m.cls]) k = m.cls;
                PBT_NOTE(c, "reflect %s%s %s of %s through %s", m.st ? "static " : "", m.name.data(), m.sig.data(), g.name[m.cls].data(), g.name[k].data());
                jobject o = reflect(env, jclassOf(r, k), m, m.st);
                check(env, r, mi, o);
                if (kept.size() < 12 && s.chance(2, 3)) {
                    switch (s.below(3)) {
                        case 0: kept.push_back({mi, env->NewGlobalRef(o), true, false}); break;
                        case 1: kept.push_back({mi, env->NewWeakGlobalRef(o), false, true}); break;
                        default: {
                            env->PopLocalFrame(nullptr);
                            jobject again = reflect(env, env->FindClass(g.name[k].data()), ms[mi], ms[mi].st);
                            kept.push_back({mi, again, false, false});
                            env->PushLocalFrame(0);
                        }
                    }
                }
                break;
            }
            case 3: {  // wrong staticness, null
                if (ms.empty()) break;
                Member& m = ms[s.below((uint32_t)ms.size())];
                jclass jc = jclassOf(r, m.cls);
                PBT_NOTE(c, "reflect %s%s %s of %s wrongly", m.st ? "static " : "", m.name.data(), m.sig.data(), g.name[m.cls].data());
                if (!m.ctor) PBT_CHECK(c, !reflect(env, jc, m, !m.st), "a member is reflected with the wrong staticness");
                PBT_CHECK(c, !reflect(env, nullptr, m, m.st), "a member is reflected without a class");
                Member none = m;
                none.id = nullptr;
                PBT_CHECK(c, !reflect(env, jc, none, m.st) && !reflect(env, jc, none, !m.st), "a null identifier is reflected");
                break;
            }
            case 4: {  // convert back what was kept
                if (kept.empty()) break;
                Kept& k = kept[s.below((uint32_t)kept.size())];
                PBT_NOTE(c, "convert back %s %s kept in a %s reference", ms[k.m].name.data(), ms[k.m].sig.data(), k.global ? "global" : k.weak ? "weak" : "local");
                if ((k.global || k.weak) && s.chance(1, 6)) {
                    if (!other) other.reset(new Worker);
                    other->run([&] {
                        JNIEnv* e;
                        JavaVM* jvm = vm->GetJavaVM();
                        jvm->AttachCurrentThread(&e, nullptr);
                        {
                            Refs r2(e);
                            try {
                                check(e, r2, k.m, k.ref);
                            } catch (...) {
                                jvm->DetachCurrentThread();
                                throw;
                            }
                        }
                        jvm->DetachCurrentThread();
                    });
                } else
                    check(env, r, k.m, k.ref);
                for (auto& k2 : kept) PBT_CHECK(c, (bool)env->IsSameObject(k.ref, k2.ref) == (k.m == k2.m), "two reflected members are %s", k.m == k2.m ? "different objects" : "the same object");
                break;
            }
            case 5: {  // null and other objects
                jobject o = s.chance(1, 8) ? nullptr : otherobj(r);
                jobject q = r.any(s, o);
                PBT_NOTE(c, "convert back %s", o ? native<jnivm::Class>(env, env->GetObjectClass(o))->getName().data() : "null");
                PBT_CHECK(c, !env->FromReflectedMethod(q) && !env->FromReflectedField(q), "an object which is no member converts to one");
                if (s.chance(1, 3)) {
                    jweak w;
                    {
                        env->PushLocalFrame(0);
                        w = env->NewWeakGlobalRef(local(env, std::make_shared<Object>()));
                        env->PopLocalFrame(nullptr);
                    }
                    bool null = !env->FromReflectedMethod(w) && !env->FromReflectedField(w);
                    env->DeleteWeakGlobalRef(w);
                    PBT_CHECK(c, null, "a dead weak reference converts to a member");
                }
                break;
            }
            case 6: {  // through an array
                if (ms.empty()) break;
                int mi = (int)s.below((uint32_t)ms.size());
                Member& m = ms[mi];
                jobject o = reflect(env, env->FindClass(g.name[m.cls].data()), m, m.st);
                PBT_CHECK(c, o, "a member is not reflected");
                jobjectArray a = env->NewObjectArray(2, env->FindClass(s.chance(1, 2) ? "java/lang/Object" : m.field ? "java/lang/reflect/Field" : "java/lang/reflect/Method"), nullptr);
                PBT_NOTE(c, "store %s %s in an array", m.name.data(), m.sig.data());
                env->SetObjectArrayElement(a, 1, r.any(s, o));
                check(env, r, mi, env->GetObjectArrayElement(a, 1));
                break;
            }
            default: {  // a native method
                if (mode == 1) break;  // getMethod needs fake-jni's environment
                if (!fake) break;
                int k = (int)s.below((uint32_t)n);
                std::string nm = std::string("nat") + names[s.below(6)];
                JNINativeMethod nmd{(char*)nm.data(), (char*)"(I)I", (void*)+[](JNIEnv*, jobject, jint x) -> jint { return x; }};
                if (env->RegisterNatives((jclass)env->FindClass(g.name[k].data()), &nmd, 1) != 0) break;
                auto p = g.cls[k]->getMethod("(I)I", nm.data());
                PBT_CHECK(c, (bool)p, "a native method was not found");
                auto m = (jnivm::Method*)p;
                PBT_NOTE(c, "register native %s in %s", nm.data(), g.name[k].data());
                remember(Member{k, false, m->_static, false, true, nm, "(I)I", m});
            }
        }
        PBT_CHECK(c, !env->ExceptionCheck(), "an exception is pending");
        env->PopLocalFrame(nullptr);
    }
    for (auto& k : kept) {
        if (k.global) env->DeleteGlobalRef(k.ref);
        if (k.weak) env->DeleteWeakGlobalRef(k.ref);
    }
    // deleting the references leaves the members
    for (auto& m : ms) PBT_CHECK(c, reflect(env, env->FindClass(g.name[m.cls].data()), m, m.st), "a member can no longer be reflected");
    other.reset();
    env->PopLocalFrame(nullptr);
    c.label(mode == 0 ? "inventing" : mode == 1 ? "refusing" : mode == 2 ? "fake-jni" : "baron");
    c.nontrivial = sm && sf && sref && (sinh || !invents) && (sc || !invents);
}
