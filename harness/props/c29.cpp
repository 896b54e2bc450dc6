// C29: several VMs of one process do not know of each other.
// Each VM's program runs alone first; then the same programs run together, interleaved or at the same time.
#include "scene.hpp"

const char* const kProperty = "C29";
const char* const kRule =
    "up to three VMs, plain or Baron, whose classes bind the same native types under the same or different names, each with a program of operations of the whole function table, hooks replaced, natives registered, classes "
    "invented and denied, exceptions and frames left open, sources generated, descriptors registered; each program runs on a VM alone, then the programs run interleaved operation by operation on one or several threads or "
    "all at once, with other VMs made and destroyed in between, and everything returned, seen by hooks or raised must be the same, as it must be alone with the classes in another package; non-trivial: the programs alternated five times or ran at once, with six kinds of operation; "
    "identity: the draws";

class Thing : public FakeJni::JObject {
public:
    DEFINE_CLASS_NAME("c29/Thing")
    FakeJni::JInt n = 4;
    std::shared_ptr<FakeJni::JString> s;
    FakeJni::JInt add(FakeJni::JInt x) { return n += x; }
    static FakeJni::JInt twice(FakeJni::JInt x) { return 2 * x; }
    std::shared_ptr<Thing> self() { return std::static_pointer_cast<Thing>(shared_from_this()); }
};
BEGIN_NATIVE_DESCRIPTOR(Thing)
{FakeJni::Constructor<Thing>{}},
{FakeJni::Field<&Thing::n>{}, "n"},
{FakeJni::Field<&Thing::s>{}, "s"},
{FakeJni::Function<&Thing::add>{}, "add"},
{FakeJni::Function<&Thing::twice>{}, "twice", FakeJni::JMethodID::STATIC},
{FakeJni::Function<&Thing::self>{}, "self"},
END_NATIVE_DESCRIPTOR

enum { X_PLAIN, X_REHOOK, X_CALLF, X_DENY, X_FIND, X_MEMBER, X_THROW, X_FRAME, X_POP, X_NATIVE, X_CALLNATIVE, X_SOURCES, X_THING, X_THINGCALL, X_GLOBAL, X_GLOBALUSE, X_REBIND, X_DEFAULT, X_COUNT };

struct Step {
    int x;  // X_PLAIN: an operation of the table
    Op op;
    uint32_t a, b;
};
struct Prog {
    bool baron = false, kinds = false;
    int pkg = 0;
    std::vector<Step> steps;
};
using Trace = std::vector<std::vector<std::string>>;
static const char* const kPkg[] = {"p", "other/pack"};

static thread_local std::vector<std::string>* t_native;
static void nat0(JNIEnv*, jobject) { t_native->push_back("native 0"); }
static void nat1(JNIEnv*, jobject) { t_native->push_back("native 1"); }

// A VM and the program it runs
struct Running {
    const Prog& p;
    std::unique_ptr<Scene> w;
    Trace t;
    size_t at = 0;
    int frames = 0;
    std::vector<jobject> globals;
    Running(Case& c, const Prog& p) : p(p), w(new Scene(c, p.kinds, p.baron, kPkg[p.pkg])) {
        w->e->PushLocalFrame(0);
        if (p.baron) w->baron->registerClass<Thing>();
    }
    ~Running() {
        w->e->ExceptionClear();
        for (; frames >= 0; frames--) w->e->PopLocalFrame(nullptr);
        w.reset();
    }
    bool done() const { return at == p.steps.size(); }
    static size_t hash(const std::string& s) { return std::hash<std::string>()(s); }
    void step() {
        const Step& st = p.steps[at++];
        w->trace.clear();
        if (st.x == X_PLAIN) w->run(st.op);
        else {
            try {
                extra(st);
            } catch (const std::exception& x) {
                w->log(std::string("throws ") + x.what());
            }
        }
        t.push_back(w->trace);
    }
    void extra(const Step& st) {
        JNIEnv* e = w->e;
        ENV* je = w->je;
        uint32_t a = st.a, b = st.b;
        std::string n = std::string(1, (char)('a' + a % 3));
        std::string T_ = w->pkg + "/T";
        Scene* me = w.get();
        switch (st.x) {
            case X_REHOOK: {
                auto k = w->cls[0];
                if (b & 1) k->HookInstanceFunction(je, "x" + n, [me, b](ENV*, T* self, jint i) -> jint { me->log("x hooked " + std::to_string(b)); return self->n + i + (jint)b; });
                else k->Hook(je, "x" + n, [me, b](ENV*, jnivm::Class*, jint i) -> jint { me->log("x hooked statically " + std::to_string(b)); return i - (jint)b; });
                break;
            }
            case X_CALLF: {
                jclass k = e->FindClass(T_.data());
                jmethodID m = e->GetMethodID(k, ("x" + n).data(), "(I)I"), s = e->GetStaticMethodID(k, ("x" + n).data(), "(I)I");
                w->log(std::to_string(m ? e->CallIntMethod(w->objs[Scene::T0 + b % 2], m, 5) : -1) + " " + std::to_string(s ? e->CallStaticIntMethod(k, s, 6) : -1));
                break;
            }
            case X_DENY:
                if (!w->baron) break;
                if (b % 3 == 0) w->baron->denyClass(("inv/" + n).data());
                else if (b % 3 == 1) w->baron->denyMethod(("m" + n).data(), "");
                else w->baron->denyField(("f" + n).data(), "I");
                break;
            case X_FIND: {
                jclass k = e->FindClass(("inv/" + n).data());
                w->log(std::string("found ") + (k ? native<jnivm::Class>(e, k)->getName() : "nothing"));
                break;
            }
            case X_MEMBER: {
                jclass k = e->FindClass(b & 8 ? T_.data() : "java/lang/Object");
                jmethodID m = b & 1 ? e->GetMethodID(k, ("m" + n).data(), "(I)V") : e->GetStaticMethodID(k, ("m" + n).data(), "(I)V");
                jfieldID f = b & 1 ? e->GetFieldID(k, ("f" + n).data(), "I") : e->GetStaticFieldID(k, ("f" + n).data(), "I");
                auto c = native<jnivm::Class>(e, k);
                w->log("members " + std::to_string(!!m) + std::to_string(!!f) + " of " + std::to_string(c->methods.size()) + "+" + std::to_string(c->fields.size()));
                break;
            }
            case X_THROW:
                if (b & 1) e->Throw((jthrowable)w->objs[Scene::THR0 + a % 2]);
                else e->ExceptionClear();
                w->log("pending " + w->who(e->ExceptionOccurred()));
                break;
            case X_FRAME:
                e->PushLocalFrame((jint)b);
                frames++;
                e->NewLocalRef(w->objs[a % Scene::NOBJ]);
                break;
            case X_POP:
                if (frames) {
                    frames--;
                    w->log("popped " + w->who(e->PopLocalFrame(w->objs[a % Scene::NOBJ])));
                }
                break;
            case X_NATIVE: {
                std::string nm = "nat" + n;
                JNINativeMethod m{(char*)nm.data(), (char*)"()V", (void*)(b & 1 ? nat1 : nat0)};
                jclass k = e->FindClass(b & 2 ? T_.data() : "java/lang/String");
                w->log("natives " + std::to_string(b & 4 ? e->UnregisterNatives(k) : e->RegisterNatives(k, &m, 1)));
                break;
            }
            case X_CALLNATIVE: {
                if (!w->baron) break;  // looks for the thread's VM
                auto k = native<jnivm::Class>(e, e->FindClass(b & 2 ? T_.data() : "java/lang/String"));
                auto m = k->getMethod("()V", ("nat" + n).data());
                w->log(m ? "has it" : "has it not");
                std::vector<std::string> seen;
                t_native = &seen;
                if (m) m->invoke(*e, native<Object>(e, w->objs[b & 2 ? Scene::T0 : Scene::STR0]).get());
                for (auto& s : seen) w->log(s);
                break;
            }
            case X_SOURCES:
#ifndef VARIANT_D
                w->log("sources " + std::to_string(hash(w->vm->GeneratePreDeclaration())) + " " + std::to_string(hash(w->vm->GenerateHeader())) + " " + std::to_string(hash(w->vm->GenerateStubs())) + " " + std::to_string(hash(w->vm->GenerateJNIBinding())));
#endif
                break;
            case X_THING: {
                if (!w->baron) break;
                e->PushLocalFrame(0);
                auto o = std::make_shared<Thing>();
                jobject l = local(e, o);
                w->log("a " + w->cname(l) + " " + std::to_string(e->IsInstanceOf(l, e->FindClass("c29/Thing"))));
                jclass k = e->GetObjectClass(l);
                jfieldID f = e->GetFieldID(k, "n", "I"), fs = e->GetFieldID(k, "s", "Ljava/lang/String;");
                e->SetIntField(l, f, (jint)b);
                e->SetObjectField(l, fs, w->objs[Scene::STR0]);
                w->log("n " + std::to_string(e->GetIntField(l, f)) + std::to_string(o->n) + " " + w->who(e->GetObjectField(l, fs)));
                e->PopLocalFrame(nullptr);
                break;
            }
            case X_THINGCALL: {
                if (!w->baron) break;
                e->PushLocalFrame(0);
                jclass k = e->FindClass("c29/Thing");
                jobject l = e->NewObject(k, e->GetMethodID(k, "<init>", "()V"));
                w->log("add " + std::to_string(e->CallIntMethod(l, e->GetMethodID(k, "add", "(I)I"), (jint)b)) + " twice " + std::to_string(e->CallStaticIntMethod(k, e->GetStaticMethodID(k, "twice", "(I)I"), (jint)a)));
                jobject r = e->CallObjectMethod(l, e->GetMethodID(k, "self", "()Lc29/Thing;"));
                w->log("self " + std::to_string(e->IsSameObject(l, r)) + " " + std::to_string(native<jnivm::Class>(e, k)->methods.size()));
                e->PopLocalFrame(nullptr);
                break;
            }
            case X_GLOBAL:
                globals.push_back(b & 1 ? e->NewGlobalRef(w->objs[a % Scene::NOBJ]) : (jobject)e->NewWeakGlobalRef(w->objs[a % Scene::NOBJ]));
                break;
            case X_GLOBALUSE:
                if (globals.empty()) break;
                w->log("refers to " + w->who(globals[a % globals.size()]) + " " + w->cname(globals[a % globals.size()]));
                break;
            case X_REBIND: {  // the native type under another name as well
                auto k = je->GetClass<T>(b % 3 ? T_.data() : (w->pkg + "/T2").data());
                w->log("bound as " + w->cname(local(e, std::make_shared<T>())) + " " + std::to_string(k == w->cls[0]));
                je->GetClass<T>(T_.data());
                break;
            }
            case X_DEFAULT: {  // what a method nobody implements returns
                e->PushLocalFrame(0);
                bool arr = b & 1, un = b & 2;
                jclass k = e->FindClass(T_.data());
                jmethodID m = e->GetStaticMethodID(k, "mk", ((arr ? "()[L" : "()L") + w->pkg + (un ? "/Unbound" : b & 4 ? "/U" : "/T") + ";").data());
                jobject o = e->CallStaticObjectMethod(k, m);
                auto p = native<Object>(e, o);
                auto pk = p ? p->getClassInternal(je) : nullptr;
                w->log("default " + w->cname(o) + (pk ? " of this VM " + std::to_string(pk == je->GetClass(pk->getName().data())) : ""));
                e->PopLocalFrame(nullptr);
                break;
            }
        }
    }
};
struct Sched {
    int prog;
    int noise;  // 0: none, else another VM is made and destroyed first
};

static std::string show(const Step& st) {
    if (st.x != X_PLAIN) return "extra " + std::to_string(st.x) + " (" + std::to_string(st.a) + ", " + std::to_string(st.b) + ")";
    return "operation " + std::to_string(st.op.op) + " (" + std::to_string(st.op.a) + ", " + std::to_string(st.op.b) + ", " + std::to_string(st.op.x) + ", " + std::to_string(st.op.y) + ")";
}

static std::string shorten(std::string s) {
    for (size_t p; (p = s.find(kPkg[1])) != std::string::npos;) s.replace(p, strlen(kPkg[1]), kPkg[0]);
    return s;
}

void property_case(Case& c) {
    Src& s = c.s;
    std::vector<Prog> progs(2 + s.below(2));
    uint64_t kinds = 0;
    for (auto& p : progs) {
        p.baron = s.chance(1, 2);
        p.kinds = s.chance(1, 2);
        p.pkg = (int)s.below(2);
        for (size_t n = 1 + s.len(20); n-- > 0;) {
            Step st;
            st.x = s.chance(1, 2) ? 1 + (int)s.below(X_COUNT - 1) : X_PLAIN;
            st.a = st.b = 0;
            if (st.x == X_PLAIN) st.op = Op::gen(s);
            else st.a = s.below(210), st.b = s.below(210);
            kinds |= 1ull << (st.x == X_PLAIN ? 20 + st.op.op : st.x);
            p.steps.push_back(st);
        }
    }
    int mode = (int)s.weighted({6, 3});  // 0 interleaved, 1 all at once
    std::vector<int> thread;             // of each program
    for (size_t i = 0; i < progs.size(); i++) thread.push_back(progs[i].baron || mode ? (int)i : (int)s.below(3));
    std::vector<Sched> sched;
    int alternations = 0;
    if (mode == 0) {
        std::vector<size_t> left;
        for (auto& p : progs) left.push_back(p.steps.size() + 1);
        for (int last = -1;;) {
            std::vector<int> some;
            for (size_t i = 0; i < left.size(); i++)
                if (left[i]) some.push_back((int)i);
            if (some.empty()) break;
            Sched d{s.pick(some), s.chance(1, 8) ? 1 + (int)s.below(4) : 0};
            left[(size_t)d.prog]--;
            alternations += d.prog != last;
            last = d.prog;
            sched.push_back(d);
        }
    }
    if (c.trace) {
        for (size_t i = 0; i < progs.size(); i++) {
            PBT_NOTE(c, "VM %zu: %s, package %s, on thread %d", i, progs[i].baron ? "Baron" : "plain", kPkg[progs[i].pkg], thread[i]);
            for (auto& st : progs[i].steps) PBT_NOTE(c, "  %s", show(st).c_str());
        }
        std::string o;
        for (auto& d : sched) o += (d.noise ? " (another VM)" : "") + std::string(" ") + std::to_string(d.prog);
        PBT_NOTE(c, "%s%s", mode ? "all at once" : "in this order:", o.c_str());
    }
    std::vector<std::unique_ptr<Worker>> w;
    for (int i = 0; i < 3; i++) w.emplace_back(new Worker);
    std::vector<Trace> alone(progs.size()), together(progs.size());
    for (size_t i = 0; i < progs.size(); i++)
        w[(size_t)thread[i]]->run([&] {
            Running r(c, progs[i]);
            while (!r.done()) r.step();
            alone[i] = r.t;
        });
    // nothing depends on which package the classes are in, whatever else happened in the process before
    for (size_t i = 0; i < progs.size(); i++) {
        Prog q = progs[i];
        q.pkg ^= 1;
        w[(size_t)thread[i]]->run([&] {
            Running r(c, q);
            while (!r.done()) r.step();
            for (size_t k = 0; k < q.steps.size(); k++) {
                if (q.steps[k].x == X_SOURCES) continue;
                auto &a = alone[i][k], &b = r.t[k];
                for (size_t z = 0; z < std::max(a.size(), b.size()); z++) {
                    std::string l = z < a.size() ? a[z] : "nothing", m = z < b.size() ? b[z] : "nothing";
                    PBT_CHECK(c, shorten(l) == shorten(m), "VM %zu, %s, package %s: %s; package %s: %s", i, show(q.steps[k]).c_str(), kPkg[progs[i].pkg], l.c_str(), kPkg[q.pkg], m.c_str());
                }
            }
        });
    }
    PBT_CHECK(c, T::live() == 0, "%d objects are left after destroying a VM", (int)T::live());
    if (mode == 0) {
        std::vector<std::unique_ptr<Running>> run(progs.size());
        for (auto& d : sched) {
            size_t i = (size_t)d.prog;
            w[(size_t)thread[i]]->run([&] {
                if (d.noise) {
                    Scene other(c, false, false, kPkg[d.noise & 1]);
                    if (d.noise & 2) other.e->ThrowNew(other.e->FindClass("x/Y"), "another VM's"), other.e->PushLocalFrame(1);
                }
                if (!run[i]) {
                    run[i].reset(new Running(c, progs[i]));
                } else run[i]->step();
                if (run[i]->done()) {
                    together[i] = run[i]->t;
                    run[i].reset();
                }
            });
        }
        c.label("interleaved");
    } else {
        for (size_t i = 0; i < progs.size(); i++)
            w[i]->start([&, i] {
                Running r(c, progs[i]);
                while (!r.done()) r.step();
                together[i] = r.t;
            });
        for (size_t i = 0; i < progs.size(); i++) w[i]->finish();
        c.label("at once");
    }
    PBT_CHECK(c, T::live() == 0, "%d objects are left after destroying the VMs", (int)T::live());
    for (size_t i = 0; i < progs.size(); i++)
        for (size_t k = 0; k < progs[i].steps.size(); k++) {
            auto &a = alone[i][k], &b = together[i][k];
            for (size_t z = 0; z < std::max(a.size(), b.size()); z++) {
                std::string l = z < a.size() ? a[z] : "nothing", r = z < b.size() ? b[z] : "nothing";
                PBT_CHECK(c, l == r, "VM %zu, %s, alone: %s; with other VMs: %s", i, show(progs[i].steps[k]).c_str(), l.c_str(), r.c_str());
            }
        }
    if (c.trace)
        for (size_t i = 0; i < progs.size(); i++)
            for (size_t k = 0; k < alone[i].size(); k++)
                for (auto& x : alone[i][k]) PBT_NOTE(c, "VM %zu, %s: %s", i, show(progs[i].steps[k]).c_str(), x.c_str());
    c.nontrivial = (mode || alternations >= 5) && __builtin_popcountll(kinds) >= 6;
}
