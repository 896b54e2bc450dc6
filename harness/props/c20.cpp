// C20: the generated sources, against a model of what was used and against the compiler.
#include "jvmutil.hpp"
#include <fake-jni/fake-jni.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Case;
using pbt::Src;
using std::string;

#if defined(VARIANT_B)
#define FAKE 1
#else
#define FAKE 0
#endif

const char* const kProperty = "C20";
const char* const kRule =
    "histories of up to 40 lookups, repeated at random, of classes (packages, nested classes, built-in ones), constructors, overloaded and static methods, fields, natives and "
    "native hooks, with types of the whole grammar over these classes, valid as C++ names (no scope uses a name for two things, no two classes mention nested classes of each "
    "other); the generated text is parsed and compared with a model of what was used; now and then the dumped file is compiled, bound to a VM which refuses unknown symbols, and "
    "the recorded lookups, calls and field accesses are repeated there; non-trivial: a nested class, an overloaded method and an array of a class occur; identity: the draws";

struct Method {
    string name, ret;
    std::vector<string> params;
    bool st;
    string sig() const {
        string r = "(";
        for (auto& p : params) r += p;
        return r + ")" + ret;
    }
};
struct Field {
    string name, type;
    bool st;
};
struct Cls {
    string full, name;  // p/A$B, B
    std::vector<Method> methods;
    std::vector<Field> fields;
    std::vector<string> nested;  // simple names
    bool builtin = false;
};
static const char* const kBuiltin[] = {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference"};

struct Model {
    std::map<string, Cls> cls;
    std::set<string> pkgs;
    // which class must be complete before which
    std::map<string, std::set<string>> before;
    bool builtin(const string& f) {
        for (auto b : kBuiltin)
            if (f == b) return true;
        return f == "internal/lang/Global";
    }
    // makes a class known, with its packages and outer classes; false: the name is taken for something else
    bool use(const string& full) {
        if (builtin(full)) return true;
        if (cls.count(full)) return true;
        std::vector<string> newp;
        size_t from = 0, slash;
        while ((slash = full.find('/', from)) != string::npos) {
            string p = full.substr(0, slash);
            if (cls.count(p)) return false;
            newp.push_back(p);
            from = slash + 1;
        }
        // the class and its outer ones
        string simple = full.substr(from);
        std::vector<string> path;
        for (size_t i = 0;; i++)
            if (i == simple.size() || simple[i] == '$') {
                path.push_back(full.substr(0, from + i));
                if (i == simple.size()) break;
            }
        for (size_t i = 0; i < path.size(); i++) {
            if (builtin(path[i])) return false;
            if (i == 0 && pkgs.count(path[0])) return false;
            if (i > 0) {
                string n = last(path[i]), o = last(path[i - 1]);
                if (n == o) return false;
                if (cls.count(path[i - 1]) && taken(cls[path[i - 1]], n)) return false;
            }
        }
        for (auto& p : newp) pkgs.insert(p);
        for (size_t i = 0; i < path.size(); i++) {
            Cls& c = cls[path[i]];
            if (c.full.empty()) {
                c.full = path[i];
                c.name = last(path[i]);
                if (i) {
                    cls[path[i - 1]].nested.push_back(c.name);
                    before[path[i]].insert(path[i - 1]);
                }
            }
        }
        return true;
    }
    static string last(const string& f) { return f.substr(f.find_last_of("/$") + 1); }
    bool taken(const Cls& c, const string& n) {
        for (auto& m : c.methods)
            if (m.name == n) return true;
        for (auto& f : c.fields)
            if (f.name == n) return true;
        return false;
    }
    bool nested_named(const Cls& c, const string& n) {
        for (auto& x : c.nested)
            if (x == n) return true;
        return c.name == n;
    }
    // the class a type mentions, if any
    static string mentioned(const string& t) {
        size_t l = t.find_first_not_of('[');
        return t[l] == 'L' ? t.substr(l + 1, t.size() - l - 2) : "";
    }
    bool reaches(const string& from, const string& to, std::set<string>& seen) {
        if (from == to) return true;
        if (!seen.insert(from).second) return false;
        for (auto& b : before[from])
            if (reaches(b, to, seen)) return true;
        return false;
    }
    // a class mentions a type: the outer class of a nested one must come before it; false: it cannot
    bool mention(const string& in, const string& t) {
        string m = mentioned(t);
        if (m.empty()) return true;
        if (!use(m)) return false;
        size_t d = m.rfind('$');
        if (d == string::npos || m.find('/', d) != string::npos) return true;
        string outer = m.substr(0, d);
        if (outer == in) return true;
        std::set<string> seen;
        if (reaches(outer, in, seen)) return false;
        before[in].insert(outer);
        return true;
    }
};

struct Gen {
    Case& c;
    Src& s;
    Model& m;
    bool small;
    bool nested = false, overloaded = false, classarray = false;
    string ident(bool cls) {
        static const char* p[] = {"a", "b", "ab", "foo", "java", "lang", "util", "android", "internal", "_unsigned", "x1", "env", "cl", "c", "JNI"};
        static const char* k[] = {"A", "B", "AB", "Foo", "foo", "c", "env", "L", "I", "Thread", "Foo_1", "cl", "Void", "List", "_x"};
        return cls ? k[s.below(15)] : p[s.below(15)];
    }
    string member() {
        static const char* k[] = {"a", "b", "f", "g", "get", "value", "ab", "x", "arg0", "arg1", "cl", "c", "env", "toString", "length", "name", "clazz", "lock", "desc", "frame", "getClass", "Instantiate", "vm", "I", "self", "ret", "id"};
        return k[s.below(s.chance(1, 2) ? 8 : 27)];
    }
    string fresh_cls() {
        string r;
        for (size_t n = s.below(4); n-- > 0;) r += ident(false) + "/";
        r += ident(true);
        while (s.chance(1, 4)) r += "$" + ident(true);
        // names of the library itself in its own namespace
        static const std::set<string> own = {"internal/lang/Weak", "internal/lang/Global", "java/lang/Array"};
        return own.count(r) ? "a/A" : r;
    }
    string cls() {
        if (!m.cls.empty() && s.chance(2, 3)) {
            auto it = m.cls.begin();
            std::advance(it, s.below((uint32_t)m.cls.size()));
            string f = it->first;
            if (s.chance(1, 6)) f += "$" + ident(true);
            return f;
        }
        if (s.chance(1, 5)) return s.pick(kBuiltin);
        return fresh_cls();
    }
    string type() {
        string r(s.chance(1, 4) ? 1 + s.below(3) : 0, '[');
        if (s.chance(2, 5)) {
            string k = cls();
            if (!r.empty()) classarray = true;
            return r + "L" + k + ";";
        }
        return r + "ZBCSIJFD"[s.below(8)];
    }
};

// ---- what the types look like, in one way of writing them
static string canonical(const string& t) {
    switch (t[0]) {
        case 'V': return "void";
        case 'Z': return "jboolean";
        case 'B': return "jbyte";
        case 'C': return "jchar";
        case 'S': return "jshort";
        case 'I': return "jint";
        case 'J': return "jlong";
        case 'F': return "jfloat";
        case 'D': return "jdouble";
    }
    struct In {
        static string inner(const string& t) {
            if (t[0] == '[') return "jnivm::Array<" + inner(t.substr(1)) + ">";
            if (t[0] != 'L') return canonical(t);
            string r = "jnivm::";
            for (char c : t.substr(1, t.size() - 2)) r += c == '/' || c == '$' ? string("::") : string(1, c);
            return r;
        }
    };
    return "std::shared_ptr<" + In::inner(t) + ">";
}
// the aliases of the fake-jni style
static void replace_all(string& s, const string& a, const string& b) {
    for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size()) s.replace(p, a.size(), b);
}
static string normal(string t) {
    static const char* prim[] = {"Boolean", "Byte", "Char", "Short", "Int", "Long", "Float", "Double"};
    static const char* low[] = {"boolean", "byte", "char", "short", "int", "long", "float", "double"};
    for (int i = 0; i < 8; i++) {
        replace_all(t, string("FakeJni::J") + prim[i] + "Array", string("jnivm::Array<j") + low[i] + ">");
        replace_all(t, string("FakeJni::J") + prim[i], string("j") + low[i]);
    }
    replace_all(t, "FakeJni::JArray<", "jnivm::Array<");
    replace_all(t, "FakeJni::JString", "jnivm::java::lang::String");
    replace_all(t, "FakeJni::JObject", "jnivm::java::lang::Object");
    replace_all(t, "FakeJni::JClass", "jnivm::java::lang::Class");
    replace_all(t, "FakeJni::JThrowable", "jnivm::java::lang::Throwable");
    replace_all(t, "FakeJni::JWeak", "jnivm::java::lang::ref::WeakReference");
    return t;
}
static string scoped(const string& full) {
    string r = "jnivm::";
    for (char c : full) r += c == '/' || c == '$' ? string("::") : string(1, c);
    return r;
}

// ---- a reader of the generated text
struct Tokens {
    std::vector<string> t;
    explicit Tokens(const string& s) {
        for (size_t i = 0; i < s.size();) {
            char c = s[i];
            if (isspace((unsigned char)c)) {
                i++;
            } else if (isalnum((unsigned char)c) || c == '_' || (c & 0x80)) {
                size_t j = i;
                while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || (s[j] & 0x80))) j++;
                t.push_back(s.substr(i, j - i));
                i = j;
            } else if (c == '"') {
                size_t j = s.find('"', i + 1);
                if (j == string::npos) j = s.size() - 1;
                t.push_back(s.substr(i, j - i + 1));
                i = j + 1;
            } else if (c == '#') {
                size_t j = s.find('\n', i);
                i = j == string::npos ? s.size() : j;
            } else if (c == '/' && i + 1 < s.size() && s[i + 1] == '/') {
                size_t j = s.find('\n', i);
                i = j == string::npos ? s.size() : j;
            } else if (c == ':' && i + 1 < s.size() && s[i + 1] == ':') {
                t.push_back("::");
                i += 2;
            } else {
                t.push_back(string(1, c));
                i++;
            }
        }
    }
};
static bool is_ident(const string& t) { return !t.empty() && (isalpha((unsigned char)t[0]) || t[0] == '_' || (t[0] & 0x80)); }
static string join(const std::vector<string>& t, size_t a, size_t b) {
    string r;
    for (size_t i = a; i < b; i++) {
        if (!r.empty() && is_ident(t[i]) && (isalnum((unsigned char)r.back()) || r.back() == '_')) r += " ";
        r += t[i];
    }
    return r;
}
// a parameter without its name
static string param(const std::vector<string>& t, size_t a, size_t b) {
    if (b - a > 1 && is_ident(t[b - 1]) && t[b - 2] != "::" && t[b - 2] != "const") b--;
    return join(t, a, b);
}
// "static"? type? scope::name(params) or "static"? type scope::name, as one string; the scope only if there is one
static string declaration(const std::vector<string>& t, size_t a, size_t b, const string& what) {
    bool st = t[a] == "static";
    if (st) a++;
    while (a < b && (t[a] == "virtual" || t[a] == "inline")) a++;
    size_t par = a;
    int depth = 0;
    while (par < b && !(t[par] == "(" && depth == 0)) {
        if (t[par] == "<") depth++;
        if (t[par] == ">") depth--;
        par++;
    }
    size_t n = par;  // the end of the name
    size_t ns = n - 1;
    while (ns > a + 1 && t[ns - 1] == "::" && is_ident(t[ns - 2])) ns -= 2;
    string r = what + (st ? " static " : " ") + normal(join(t, a, ns)) + " " + join(t, ns, n);
    if (par < b) {
        r += "(";
        size_t from = par + 1;
        depth = 0;
        bool first = true;
        for (size_t i = par + 1; i < b; i++) {
            if (t[i] == "<" || t[i] == "(") depth++;
            if (t[i] == ">") depth--;
            if ((t[i] == "," && depth == 0) || (t[i] == ")" && depth == 0)) {
                string p = i > from ? normal(param(t, from, i)) : "";
                if (!p.empty() && p != "jnivm::ENV*" && p != "jnivm::Class*") {
                    r += (first ? "" : ",") + p;
                    first = false;
                } else if (p == "jnivm::Class*") {
                    r += "[class]";
                }
                from = i + 1;
                if (t[i] == ")") break;
            } else if (t[i] == ")") {
                depth--;
            }
        }
        r += ")";
    }
    return r;
}
using Bag = std::multiset<string>;

static void read_pre(Case& c, const string& text, Bag& out) {
    auto t = Tokens(text).t;
    std::vector<string> scope;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == "namespace" && i + 2 < t.size()) {
            size_t j = i + 1;
            string n;
            while (j < t.size() && t[j] != "{") n += t[j++];
            scope.push_back(n);
            i = j + 1;
        } else if (t[i] == "class" && i + 2 < t.size() && t[i + 2] == ";") {
            string r;
            for (auto& x : scope) r += x + "::";
            out.insert("class " + r + t[i + 1]);
            i += 3;
        } else if (t[i] == "}") {
            PBT_CHECK(c, !scope.empty(), "the pre-declarations close more than they open");
            scope.pop_back();
            i++;
        } else {
            c.fail("unexpected %s in the pre-declarations", pbt::printable(t[i]).c_str());
        }
    }
    PBT_CHECK(c, scope.empty(), "the pre-declarations leave a namespace open");
}
static void read_header(Case& c, const string& text, Bag& out, std::vector<string>& order) {
    auto t = Tokens(text).t;
    size_t i = 0;
    auto want = [&](const char* w) {
        PBT_CHECK(c, i < t.size() && t[i] == w, "%s instead of %s in the header", i < t.size() ? pbt::printable(t[i]).c_str() : "the end", w);
        i++;
    };
    while (i < t.size()) {
        want("class");
        string q;
        while (i < t.size() && t[i] != ":" && t[i] != "{") q += t[i++];
        want(":");
        want("public");
        string base;
        while (i < t.size() && t[i] != "{") base += t[i++];
        PBT_CHECK(c, base == (FAKE ? "FakeJni::JObject" : "jnivm::Object"), "class %s extends %s", q.c_str(), base.c_str());
        want("{");
        want("public");
        want(":");
        out.insert("class " + q);
        order.push_back(q);
        while (i < t.size() && t[i] != "}") {
            if (t[i] == "DEFINE_CLASS_NAME") {
                PBT_CHECK(c, i + 3 < t.size(), "truncated header");
                out.insert(q + " named " + t[i + 2]);
                i += 4;
                if (i < t.size() && t[i] == ";") i++;
                continue;
            }
            size_t e = i;
            while (e < t.size() && t[e] != ";") e++;
            PBT_CHECK(c, e < t.size() && e > i, "truncated header");
            if (t[i] == "class") out.insert(q + " nested " + join(t, i + 1, e));
            else out.insert(declaration(t, i, e, q));
            i = e + 1;
        }
        want("}");
        want(";");
    }
}
static void read_stubs(Case& c, const string& text, Bag& out) {
    auto t = Tokens(text).t;
    for (size_t i = 0; i < t.size();) {
        size_t e = i;
        while (e < t.size() && t[e] != "{" && t[e] != "=" && t[e] != ";") e++;
        PBT_CHECK(c, e < t.size() && e > i, "truncated stubs");
        out.insert(declaration(t, i, e, "stub"));
        if (t[e] == "{") {
            int d = 0;
            do {
                if (t[e] == "{") d++;
                if (t[e] == "}") d--;
                e++;
            } while (d && e < t.size());
            PBT_CHECK(c, !d, "unbalanced stubs");
        } else {
            while (e < t.size() && t[e] != ";") e++;
            e++;
        }
        i = e;
    }
}
static void compare(Case& c, const Bag& want, const Bag& have, const char* what) {
    for (auto& x : want)
        PBT_CHECK(c, have.count(x) >= want.count(x), "the %s %s \"%s\"", what, have.count(x) ? "have too few times" : "lack", pbt::printable(x).c_str());
    for (auto& x : have)
        PBT_CHECK(c, want.count(x), "the %s have the unexpected \"%s\"", what, pbt::printable(x).c_str());
    for (auto& x : have)
        PBT_CHECK(c, want.count(x) >= have.count(x), "the %s have \"%s\" %zu times", what, pbt::printable(x).c_str(), have.count(x));
}

static size_t occurrences(const string& text, const string& w) {
    size_t n = 0;
    for (size_t p = 0; (p = text.find(w, p)) != string::npos; p += w.size()) n++;
    return n;
}

static void check_text(Case& c, Model& m, VM& vm) {
    Bag want, have;
    for (auto& k : m.cls)
        if (k.first.find('$') == string::npos) want.insert("class " + scoped(k.first));
    read_pre(c, vm.GeneratePreDeclaration(), have);
    compare(c, want, have, "pre-declarations");
    Bag hwant, hhave, swant, shave;
    std::map<string, size_t> names;
    size_t hooks = 0;
    for (auto& k : m.cls) {
        auto& x = k.second;
        string q = scoped(x.full);
        hwant.insert("class " + q);
        if (FAKE) hwant.insert(q + " named \"" + x.full + "\"");
        for (auto& n : x.nested) hwant.insert(q + " nested " + n);
        for (auto& f : x.fields) {
            hwant.insert(q + (f.st ? " static " : " ") + canonical(f.type) + " " + f.name);
            if (f.st) swant.insert("stub " + canonical(f.type) + " " + q + "::" + f.name);
            names[f.name]++;
            hooks++;
        }
        for (auto& f : x.methods) {
            bool init = f.name == "<init>";
            string ps = "(";
            if (!FAKE && f.st) ps += "[class]";
            for (size_t i = 0; i < f.params.size(); i++) ps += (i ? "," : "") + canonical(f.params[i]);
            ps += ")";
            hwant.insert(q + (f.st && !init ? " static " : " ") + (init ? "" : canonical(f.ret)) + " " + (init ? x.name : f.name) + ps);
            swant.insert("stub " + (init ? "" : canonical(f.ret)) + " " + q + "::" + (init ? x.name : f.name) + ps);
            hooks++;
            names[f.name]++;
        }
    }
    std::vector<string> order;
    read_header(c, vm.GenerateHeader(), hhave, order);
    compare(c, hwant, hhave, "headers");
    read_stubs(c, vm.GenerateStubs(), shave);
    compare(c, swant, shave, "stubs");
    // a class comes after those which it needs complete
    std::map<string, size_t> at;
    for (size_t i = 0; i < order.size(); i++) at[order[i]] = i;
    for (auto& b : m.before)
        for (auto& o : b.second)
            PBT_CHECK(c, at[scoped(o)] < at[scoped(b.first)], "the header defines %s, which needs a class nested in %s, before that", b.first.c_str(), o.c_str());
    string pre = vm.GenerateJNIPreDeclaration(), bind = vm.GenerateJNIBinding();
    for (auto& k : m.cls)
        PBT_CHECK(c, occurrences(pre, "<" + scoped(k.first) + ">(") == 1, "class %s is registered %zu times", k.first.c_str(), occurrences(pre, "<" + scoped(k.first) + ">("));
    for (auto& n : names)
        if (!(FAKE && n.first == "<init>"))
            PBT_CHECK(c, occurrences(bind, "\"" + n.first + "\",") == n.second, "%s is bound %zu times instead of %zu", n.first.c_str(), occurrences(bind, "\"" + n.first + "\","), n.second);
}

// ---- the compiler
static int run(const std::vector<string>& cmd, const string& log) {
    pid_t p = fork();
    if (p == 0) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
        std::vector<char*> a;
        for (auto& x : cmd) a.push_back((char*)x.c_str());
        a.push_back(nullptr);
        execvp(a[0], a.data());
        _exit(127);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static string first_lines(const string& file, const char* pick) {
    std::ifstream f(file);
    string l, r, all;
    int n = 0, m = 0;
    while (std::getline(f, l)) {
        if (m++ < 4) all += l.substr(0, 300) + "\n";
        if (l.find(pick) != string::npos && n++ < 3) r += l.substr(0, 400) + "\n";
    }
    return r.empty() ? all : r;
}
static void check_compiler(Case& c, Model& m, VM& vm, bool gcc) {
    const char* base = getenv("PBT_TMP");
    string dir = string(base ? base : "/tmp") + "/c20.XXXXXX";
    PBT_CHECK(c, mkdtemp(&dir[0]), "harness: no directory");
    string dump = dir + "/dump.hpp", src = dir + "/main.cpp", exe = dir + "/main", log = dir + "/log";
    vm.GenerateClassDump(dump.c_str());
    {
        std::ofstream o(src);
        o << "#include \"c20_driver.hpp\"\n#include \"" << dump << "\"\nstatic const Row rows[] = {\n";
        for (auto& k : m.cls) {
            auto& x = k.second;
            o << "{'C', \"" << x.full << "\", \"\", \"\"},\n";
            for (auto& f : x.methods) {
                bool init = f.name == "<init>";
                o << "{'" << (init ? 'i' : f.st ? 'M' : 'm') << "', \"" << x.full << "\", \"" << f.name << "\", \"" << (init ? f.sig().substr(0, f.sig().find(')') + 1) + "V" : f.sig()) << "\"},\n";
            }
            for (auto& f : x.fields) o << "{'" << (f.st ? 'F' : 'f') << "', \"" << x.full << "\", \"" << f.name << "\", \"" << f.type << "\"},\n";
        }
        o << "{0, 0, 0, 0}};\nint main() {\n";
        if (FAKE)
            o << "FakeJni::Jvm jvm; FakeJni::LocalFrame f; InitJNIBinding(&jvm); JNIEnv* env = &f.getJniEnv();\n";
        else
            o << "jnivm::VM vm(false, true); InitJNIBinding(vm.GetEnv().get()); JNIEnv* env = vm.GetJNIEnv();\n";
        o << "return drive(env, rows, sizeof rows / sizeof *rows - 1); }\n";
    }
    string bd = BUILD_DIR, std_ = FAKE ? "-std=c++17" : "-std=c++14";
    std::vector<string> common = {std_, "-DEnableJNIVMGC", "-DJNI_DEBUG", string("-DC20_FAKE=") + (FAKE ? "1" : "0"), "-I" REPO_DIR "/include", "-I" HARNESS_DIR};
    int rc;
    string err;
    if (gcc) {
        std::vector<string> cmd = {"g++", "-fsyntax-only"};
        cmd.insert(cmd.end(), common.begin(), common.end());
        cmd.push_back(src);
        rc = run(cmd, log);
        if (rc) err = "g++ does not accept the generated file: " + first_lines(log, "error");
    } else {
        std::vector<string> cmd = {"clang++", "-O0", "-w", "-fsanitize=address", "-include-pch", bd + "/c20.pch"};
        cmd.insert(cmd.end(), common.begin(), common.end());
        for (string x : {src, string("-o"), exe, bd + "/repo/libbaron.a", bd + "/repo/libfake-jni.a", bd + "/repo/libjnivm.a", string("-lpthread"), string("-ldl")}) cmd.push_back(x);
        rc = run(cmd, log);
        if (rc) {
            err = "clang++ does not accept the generated file: " + first_lines(log, "error");
        } else {
            unlink(log.c_str());
            rc = run({exe}, log);
            if (rc) err = "the lookups fail on a VM bound with the generated file: " + first_lines(log, "class");
        }
    }
    if (c.trace) {
        std::ifstream f(dump);
        string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        PBT_NOTE(c, "%s", all.c_str());
    }
    for (auto& f : {dump, src, exe, log}) unlink(f.c_str());
    rmdir(dir.c_str());
    PBT_CHECK(c, !rc, "%s", err.c_str());
}

static jint h0(ENV*, jint x) { return x; }
static void n0(JNIEnv*, jobject) {}

void property_case(Case& c) {
    Src& s = c.s;
    Model m;
#ifdef C20_NO_COMPILE
    int compile = 0;
#else
    int compile = s.chance(1, 300) ? 1 + s.chance(1, 5) : 0;
#endif
    Gen g{c, s, m, compile != 0};
    VM vm;
    JNIEnv* env = vm.GetJNIEnv();
    size_t steps = compile ? 4 + s.below(24) : 2 + s.len(40);
    for (; steps-- > 0;) {
        string k = g.cls();
        size_t w = s.weighted({3, 6, 3, 4, 1, 1});
        if (m.builtin(k)) {
            // used, but not to be generated
            jclass j = env->FindClass(k.c_str());
            PBT_CHECK(c, j, "a built-in class is not found");
            if (w == 1) env->GetMethodID(j, "notGenerated", "()V");
            if (w == 3) env->GetFieldID(j, "notGenerated", "I");
            PBT_NOTE(c, "built-in %s", k.c_str());
            continue;
        }
        if (!m.use(k)) continue;
        jclass j = env->FindClass(k.c_str());
        PBT_CHECK(c, j, "a class is not found");
        PBT_NOTE(c, "class %s", k.c_str());
        if (k.find('$') != string::npos) g.nested = true;
        Cls& x = m.cls[k];
        if (w == 0) continue;
        if (w == 3) {
            Field f{g.member(), g.type(), s.chance(1, 2)};
            if (!x.fields.empty() && s.chance(1, 6)) f = s.pick(x.fields);
            bool known = false, clash = m.nested_named(x, f.name);
            for (auto& y : x.methods) clash |= y.name == f.name;
            for (auto& y : x.fields) {
                if (y.name == f.name && y.type == f.type && y.st == f.st) known = true;
                else clash |= y.name == f.name;
            }
            // the class may have got a nested one of that name meanwhile
            if (clash) continue;
            Model trial = m;
            if (!trial.mention(k, f.type) || trial.nested_named(trial.cls[k], f.name)) continue;
            m = std::move(trial);
            if (!known) m.cls[k].fields.push_back(f);
            PBT_NOTE(c, "  %sfield %s %s", f.st ? "static " : "", f.name.c_str(), f.type.c_str());
            PBT_CHECK(c, f.st ? env->GetStaticFieldID(j, f.name.c_str(), f.type.c_str()) : env->GetFieldID(j, f.name.c_str(), f.type.c_str()), "a field is not found");
            continue;
        }
        if (w == 4) {
            // native methods are the caller's, not part of the stubs
            JNINativeMethod n{(char*)"nat", (char*)"()V", (void*)n0};
            env->RegisterNatives(j, &n, 1);
            PBT_NOTE(c, "  native");
            continue;
        }
        Method f;
        bool init = w == 2;
        f.name = init ? "<init>" : g.member();
        f.st = init || s.chance(1, 3);
        for (size_t n = s.below(s.chance(1, 4) ? 6 : 3); n-- > 0;) f.params.push_back(g.type());
        f.ret = init ? "V" : s.chance(1, 4) ? "V" : g.type();
        if (!x.methods.empty() && s.chance(1, 4)) {
            auto& y = s.pick(x.methods);
            if (y.name != "<init>") {
                if (s.chance(1, 3)) f = y;
                else f.name = y.name;
                init = false;
                f.st = s.chance(1, 4) ? s.chance(1, 2) : y.st;
            }
        }
        if (w == 5) f = Method{"hk", "I", {"I"}, true};
        auto classify = [&](Cls& x, bool& known, bool& clash) {
            known = false;
            clash = !init && m.nested_named(x, f.name);
            for (auto& y : x.fields) clash |= y.name == f.name;
            for (auto& y : x.methods)
                if (y.name == f.name && y.params == f.params) {
                    if (y.st == f.st && (init || y.ret == f.ret)) known = true;
                    else clash = true;
                }
        };
        bool known, clash;
        classify(x, known, clash);
        if (clash) continue;
        Model trial = m;
        bool ok = true;
        for (auto& p : f.params) ok &= trial.mention(k, p);
        if (f.ret != "V") ok &= trial.mention(k, f.ret);
        classify(trial.cls[k], known, clash);
        if (!ok || clash) continue;
        m = std::move(trial);
        if (!known) {
            auto& ms = m.cls[k].methods;
            for (auto& y : ms) g.overloaded |= y.name == f.name && !init;
            ms.push_back(f);
            if (init) ms.back().ret = "L" + k + ";";
        }
        PBT_NOTE(c, "  %smethod %s %s", f.st ? "static " : "", f.name.c_str(), f.sig().c_str());
        if (w == 5) {
            jenv(env)->GetClass(k.c_str())->Hook(jenv(env), "hk", h0);
            continue;
        }
        PBT_CHECK(c, f.st && !init ? env->GetStaticMethodID(j, f.name.c_str(), f.sig().c_str()) : env->GetMethodID(j, f.name.c_str(), f.sig().c_str()), "a method is not found");
    }
    for (auto& q : m.cls) env->FindClass(q.first.c_str());
    c.nontrivial = g.nested && g.overloaded && g.classarray;
    check_text(c, m, vm);
    if (compile) check_compiler(c, m, vm, compile == 2);
}
