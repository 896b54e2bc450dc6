// Random acyclic class graphs: classes whose bases are set at run time, and native types declared with Extends
#pragma once
#include "jvmutil.hpp"
#include <jnivm/extends.h>

struct NA : jnivm::Extends<> {};
struct NI : jnivm::Extends<> {};
struct NJ : jnivm::Extends<> {};
struct NB : jnivm::Extends<NA, NI> {};
struct NC : jnivm::Extends<NB, NJ> {};
struct NK : jnivm::Extends<> {};
struct ND : jnivm::Extends<NA, NI, NJ> {};
struct NE : jnivm::Extends<ND, NJ, NK, NI> {};

struct Graph {
    std::vector<std::shared_ptr<jnivm::Class>> cls;
    std::vector<std::string> name;
    std::vector<std::vector<int>> bases;
    std::vector<std::vector<char>> reach;  // reflexive-transitive closure
    int fixed = 0;                          // the first ones are not dynamic

    template <class T> void reg(ENV* e, const char* n, std::vector<int> b) { add(e->GetClass<T>(n), n, b); }
    void add(std::shared_ptr<jnivm::Class> c, const std::string& n, std::vector<int> b) {
        cls.push_back(c);
        name.push_back(n);
        bases.push_back(b);
    }
    // `n` dynamic classes; a graph contains java/lang/Object and perhaps the native types
    Graph(pbt::Src& s, ENV* e, size_t n) {
        add(e->GetClass("java/lang/Object"), "java/lang/Object", {});
        if (s.chance(1, 3)) {
            reg<NA>(e, "n/A", {0});
            reg<NI>(e, "n/I", {0});
            reg<NJ>(e, "n/J", {0});
            reg<NB>(e, "n/B", {1, 2});
            reg<NC>(e, "n/C", {4, 3});
            if (s.chance(1, 2)) {
                reg<NK>(e, "n/K", {0});
                reg<ND>(e, "n/D", {1, 2, 3});
                reg<NE>(e, "n/E", {7, 3, 6, 2});
            }
        }
        fixed = (int)cls.size();
        for (size_t i = 0; i < n; i++) {
            static const char* names[] = {"C0", "p/C1", "p/C1$N", "p/q/C3", "C4$N$M", "p/C5", "q/C6", "q/C7", "r/C8", "r/C9"};
            auto c = e->GetClass(names[i]);
            std::vector<int> b;
            switch (s.weighted({1, 1, 8})) {
                case 0: break;                                                      // no list of bases
                case 1: c->baseclasses = [](ENV*) { return std::vector<std::shared_ptr<jnivm::Class>>{nullptr}; }; break;  // a root
                default: {
                    std::vector<std::shared_ptr<jnivm::Class>> l;
                    for (int k = 1 + (int)s.weighted({5, 3, 2}); k-- > 0;) {
                        // mostly recent classes, so that chains form
                        size_t have = cls.size();
                        int j = s.chance(2, 3) && have > 3 ? (int)(have - 1 - s.below(3)) : (int)s.below((uint32_t)have);
                        if (std::find(b.begin(), b.end(), j) != b.end()) continue;
                        b.push_back(j);
                        l.push_back(cls[j]);
                    }
                    c->baseclasses = [l](ENV*) { return l; };
                }
            }
            add(c, names[i], b);
        }
        size_t all = cls.size();
        reach.assign(all, std::vector<char>(all, 0));
        for (size_t i = 0; i < all; i++) {
            reach[i][i] = 1;
            for (int b : bases[i])
                for (size_t j = 0; j < all; j++) reach[i][j] |= reach[b][j];
        }
    }
    size_t size() const { return cls.size(); }
    // calls f with each class met depth-first from i, until f returns true; returns that class or -1
    template <class F> int first(int i, F f) const {
        if (f(i)) return i;
        for (int b : bases[i]) {
            int r = first(b, f);
            if (r >= 0) return r;
        }
        return -1;
    }
    std::string show() const {
        std::string r;
        for (size_t i = 0; i < cls.size(); i++) {
            r += name[i] + (bases[i].empty() ? "" : ":");
            for (int b : bases[i]) r += " " + name[b];
            r += "; ";
        }
        return r;
    }
    jclass ref(JNIEnv* env, int i) const { return jnivm::JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(jenv(env), cls[i]); }
    static std::shared_ptr<jnivm::Object> object(const std::shared_ptr<jnivm::Class>& c) {
        auto o = std::make_shared<jnivm::Object>();
        o->clazz = c;
        return o;
    }
};
