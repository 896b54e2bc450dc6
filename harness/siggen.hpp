// Type descriptors and signatures from the grammar of the class file format
#pragma once
#include "pbt.hpp"

struct SigGen {
    pbt::Src& s;
    std::vector<std::string> pool;  // class names to choose from, if not empty
    explicit SigGen(pbt::Src& s) : s(s) {}
    // the letters of the primitive types, so that a scanner which looks inside a name goes wrong
    std::string ident() {
        static const char* al = "LIVZBCSJFDab_1";
        std::string r;
        for (size_t n = 1 + s.below(4); n-- > 0;) r += al[s.below(14)];
        if (s.chance(1, 10)) r += "\xc3\xa9";
        return r;
    }
    std::string cls() {
        if (!pool.empty()) return s.pick(pool);
        std::string r;
        for (size_t n = s.below(3); n-- > 0;) r += ident() + "/";
        r += ident();
        while (s.chance(1, 8)) r += "$" + ident();
        return r;
    }
    std::vector<std::string> names;  // classes used by type()
    std::string type(bool arrays = true) {
        size_t dim = arrays && s.chance(1, 4) ? 1 + s.below(3) : 0;
        std::string r(dim, '[');
        if (s.chance(1, 3)) {
            names.push_back(cls());
            return r + "L" + names.back() + ";";
        }
        return r + "ZBCSIJFD"[s.below(8)];
    }
    std::string ret() { return s.chance(1, 5) ? "V" : type(); }
    std::vector<std::string> params(size_t max) {
        std::vector<std::string> p(s.len(max));
        for (auto& x : p) x = type();
        return p;
    }
};
