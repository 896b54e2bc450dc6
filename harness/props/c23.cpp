// C23: every kind of reference to an object does the same.
// The same operations run twice, on two fresh VMs: with the objects themselves, and with references of random kinds.
#include "scene.hpp"

const char* const kProperty = "C23";
const char* const kRule =
    "sequences of operations of the whole function table (queries, lookups, constructors, virtual, non-virtual and static calls and fields of all types in all forms, strings, arrays of all types, buffers, exceptions, "
    "monitors, reflection, natives, frames) over one set of objects, run on one VM with the objects themselves and on another with every reference argument of every operation replaced by one of a random kind; everything "
    "returned, seen by hooks, written to caller buffers or raised is compared; non-trivial: eight kinds of operation and all kinds of reference; identity: the draws";

void property_case(Case& c) {
    Src& s = c.s;
    std::vector<Op> ops;
    uint32_t used = 0;
    uint64_t seen = 0;
    for (size_t n = 1 + s.len(24); n-- > 0;) {
        Op p = Op::gen(s);
        for (int k : p.k) used |= 1u << k;
        seen |= 1ull << p.op;
        ops.push_back(p);
    }
    Scene a(c, false);
    Scene b(c, true);
    for (size_t i = 0; i < ops.size(); i++) {
        a.trace.clear();
        b.trace.clear();
        a.run(ops[i]);
        b.run(ops[i]);
        const int* k = ops[i].k;
        std::string kk;
        for (int z = 0; z < 5; z++) kk += std::string(z ? ", " : "") + Refs::kind_name(k[z]);
        if (c.trace) {
            std::string t;
            for (auto& x : a.trace) t += (t.empty() ? "" : "; ") + x;
            PBT_NOTE(c, "operation %d (%u, %u, %u, %u): %s", ops[i].op, ops[i].a, ops[i].b, ops[i].x, ops[i].y, t.c_str());
        }
        size_t n = std::max(a.trace.size(), b.trace.size());
        for (size_t z = 0; z < n; z++) {
            std::string l = z < a.trace.size() ? a.trace[z] : "nothing", r = z < b.trace.size() ? b.trace[z] : "nothing";
            PBT_CHECK(c, l == r, "operation %d with the objects themselves: %s; with references (%s): %s", ops[i].op, l.c_str(), kk.c_str(), r.c_str());
        }
    }
    c.nontrivial = __builtin_popcountll(seen) >= 8 && used == 63;
}
