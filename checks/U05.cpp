// U05: size arithmetic is integer arithmetic with an absorbing run-time marker.
#include "../harness/pbt.hpp"
#include <mpc/Types.hpp>
#include <mpc/Dim.hpp>
using namespace pbt;
using mpc::Size;

struct E {
    bool isSize;     // Size object or plain integer
    int lib;         // value computed by the library
    bool known;      // reference
    long val;
    std::string txt;
};

static E gen(Src &s, int depth, int &mixed, int &unk, int &subs) {
    if (depth == 0 || s.chance(1, 4)) {
        E e;
        e.isSize = s.coin();
        if (s.chance(1, e.isSize ? 4 : 10)) { e.known = false; e.val = 0; e.lib = Eigen::Dynamic; unk++; }
        else { e.known = true; e.val = s.below(12); e.lib = (int)e.val; }
        e.txt = e.known ? fmt(e.isSize ? "S(%ld)" : "%ld", e.val) : e.isSize ? "S(?)" : "?";
        return e;
    }
    E a = gen(s, depth - 1, mixed, unk, subs), b = gen(s, depth - 1, mixed, unk, subs), r;
    int op = (int)s.below(3);
    r.isSize = a.isSize || b.isSize;
    r.known = a.known && b.known;
    r.val = op == 0 ? a.val + b.val : op == 1 ? a.val - b.val : a.val * b.val;
    if (r.known && (r.val < 0 || r.val > 1000000)) {  // sizes are not negative: swap or fall back to a sum
        op = 0;
        r.val = std::min(a.val, 1000000l) + std::min(b.val, 1000000l);
        if (r.val > 2000000) throw Discard();
    }
    r.txt = "(" + a.txt + (op == 0 ? "+" : op == 1 ? "-" : "*") + b.txt + ")";
    if (a.isSize != b.isSize) mixed++;
    if (op == 1) subs++;
    if (a.isSize && b.isSize) {
        Size x(a.lib), y(b.lib);
        r.lib = (op == 0 ? x + y : op == 1 ? x - y : x * y).value;
    } else if (a.isSize) {
        Size x(a.lib);
        r.lib = (op == 0 ? x + b.lib : op == 1 ? x - b.lib : x * b.lib).value;
    } else if (b.isSize) {
        Size y(b.lib);
        r.lib = (op == 0 ? a.lib + y : op == 1 ? a.lib - y : a.lib * y).value;
    } else
        r.lib = r.known ? (int)r.val : Eigen::Dynamic;
    int want = r.known ? (int)r.val : Eigen::Dynamic;
    PBT_CHECK(r.lib == want, a.isSize && b.isSize ? "size-size" : a.isSize ? "size-int" : "int-size", "%s gives %d, expected %d", r.txt.c_str(), r.lib, want);
    // the conversion used in template arguments shows the same value
    if (r.isSize) PBT_CHECK((int)Size(r.lib) == want && (int)Size(Size(r.lib)) == want, "conversion", "conversion of %s", r.txt.c_str());
    return r;
}

static void prop(Src &s, Case &c) {
    int mixed = 0, unk = 0, subs = 0;
    E e = gen(s, s.irange(1, 4), mixed, unk, subs);
    int n = s.irange(0, 50);
    PBT_CHECK(mpc::make_dimension(n, true) == n && mpc::make_dimension(n, false) == Eigen::Dynamic, "make-dimension", "make_dimension(%d)", n);
    c.nontrivial = mixed > 0 && subs > 0;
    if (unk) c.label("run-time-operand");
    if (c.wantSample) c.sample = e.txt;
}

// every field of a problem size keeps its own value
static void fields(Src &s, Case &c) {
    int v[8];
    for (int &x : v) x = s.irange(-1, 30);
    mpc::MPCSize z(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    PBT_CHECK(z.nx.value == v[0] && z.nu.value == v[1] && z.ndu.value == v[2] && z.ny.value == v[3] && z.ph.value == v[4] && z.ch.value == v[5] && z.ineq.value == v[6] && z.eq.value == v[7], "fields", "a field of MPCSize is wrong");
    auto ref = [&](int a, int b, int op) { return a < 0 || b < 0 ? -1 : op ? a * b : a + b; };
    int nz = ref(ref(ref(v[4], v[0], 1), ref(v[1], v[5], 1), 0), 1, 0);
    PBT_CHECK((((z.ph * z.nx) + (z.nu * z.ch) + 1)).value == nz, "decision-size", "decision vector size %d, expected %d", ((z.ph * z.nx) + (z.nu * z.ch) + 1).value, nz);
    c.nontrivial = nz > 1;
    if (c.wantSample) c.sample = fmt("nx=%d nu=%d ph=%d ch=%d -> %d", v[0], v[1], v[4], v[5], nz);
}

void pbt_register(pbt::Runner &r) {
    r.add("expressions", prop, 300000, 20000000, "the expression mixes a size with an integer and subtracts", 0.15);
    r.add("problem-size", fields, 100000, 5000000, "all sizes known", 0.3);
}
PBT_MAIN("U05")
