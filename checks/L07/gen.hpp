// random operation scripts for the linear controller
#pragma once
#include "script.hpp"
inline void box(Src &s, int r, int c, MatD &lo, MatD &hi) {
    lo = genMat(s, r, c, 3); hi = lo;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        hi(i, j) += s.positive(0.01, 3);
        if (s.chance(1, 5)) lo(i, j) = -INF;
        if (s.chance(1, 5)) hi(i, j) = INF;
    }
}
inline LOp genOp(Src &s, const LDims &d, int kind) {
    LOp o;
    o.kind = kind;
    int h = kind == Q_USL ? d.ch : d.ph;
    o.i = s.irange(-1, h); o.j = s.irange(-1, h + 1);
    if (s.coin()) { o.i = (int)s.below(h); o.j = s.irange(o.i + 1, h); }
    switch (kind) {
    case Q_MODEL: o.a = genMat(s, d.nx, d.nx, 1); o.b = genMat(s, d.nx, d.nu, 2); o.c = genMat(s, d.ny, d.nx, 2); break;
    case Q_DIST: o.a = genMat(s, d.nx, d.ndu, 2); o.b = genMat(s, d.ny, d.ndu, 2); break;
    case Q_WMAT: case Q_WSL: o.a = genPos(s, d.ny, d.ph, false); o.b = genPos(s, d.nu, d.ph, false); o.c = genPos(s, d.nu, d.ph, false); break;
    case Q_RMAT: case Q_RSL: o.a = genMat(s, d.ny, d.ph, 3); o.b = genMat(s, d.nu, d.ph, 3); o.c = genMat(s, d.nu, d.ph, 3); break;
    case Q_EMAT: case Q_ESL: o.a = genMat(s, d.ndu, d.ph, 3); break;
    case Q_XMAT: case Q_XSL: box(s, d.nx, d.ph, o.a, o.b); break;
    case Q_UMAT: case Q_USL: box(s, d.nu, d.ch, o.a, o.b); break;
    case Q_YMAT: case Q_YSL: box(s, d.ny, d.ph, o.a, o.b); break;
    case Q_STEP:
        o.i = s.chance(1, 4) ? d.ph + (int)s.below(3) : (int)s.below(d.ch);
        box(s, d.nx, 1, o.a, o.b); box(s, d.nu, 1, o.c, o.d); box(s, d.ny, 1, o.e, o.f);
        break;
    case Q_SC: case Q_SCI:
        if (kind == Q_SCI) o.i = s.chance(1, 4) ? d.ph + (int)s.below(3) : (int)s.below(d.ph);
        o.a = genV(s, d.nx, 2); o.b = genV(s, d.nu, 2);
        o.lo = s.real(); o.hi = o.lo + s.positive(0.1, 3);
        break;
    case Q_PAR: o.par.enable_warm_start = s.coin(); o.par.maximum_iteration = s.irange(1, 4000); break;
    case Q_WARM:
        o.a = genV(s, (d.ph + 1) * (d.nx + d.nu) + d.ph * d.nu, 2);
        o.b = genV(s, 2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1, 2);
        break;
    case Q_OPT: o.a = genV(s, d.nx, 4); o.b = genV(s, d.nu, 3); break;
    default: break;
    }
    return o;
}
inline std::vector<LOp> genScript(Src &s, const LDims &d, int n, std::string &hist, int &opts) {
    std::vector<LOp> ops;
    bool model = false;
    int prev = -1;
    for (int k = 0; k < n; k++) {
        int kind = k + 1 == n || s.chance(1, 4) ? (int)Q_OPT : (int)s.below(Q_COUNT);
        if (kind == Q_OPT && !model) { ops.push_back(genOp(s, d, Q_MODEL)); hist += " model"; model = true; }
        model |= kind == Q_MODEL;
        opts += kind == Q_OPT;
        ops.push_back(genOp(s, d, kind));
        if (kind == Q_OPT) {  // sometimes the same measurement again
            if (prev >= 0 && s.coin()) { ops.back().a = ops[prev].a; ops.back().b = ops[prev].b; }
            prev = (int)ops.size() - 1;
        }
        hist += std::string(" ") + qName(kind);
    }
    return ops;
}
// the outcome of the k-th optimisation of one script, the same whoever runs it
inline fake::Outcome outcome(uint64_t seed, int k, const fake::Program &g) {
    fake::Outcome o;
    o.exact = false;
    auto r = [&](int i) { return (double)(pbt::mix(seed + 1000003ull * k + i) >> 11) * 0x1p-53 * 8 - 4; };
    static const c_int st[] = {OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED, OSQP_MAX_ITER_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_SOLVED_INACCURATE};
    o.status = st[pbt::mix(seed + k) % 6];
    for (int i = 0; i < g.q.size(); i++) o.x.push_back(r(i));
    for (int i = 0; i < g.l.size(); i++) o.y.push_back(r(100000 + i));
    o.cost = r(-1);
    return o;
}
