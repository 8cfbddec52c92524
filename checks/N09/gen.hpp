// random operation scripts for the non-linear controller
#pragma once
#include "script.hpp"
inline std::vector<SOp> genOps(Src &s, const Dims &d, std::string &hist, int &nopt) {
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    std::vector<SOp> ops;
    auto box = [&](SOp &op, int n, int h, double lim) {
        op.a = VecD(n); op.b = VecD(n); op.A = MatD(n, h); op.B = MatD(n, h);
        for (int i = 0; i < n; i++) { op.a(i) = -s.uniform(0.1, lim); op.b(i) = s.uniform(0.1, lim); for (int j = 0; j < h; j++) { op.A(i, j) = -s.uniform(0.1, lim); op.B(i, j) = s.uniform(0.1, lim); } }
    };
    auto add = [&](int kind) {
        SOp op;
        op.kind = kind;
        static const double tols[] = {1e-10, 1e-8, 1e-4};
        op.t = tols[s.below(3)];
        switch (kind) {
        case O_MODEL: case O_OUT: case O_OBJ: case O_INEQ: case O_EQ: op.sp = std::make_shared<Spec>(genProblem(s, d, o)); op.sp->hasOut = true; break;
        case O_SCALE:
            op.a = VecD(d.nx); op.b = VecD(d.nu);
            for (int i = 0; i < d.nx; i++) op.a(i) = s.positive(0.1, 10);
            for (int i = 0; i < d.nu; i++) op.b(i) = s.positive(0.1, 10);
            break;
        case O_TS: op.t = s.uniform(0.05, 0.3); break;
        case O_PAR: op.par = tightParams(s.irange(1, 40)); op.par.hard_constraints = s.coin(); op.par.enable_warm_start = s.coin(); break;
        case O_XB: case O_XBM: box(op, d.nx, d.ph, 4); op.i = s.irange(-1, d.ph); op.j = s.irange(-1, d.ph + 1); break;
        case O_UB: case O_UBM: box(op, d.nu, d.ch, 2); op.i = s.irange(-1, d.ch); op.j = s.irange(-1, d.ch + 1); break;
        case O_YB: op.i = s.coin(); box(op, d.ny, d.ph, 2); break;
        case O_OPT: op.a = genVec(s, d.nx, 3); op.b = genVec(s, d.nu, 2); break;
        default: break;
        }
        hist += std::string(" ") + opName(kind);
        ops.push_back(op);
    };
    bool model = false, obj = false;
    int steps = s.irange(2, 14);
    add(O_PAR);  // keeps the runs short
    for (int k = 0; k < steps; k++) {
        int kind = k + 1 == steps || s.chance(1, 5) ? (int)O_OPT : (int)s.below(O_COUNT);
        if ((kind == O_INEQ && !d.ineq) || (kind == O_EQ && !d.eq)) kind = O_STATS;
        if (kind == O_OPT) {
            if (!model) add(O_MODEL);
            if (!obj) add(O_OBJ);
            model = obj = true;
            nopt++;
        }
        model |= kind == O_MODEL;
        obj |= kind == O_OBJ;
        add(kind);
    }
    return ops;
}
