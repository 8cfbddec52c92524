// Random linear control problems, the documented meaning of their data, and the program handed to the solver stand-in.
//
// Conventions (manual.rst): x_{k+1} = A x_k + B u_k + Bd d_k, y_k = C x_k + Dd d_k, k = 0..ph. Column i of output weights,
// output references, state and output limits belongs to step i+1; column i of input data and of the scalar constraint's
// own index to step i (u_i, du_i). The first column of the limits also applies to the given initial state, its output and
// the last command; there is no d_ph, so the last output uses d_{ph-1}; after the control horizon the input is held.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <mpc/LMPC.hpp>

namespace lin {
using pbt::Case;
using pbt::Src;
using pbt::fmt;
using MatD = Eigen::MatrixXd;
using VecD = Eigen::VectorXd;
constexpr double INF = std::numeric_limits<double>::infinity();

struct LDims { int nx = 1, nu = 1, ndu = 1, ny = 1, ph = 1, ch = 1; };
inline std::string str(const LDims &d) { return fmt("nx=%d nu=%d ndu=%d ny=%d ph=%d ch=%d", d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch); }
// one problem in "rare" is large: long horizon, many variables
inline LDims genDims(Src &s, int maxn = 4, int maxph = 7, int rare = 0, int bign = 8, int bigph = 24) {
    LDims d;
    bool big = rare && s.chance(1, rare);
    if (big) { maxph = bigph; maxn = s.coin() ? bign : maxn; }
    d.nx = s.irange(1, maxn); d.nu = s.irange(1, !big && maxn > 3 ? 3 : maxn); d.ndu = s.irange(0, big ? maxn : 3); d.ny = s.irange(1, maxn);
    d.ph = s.irange(1, maxph); d.ch = s.coin() ? d.ph : s.irange(1, d.ph);
    return d;
}
inline MatD genMat(Src &s, int r, int c, double m) {
    MatD o(r, c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o(i, j) = s.real(m);
    return o;
}
inline VecD genV(Src &s, int n, double m) { return genMat(s, n, 1, m); }
inline MatD genPos(Src &s, int r, int c, bool strict) {
    MatD o(r, c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o(i, j) = !strict && s.chance(1, 4) ? 0 : s.positive(0.05, 20);
    return o;
}

struct LSpec {
    LDims d;
    MatD A, B, C, Bd, Dd;
    MatD wy, wu, wd, ry, ru, rd, dist;        // one column per setter column
    MatD xlo, xhi, ulo, uhi, ylo, yhi;        // nx*ph, nu*ch, ny*ph
    VecD slo, shi;                            // ph
    MatD sx, su;                              // nx*ph, nu*ph: multipliers of the scalar constraint
    double cs = 1;                            // unit of the cost
    explicit LSpec(const LDims &q = LDims()) : d(q) {
        A = MatD::Zero(d.nx, d.nx); B = MatD::Zero(d.nx, d.nu); C = MatD::Zero(d.ny, d.nx);
        Bd = MatD::Zero(d.nx, d.ndu); Dd = MatD::Zero(d.ny, d.ndu);
        wy = ry = MatD::Zero(d.ny, d.ph);
        wu = wd = ru = rd = MatD::Zero(d.nu, d.ph);
        dist = MatD::Zero(d.ndu, d.ph);
        xlo = MatD::Constant(d.nx, d.ph, -INF); xhi = -xlo;
        ulo = MatD::Constant(d.nu, d.ch, -INF); uhi = -ulo;
        ylo = MatD::Constant(d.ny, d.ph, -INF); yhi = -ylo;
        slo = VecD::Constant(d.ph, -INF); shi = -slo;
        sx = MatD::Zero(d.nx, d.ph); su = MatD::Zero(d.nu, d.ph);
    }
};
inline void genModel(Src &s, LSpec &p) {
    auto &d = p.d;
    p.A = genMat(s, d.nx, d.nx, 1.0);
    if (d.ph > 7) p.A /= d.nx;  // long horizons without astronomic trajectories
    p.B = genMat(s, d.nx, d.nu, 2.0);
    p.C = genMat(s, d.ny, d.nx, 2.0);
    if (s.coin()) { p.Bd = genMat(s, d.nx, d.ndu, 2.0); p.Dd = genMat(s, d.ny, d.ndu, 2.0); }
}
inline void genCost(Src &s, LSpec &p, bool strict = false) {
    auto &d = p.d;
    bool perStep = !s.chance(1, 3);
    auto rep = [&](MatD m, int ph) -> MatD { return perStep ? m : MatD(m.col(0).replicate(1, ph)); };
    p.wy = rep(genPos(s, d.ny, d.ph, strict), d.ph);
    p.wu = rep(genPos(s, d.nu, d.ph, strict), d.ph);
    p.wd = rep(genPos(s, d.nu, d.ph, strict), d.ph);
    p.cs = 1;
    if (strict && s.chance(1, 3)) {  // the unit of the cost is arbitrary
        p.cs = s.coin() ? s.positive(1e-6, 1) : s.positive(1, 1e3);
        p.wy *= p.cs; p.wu *= p.cs; p.wd *= p.cs;
    }
    p.ry = rep(genMat(s, d.ny, d.ph, 4), d.ph);
    p.ru = rep(genMat(s, d.nu, d.ph, 4), d.ph);
    p.rd = rep(genMat(s, d.nu, d.ph, 2), d.ph);
    if (d.ndu) p.dist = rep(genMat(s, d.ndu, d.ph, 3), d.ph);
}

struct Traj { MatD X, Y, U, dU; VecD last; };  // columns are steps
inline Traj simulate(const LSpec &p, const VecD &x0, const VecD &last, const MatD &U) {
    auto &d = p.d;
    Traj t;
    t.last = last;
    t.U = U;
    t.X = MatD(d.nx, d.ph + 1);
    t.Y = MatD(d.ny, d.ph + 1);
    t.dU = MatD(d.nu, d.ph);
    t.X.col(0) = x0;
    for (int k = 0; k <= d.ph; k++) {
        VecD dk = p.dist.col(std::min(k, d.ph - 1));
        t.Y.col(k) = p.C * t.X.col(k) + p.Dd * dk;
        if (k == d.ph) break;
        t.dU.col(k) = U.col(k) - (k ? VecD(U.col(k - 1)) : last);
        t.X.col(k + 1) = p.A * t.X.col(k) + p.B * U.col(k) + p.Bd * dk;
    }
    return t;
}
inline double sq(const VecD &w, const VecD &e) { return w.dot(e.cwiseProduct(e)); }
inline double cost(const LSpec &p, const Traj &t, double *mag = nullptr) {
    double c = 0, m = 0;
    auto add = [&](const VecD &w, const VecD &a, const VecD &b) { c += sq(w, a - b); m += sq(w, a.cwiseAbs() + b.cwiseAbs()); };
    for (int k = 0; k <= p.d.ph; k++) {
        int y = k ? k - 1 : 0;
        add(p.wy.col(y), t.Y.col(k), p.ry.col(y));
        if (k < p.d.ph) {
            add(p.wu.col(k), t.U.col(k), p.ru.col(k));
            add(p.wd.col(k), t.dU.col(k), p.rd.col(k));
        }
    }
    if (mag) *mag = m;
    return c;
}
// value of the scalar constraint at step k
inline double scalar(const LSpec &p, const Traj &t, int k) {
    int y = k ? k - 1 : 0;
    return p.sx.col(y).dot(t.X.col(k)) + p.su.col(y).dot(t.U.col(std::min(k, p.d.ph - 1)));
}
// multipliers: mostly the same along the horizon
inline void genScalar(Src &s, LSpec &p) {
    p.sx = genV(s, p.d.nx, 2).replicate(1, p.d.ph);
    p.su = genV(s, p.d.nu, 2).replicate(1, p.d.ph);
    if (s.chance(1, 3)) {
        int a = s.irange(0, p.d.ph - 1);
        for (int k = a; k < p.d.ph; k++)
            if (k == a || s.coin()) { p.sx.col(k) = genV(s, p.d.nx, 2); p.su.col(k) = genV(s, p.d.nu, 2); }
    }
}
struct Limit { std::string what; double v, lo, hi; };
inline std::vector<Limit> limits(const LSpec &p, const Traj &t) {
    std::vector<Limit> o;
    auto &d = p.d;
    for (int k = 0; k <= d.ph; k++) {
        int y = k ? k - 1 : 0, u = std::min(k, d.ph - 1), c = std::min(u, d.ch - 1);
        for (int i = 0; i < d.nx; i++) o.push_back({fmt("state %d step %d", i, k), t.X(i, k), p.xlo(i, y), p.xhi(i, y)});
        for (int i = 0; i < d.ny; i++) o.push_back({fmt("output %d step %d", i, k), t.Y(i, k), p.ylo(i, y), p.yhi(i, y)});
        if (k < d.ph)
            for (int i = 0; i < d.nu; i++) o.push_back({fmt("input %d step %d", i, k), t.U(i, k), p.ulo(i, c), p.uhi(i, c)});
        o.push_back({fmt("scalar step %d", k), scalar(p, t, k), p.slo(y), p.shi(y)});
    }
    for (int i = 0; i < d.nu; i++) o.push_back({fmt("last command %d", i), t.last(i), p.ulo(i, 0), p.uhi(i, 0)});
    return o;
}
// largest violation (negative: distance to the nearest limit)
inline double worst(const std::vector<Limit> &l, std::string *which = nullptr) {
    double w = -INF;
    for (auto &e : l) {
        double v = std::max(e.lo - e.v, e.v - e.hi);
        if (v > w) { w = v; if (which) *which = e.what; }
    }
    return w;
}

// limits around a trajectory: every finite one at a random distance from the values it covers; returns how many are finite
inline int genLimits(Src &s, LSpec &p, const Traj &t, double near = 0.01, bool fromStart = true) {
    auto &d = p.d;
    int n = 0;
    auto around = [&](double a, double b, double &lo, double &hi) {
        if (s.coin()) { lo = a - s.positive(near, 2); n++; }
        if (s.coin()) { hi = b + s.positive(near, 2); n++; }
    };
    auto range = [&](const MatD &v, int i, int k, double &lo, double &hi) {  // column k of a limit on steps 1..ph
        double a = v(i, k + 1), b = a;
        if (k == 0 && fromStart) { a = std::min(a, v(i, 0)); b = std::max(b, v(i, 0)); }
        around(a, b, lo, hi);
    };
    if (s.chance(2, 3)) for (int i = 0; i < d.nx; i++) for (int k = 0; k < d.ph; k++) range(t.X, i, k, p.xlo(i, k), p.xhi(i, k));
    if (s.chance(2, 3)) for (int i = 0; i < d.ny; i++) for (int k = 0; k < d.ph; k++) range(t.Y, i, k, p.ylo(i, k), p.yhi(i, k));
    if (s.chance(2, 3))
        for (int i = 0; i < d.nu; i++)
            for (int k = 0; k < d.ch; k++) {
                double a = t.U(i, k), b = a;
                if (k == 0) { a = std::min(a, t.last(i)); b = std::max(b, t.last(i)); }
                for (int q = k; q < d.ph && k == d.ch - 1; q++) { a = std::min(a, t.U(i, q)); b = std::max(b, t.U(i, q)); }
                around(a, b, p.ulo(i, k), p.uhi(i, k));
            }
    if (s.chance(2, 3)) {
        genScalar(s, p);
        MatD v(1, d.ph + 1);
        for (int k = 0; k <= d.ph; k++) v(0, k) = scalar(p, t, k);
        for (int k = 0; k < d.ph; k++) range(v, 0, k, p.slo(k), p.shi(k));
    }
    return n;
}

// the solver's variables: (x_k, u_{k-1}) for k = 0..ph, then the input rates
inline VecD pack(const LSpec &p, const Traj &t) {
    auto &d = p.d;
    int n = d.nx + d.nu;
    VecD z((d.ph + 1) * n + d.ph * d.nu);
    for (int k = 0; k <= d.ph; k++) {
        z.segment(k * n, d.nx) = t.X.col(k);
        z.segment(k * n + d.nx, d.nu) = k ? VecD(t.U.col(k - 1)) : t.last;
        if (k < d.ph) z.segment((d.ph + 1) * n + k * d.nu, d.nu) = t.dU.col(k);
    }
    return z;
}
inline double progObj(const fake::Program &g, const VecD &z) { return 0.5 * z.dot(g.P * z) + g.q.dot(z); }
inline bool isEq(const fake::Program &g, int r) { return g.l(r) == g.u(r); }
// largest violation over the rows, scaled by the magnitude of the row's terms
inline double rowsViolation(const fake::Program &g, const VecD &z, int *row = nullptr) {
    double w = -INF;
    for (int r = 0; r < g.A.rows(); r++) {
        double v = g.A.row(r).dot(z), e = std::max(g.l(r) - v, v - g.u(r));
        if (std::isnan(e)) e = INF;
        if (e > w) { w = e; if (row) *row = r; }
    }
    return w;
}

using DynL = mpc::LMPC<>;
inline std::unique_ptr<DynL> make(const LDims &d) { return std::make_unique<DynL>(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch); }
inline void quiet() { mpc::Logger::instance().setLevel(mpc::Logger::log_level::NONE); }

// configure a controller with the data of the specification, each part through a randomly chosen setter
template <class L>
void apply(Src &s, L &m, const LSpec &p, std::string *how = nullptr, unsigned parts = 0x1ff, bool again = false) {
    auto &d = p.d;
    auto note = [&](const char *t) { if (how) { *how += ' '; *how += t; } };
    auto req = [&](bool ok, const char *t) { PBT_CHECK(ok, "setter-refused", "%s refused valid data; %s", t, str(d).c_str()); };
    std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7, 8};
    for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[i - s.below(i + 1)]);
    auto steps = [&](int h, auto &&fn, auto &&same) {  // cover 0..h-1 by slices on which the data is constant
        if (s.coin()) {                                // random order of single steps
            std::vector<int> o(h);
            for (int i = 0; i < h; i++) o[i] = i;
            for (int i = h - 1; i > 0; i--) std::swap(o[i], o[i - (int)s.below(i + 1)]);
            for (int i : o) fn(i, i + 1);
            return;
        }
        for (int i = 0; i < h;) {
            int j = i + 1;
            while (j < h && same(i, j)) j++;
            fn(i, j);
            i = j;
        }
    };
    auto cs = [&](const MatD &a, const MatD &b, int i, int j) { return a.col(i) == a.col(j) && b.col(i) == b.col(j); };
    using Sl = mpc::HorizonSlice;
    for (int part : order)
        if (parts >> part & 1) switch (part) {
        case 0: req(m.setStateSpaceModel(p.A, p.B, p.C), "setStateSpaceModel"); break;
        case 1: if (d.ndu && (again || !p.Bd.isZero(0) || !p.Dd.isZero(0) || s.coin())) req(m.setDisturbances(p.Bd, p.Dd), "setDisturbances"); break;
        case 2:
            if (s.coin()) { note("W"); req(m.setObjectiveWeights(p.wy, p.wu, p.wd), "setObjectiveWeights"); }
            else { note("w"); steps(d.ph, [&](int i, int j) { req(m.setObjectiveWeights(VecD(p.wy.col(i)), VecD(p.wu.col(i)), VecD(p.wd.col(i)), Sl(i, j)), "setObjectiveWeights slice"); },
                       [&](int i, int j) { return cs(p.wy, p.wu, i, j) && cs(p.wd, p.wd, i, j); }); }
            break;
        case 3:
            if (s.coin()) { note("R"); req(m.setReferences(p.ry, p.ru, p.rd), "setReferences"); }
            else { note("r"); steps(d.ph, [&](int i, int j) { req(m.setReferences(VecD(p.ry.col(i)), VecD(p.ru.col(i)), VecD(p.rd.col(i)), Sl(i, j)), "setReferences slice"); },
                       [&](int i, int j) { return cs(p.ry, p.ru, i, j) && cs(p.rd, p.rd, i, j); }); }
            break;
        case 4:
            if (!d.ndu) break;
            if (s.coin()) { note("D"); req(m.setExogenousInputs(p.dist), "setExogenousInputs"); }
            else { note("d"); steps(d.ph, [&](int i, int j) { req(m.setExogenousInputs(VecD(p.dist.col(i)), Sl(i, j)), "setExogenousInputs slice"); }, [&](int i, int j) { return cs(p.dist, p.dist, i, j); }); }
            break;
        case 5:
            if (s.coin()) { note("X"); req(m.setStateBounds(p.xlo, p.xhi), "setStateBounds"); }
            else { note("x"); steps(d.ph, [&](int i, int j) { req(m.setStateBounds(VecD(p.xlo.col(i)), VecD(p.xhi.col(i)), Sl(i, j)), "setStateBounds slice"); }, [&](int i, int j) { return cs(p.xlo, p.xhi, i, j); }); }
            break;
        case 6:
            if (s.coin()) { note("U"); req(m.setInputBounds(p.ulo, p.uhi), "setInputBounds"); }
            else { note("u"); steps(d.ch, [&](int i, int j) { req(m.setInputBounds(VecD(p.ulo.col(i)), VecD(p.uhi.col(i)), Sl(i, j)), "setInputBounds slice"); }, [&](int i, int j) { return cs(p.ulo, p.uhi, i, j); }); }
            break;
        case 7:
            if (s.coin()) { note("Y"); req(m.setOutputBounds(p.ylo, p.yhi), "setOutputBounds"); }
            else { note("y"); steps(d.ph, [&](int i, int j) { req(m.setOutputBounds(VecD(p.ylo.col(i)), VecD(p.yhi.col(i)), Sl(i, j)), "setOutputBounds slice"); }, [&](int i, int j) { return cs(p.ylo, p.yhi, i, j); }); }
            break;
        case 8:
            steps(d.ph, [&](int i, int j) {
                    if (j == i + 1 && s.coin()) req(m.setScalarConstraint((unsigned)i, p.slo(i), p.shi(i), VecD(p.sx.col(i)), VecD(p.su.col(i))), "setScalarConstraint index");
                    else req(m.setScalarConstraint(p.slo(i), p.shi(i), VecD(p.sx.col(i)), VecD(p.su.col(i)), i == 0 && j == d.ph ? Sl::all() : Sl(i, j)), "setScalarConstraint slice");
                }, [&](int i, int j) { return p.slo(i) == p.slo(j) && p.shi(i) == p.shi(j) && p.sx.col(i) == p.sx.col(j) && p.su.col(i) == p.su.col(j); });
            break;
        }
}
// the same, sometimes on a controller that was already configured and used with data that differ in a few parts only
template <class L>
void applyAfter(Src &s, L &m, const LSpec &p, const VecD &x0, const VecD &last, std::string *how = nullptr) {
    auto &d = p.d;
    if (!s.chance(1, 3)) { apply(s, m, p, how); return; }
    LSpec o = p;
    unsigned other = 0;
    for (int part = 0; part < 9; part++) {
        if (!s.chance(1, 3)) continue;
        other |= 1u << part;
        auto box = [&](MatD &lo, MatD &hi) { lo = genMat(s, lo.rows(), lo.cols(), 3); hi = lo.array() + s.positive(0.1, 3); };
        switch (part) {
        case 0: o.A *= 0.5; o.B = genMat(s, d.nx, d.nu, 2); if (s.coin()) o.C = genMat(s, d.ny, d.nx, 2); break;
        case 1: if (s.coin()) o.Bd = genMat(s, d.nx, d.ndu, 2); else o.Dd = genMat(s, d.ny, d.ndu, 2); break;
        case 2: o.wy = genPos(s, d.ny, d.ph, false); if (s.coin()) o.wu = genPos(s, d.nu, d.ph, false); else o.wd = genPos(s, d.nu, d.ph, false); break;
        case 3: { MatD &r = s.coin() ? o.ry : s.coin() ? o.ru : o.rd; r = genMat(s, r.rows(), r.cols(), 4); break; }
        case 4: o.dist = genMat(s, d.ndu, d.ph, 3); break;
        case 5: box(o.xlo, o.xhi); break;
        case 6: box(o.ulo, o.uhi); break;
        case 7: box(o.ylo, o.yhi); break;
        case 8: for (int k = 0; k < d.ph; k++) { o.slo(k) = s.real(); o.shi(k) = o.slo(k) + s.positive(0.1, 3); } o.sx = genMat(s, d.nx, d.ph, 2); o.su = genMat(s, d.nu, d.ph, 2); break;
        }
    }
    apply(s, m, o, nullptr, 0x1ff, true);
    bool same = !s.chance(1, 4);  // often with the same measurement, so that only the settings differ
    m.optimize(same ? x0 : genV(s, d.nx, 3), same ? last : genV(s, d.nu, 3));
    if (how) *how += fmt(" (after other data %x%s)", other, same ? ", same measurement" : "");
    apply(s, m, p, how, s.coin() ? other : other | (unsigned)s.below(512), true);
}
inline void dump(Case &c, const LSpec &p) {
    std::ostringstream o;
    o << str(p.d);
#define ROW(n, m) o << "\n  " n " =\n" << m
    ROW("A", p.A); ROW("B", p.B); ROW("C", p.C); ROW("Bd", p.Bd); ROW("Dd", p.Dd);
    ROW("output weights", p.wy); ROW("input weights", p.wu); ROW("rate weights", p.wd);
    ROW("output references", p.ry); ROW("input references", p.ru); ROW("rate references", p.rd); ROW("disturbances", p.dist);
    ROW("state min", p.xlo); ROW("state max", p.xhi); ROW("input min", p.ulo); ROW("input max", p.uhi); ROW("output min", p.ylo); ROW("output max", p.yhi);
    ROW("scalar min", p.slo.transpose()); ROW("scalar max", p.shi.transpose()); ROW("scalar x", p.sx); ROW("scalar u", p.su);
#undef ROW
    c.trace = o.str();
}
inline void protocol() {
    if (!fake::st().errors.empty()) pbt::fail("solver-protocol", fake::st().errors[0]);
}
}  // namespace lin
