// L05: with an exact solver the returned solution is the optimum of the documented problem.
#include "../harness/lin.hpp"
using namespace lin;

static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 3, 6, 100, 5, 12));
    auto &d = p.d;
    genModel(s, p);
    genCost(s, p, true);
    int N = d.nu * d.ch;
    auto m = make(d);
    std::string how;
    bool first = true, active = false;
    VecD x0, last;
    int runs = s.irange(1, 3), solved = 0, fin = 0;
    for (int k = 0; k < runs; k++) {
        if (!k || s.coin()) x0 = genV(s, d.nx, 4), last = genV(s, d.nu, 2);
        auto spread = [&](const VecD &v) {
            MatD U(d.nu, d.ph);
            for (int q = 0; q < d.ph; q++) U.col(q) = v.segment(std::min(q, d.ch - 1) * d.nu, d.nu);
            return U;
        };
        if (!first && s.coin()) genCost(s, p, true);
        {
            LSpec q(d);  // forget the old limits
            p.xlo = q.xlo; p.xhi = q.xhi; p.ulo = q.ulo; p.uhi = q.uhi; p.ylo = q.ylo; p.yhi = q.yhi;
            p.slo = q.slo; p.shi = q.shi; p.sx = q.sx; p.su = q.su;
        }
        if (!s.chance(1, 5)) fin = genLimits(s, p, simulate(p, x0, last, spread(genV(s, N, 3))), 0.05);
        apply(s, *m, p, &how);
        dump(c, p);
        // the documented problem in the free inputs: everything is affine in them
        Traj b = simulate(p, x0, last, spread(VecD::Zero(N)));
        std::vector<Traj> e;
        for (int j = 0; j < N; j++) e.push_back(simulate(p, x0, last, spread(VecD::Unit(N, j))));
        auto flat = [&](const Traj &t) {
            std::vector<double> v, w, r;
            VecD o((d.ph + 1) * d.ny + 2 * d.ph * d.nu);
            int at = 0;
            for (int q = 0; q <= d.ph; q++) { o.segment(at, d.ny) = t.Y.col(q); at += d.ny; }
            for (int q = 0; q < d.ph; q++) { o.segment(at, d.nu) = t.U.col(q); at += d.nu; o.segment(at, d.nu) = t.dU.col(q); at += d.nu; }
            return o;
        };
        VecD w((d.ph + 1) * d.ny + 2 * d.ph * d.nu), r(w.size());
        int at = 0;
        for (int q = 0; q <= d.ph; q++) { int y = q ? q - 1 : 0; w.segment(at, d.ny) = p.wy.col(y); r.segment(at, d.ny) = p.ry.col(y); at += d.ny; }
        for (int q = 0; q < d.ph; q++) {
            w.segment(at, d.nu) = p.wu.col(q); r.segment(at, d.nu) = p.ru.col(q); at += d.nu;
            w.segment(at, d.nu) = p.wd.col(q); r.segment(at, d.nu) = p.rd.col(q); at += d.nu;
        }
        VecD f0 = flat(b);
        MatD J(f0.size(), N);
        for (int j = 0; j < N; j++) J.col(j) = flat(e[j]) - f0;
        MatD H = 2 * J.transpose() * w.asDiagonal() * J;
        VecD g = 2 * J.transpose() * (w.cwiseProduct(f0 - r));
        auto l0 = limits(p, b);
        std::vector<std::vector<Limit>> le;
        for (auto &t : e) le.push_back(limits(p, t));
        std::vector<VecD> rows;
        std::vector<double> rhs;
        for (size_t i = 0; i < l0.size(); i++) {
            VecD a(N);
            for (int j = 0; j < N; j++) a(j) = le[j][i].v - l0[i].v;
            if (a.cwiseAbs().maxCoeff() < 1e-12) continue;  // does not depend on the inputs, holds by construction
            if (l0[i].hi < 1e20) { rows.push_back(a); rhs.push_back(l0[i].hi - l0[i].v); }
            if (l0[i].lo > -1e20) { rows.push_back(-a); rhs.push_back(l0[i].v - l0[i].lo); }
        }
        MatD C(rows.size(), N);
        for (size_t i = 0; i < rows.size(); i++) C.row(i) = rows[i].transpose();
        auto ref = qp::solve(H / p.cs, g / p.cs, MatD(0, N), VecD(), C, Eigen::Map<VecD>(rhs.data(), rhs.size()), 1e-11, 200);
        if (!ref.ok) { c.label("reference did not converge"); continue; }
        Traj best = simulate(p, x0, last, spread(ref.x));
        double bestCost = cost(p, best);

        fake::st().script = [](const fake::Program &) { return fake::Outcome(); };
        auto res = m->optimize(x0, last);
        auto seq = m->getOptimalSequence();
        protocol();
        first = false;
        std::string at2 = fmt("optimisation %d, setters%s; %s", k, how.c_str(), str(d).c_str());
        if (res.status != mpc::ResultStatus::SUCCESS) {
            // the interior-point solver may fail on the larger formulation, but infeasibility of a known-feasible problem must not happen
            const fake::Program &g2 = fake::st().runs.back();
            int row;
            double v = rowsViolation(g2, pack(p, best), &row);
            PBT_CHECK(v < 1e-5, "excluded", "the program excludes the best admissible trajectory by %g in row %d; %s", v, row, at2.c_str());
            c.label("stand-in did not converge");
            continue;
        }
        solved++;
        Traj got = simulate(p, x0, last, MatD(MatD(seq.input).topRows(d.ph).transpose()));
        double us = 1 + best.U.cwiseAbs().maxCoeff(), xs = 1 + best.X.cwiseAbs().maxCoeff(), ys = 1 + best.Y.cwiseAbs().maxCoeff();
        PBT_CHECK((got.X - MatD(seq.state).transpose()).cwiseAbs().maxCoeff() < 1e-5 * xs, "model", "the returned states do not follow the model from the returned inputs; %s", at2.c_str());
        PBT_CHECK((got.Y - MatD(seq.output).transpose()).cwiseAbs().maxCoeff() < 1e-5 * ys, "outputs", "the returned outputs are not those of the model; %s", at2.c_str());
        std::string where;
        double v = worst(limits(p, got), &where);
        PBT_CHECK(v < 1e-5 * std::max({us, xs, ys}), "limit", "the returned solution violates %s by %g; %s", where.c_str(), v, at2.c_str());
        for (int q = d.ch; q < d.ph; q++) PBT_CHECK((got.U.col(q) - got.U.col(q - 1)).cwiseAbs().maxCoeff() < 1e-6 * us, "hold", "the returned input moves at step %d; %s", q, at2.c_str());
        double mg, gc = cost(p, got, &mg);
        PBT_CHECK(gc <= bestCost + 1e-6 * (p.cs + mg), "not-optimal", "documented cost %.10g, an admissible trajectory reaches %.10g; %s", gc, bestCost, at2.c_str());
        PBT_CHECK((got.U - best.U).cwiseAbs().maxCoeff() < 1e-3 * us, "solution", "the returned inputs differ from the optimum by %g; %s", (got.U - best.U).cwiseAbs().maxCoeff(), at2.c_str());
        PBT_CHECK((VecD(res.cmd) - best.U.col(0)).cwiseAbs().maxCoeff() < 1e-3 * us, "command", "the command differs from the optimum by %g; %s", (VecD(res.cmd) - best.U.col(0)).cwiseAbs().maxCoeff(), at2.c_str());
        PBT_CHECK(res.is_feasible, "feasible", "the solution is reported as not feasible; %s", at2.c_str());
        for (auto &l : limits(p, best)) active |= std::min(l.v - l.lo, l.hi - l.v) < 1e-5;
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = solved && fin > 2;
    c.label(active ? "active limits" : "no active limit");
    if (runs > 1) c.label("several optimisations");
    if (c.wantSample) c.sample = fmt("%s, %d finite limits, %d optimisations", str(d).c_str(), fin, solved);
}
void pbt_register(pbt::Runner &r) {
    r.add("optimum", prop, 30000, 600000, "solved with at least three finite limits", 0.4);
}
PBT_MAIN("L05")
