// N01: the optimiser's decision vector is read as the documented physical trajectories.
#include "../harness/nl.hpp"
using namespace nl;

template <mpc::MPCSize SZ>
static void prop(Src &s, Case &c, Dims d) {
    Spec p;
    p.d = d;
    p.sx = VecD::Ones(d.nx);
    p.su = VecD::Ones(d.nu);
    auto map = std::make_shared<mpc::Mapping<SZ>>();
    map->initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq);
    int rounds = s.irange(1, 3);
    bool scaled = false;
    for (int r = 0; r < rounds; r++) {
        // any sequence of scale changes: the last one counts
        int k = s.irange(0, 2);
        for (int i = 0; i < k; i++) {
            double lim = s.chance(1, 4) ? 1e9 : 1e3;
            if (s.coin()) {
                for (int j = 0; j < d.nx; j++) p.sx(j) = s.positive(1 / lim, lim);
                map->setStateScaling(p.sx);
            } else {
                for (int j = 0; j < d.nu; j++) p.su(j) = s.positive(1 / lim, lim);
                map->setInputScaling(p.su);
            }
            scaled = true;
        }
        VecD z = genVec(s, d.nz(), 1.0), x0 = genVec(s, d.nx, 3);
        double big = s.chance(1, 4) ? 1e6 : 1.0;
        z *= big;
        mpc::mat<SZ.ph + 1, SZ.nx> X;
        mpc::mat<SZ.ph + 1, SZ.nu> U;
        X.resize(d.ph + 1, d.nx);
        U.resize(d.ph + 1, d.nu);
        X.setConstant(77);
        U.setConstant(77);
        double e = -1;
        map->unwrapVector(z, x0, X, U, e);
        std::vector<double> zs(z.data(), z.data() + z.size());
        G<double> Xr, Ur;
        double er;
        p.unwrap<double>(zs, x0, Xr, Ur, er);
        for (int i = 0; i <= d.ph; i++) {
            for (int j = 0; j < d.nx; j++)
                PBT_CHECK(std::abs(X(i, j) - Xr(i, j)) <= 1e-12 * (1e-3 + std::abs(Xr(i, j))), i ? "state-row" : "initial-state-row",
                          "%s: state row %d entry %d is %.17g, expected %.17g", d.str().c_str(), i, j, X(i, j), Xr(i, j));
            for (int j = 0; j < d.nu; j++)
                PBT_CHECK(std::abs(U(i, j) - Ur(i, j)) <= 1e-12 * (1e-3 + std::abs(Ur(i, j))), i < d.ch ? "input-row" : "held-input-row",
                          "%s: input row %d entry %d is %.17g, expected %.17g", d.str().c_str(), i, j, U(i, j), Ur(i, j));
        }
        PBT_CHECK(e == er, "slack", "slack is %.17g, expected %.17g", e, er);
        // the two input maps are inverse to each other on the free moves, and expose the scales
        MatD I = map->Iu2z() * map->Iz2u();
        PBT_CHECK((I - MatD::Identity(d.nu * d.ch, d.nu * d.ch)).cwiseAbs().maxCoeff() < 1e-12, "left-inverse", "%s: the inverse input map does not undo the input map", d.str().c_str());
        for (int j = 0; j < d.nx; j++) {
            PBT_CHECK(map->StateScaling()(j) == p.sx(j), "state-scale", "state scale not reported");
            PBT_CHECK(std::abs(map->StateInverseScaling()(j) * p.sx(j) - 1) < 1e-12, "inv-state-scale", "inverse state scale wrong");
        }
        for (int j = 0; j < d.nu; j++) {
            PBT_CHECK(map->InputScaling()(j) == p.su(j), "input-scale", "input scale not reported");
            PBT_CHECK(std::abs(map->Sz2u()(j, j) - p.su(j)) < 1e-12 * p.su(j) && std::abs(map->Su2z()(j, j) * p.su(j) - 1) < 1e-12, "scale-matrix", "scale matrices wrong");
        }
    }
    if (d.ph > 9) c.label("large");
    c.nontrivial = d.ph >= 2 && (scaled || d.ch < d.ph);
    if (d.ch < d.ph) c.label("held");
    if (scaled) c.label("scaled");
    if (d.ph == 1) c.label("ph1");
    if (d.ch == 1) c.label("ch1");
    if (c.wantSample) c.sample = d.str() + " sx=" + vstr(p.sx) + " su=" + vstr(p.su);
}

void pbt_register(pbt::Runner &r) {
    std::string rule = "prediction horizon >= 2 and a non-unit scale was set or the control horizon is shorter";
    r.add("runtime-sized", [](Src &s, Case &c) { prop<DYN>(s, c, genDims(s, 9, 4, 100, 60, 12)); }, 300000, 8000000, rule, 0.4);
    r.add("fixed-sized", [](Src &s, Case &c) {
        Dims d;
        d.ny = 1;
        switch (s.below(4)) {
        case 0: d.nx = 2; d.nu = 1; d.ph = 4; d.ch = 2; return prop<mpc::MPCSize(2, 1, 0, 1, 4, 2, 0, 0)>(s, c, d);
        case 1: d.nx = 1; d.nu = 3; d.ph = 5; d.ch = 5; return prop<mpc::MPCSize(1, 3, 0, 1, 5, 5, 0, 0)>(s, c, d);
        case 2: d.nx = 3; d.nu = 2; d.ph = 6; d.ch = 1; return prop<mpc::MPCSize(3, 2, 0, 1, 6, 1, 0, 0)>(s, c, d);
        default: d.nx = 2; d.nu = 2; d.ph = 1; d.ch = 1; return prop<mpc::MPCSize(2, 2, 0, 1, 1, 1, 0, 0)>(s, c, d);
        }
    }, 150000, 4000000, rule, 0.4);
}
PBT_MAIN("N01")
