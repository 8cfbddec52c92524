// U04: discretisation returns the zero-order-hold equivalent.
#include "../harness/pbt.hpp"
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
using namespace pbt;
using LD = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using MatD = Eigen::MatrixXd;

// scaled Taylor series in extended precision
static LD expmRef(LD M) {
    long double nrm = M.cwiseAbs().rowwise().sum().maxCoeff();
    int k = 0;
    while (nrm > 0.25L) { nrm /= 2; k++; }
    M /= std::pow(2.0L, k);
    LD r = LD::Identity(M.rows(), M.cols()), t = r;
    for (int i = 1; i < 30; i++) { t = t * M / (long double)i; r += t; }
    for (int i = 0; i < k; i++) r = r * r;
    return r;
}

static std::string ms(const MatD &m) {
    std::ostringstream o;
    o << "[";
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o << (i + j ? " " : "") << m(i, j);
    o << "]";
    return o.str();
}

template <size_t NX, size_t NU, size_t ND, size_t NY>
static void prop(Src &s, Case &c) {
    mpc::mat<NX, NX> A;
    mpc::mat<NX, NU> B;
    mpc::mat<NX, ND> Be;
    mpc::mat<NY, NX> C;
    mpc::mat<NY, NU> D;
    int kind = (int)s.below(4);  // dense, integrator chain, singular, diagonal
    double sc = s.positive(0.1, 10);
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++) {
            double v = s.real(2) * sc;
            A(i, j) = kind == 0 ? v : kind == 1 ? (j == i + 1 ? 1.0 : 0.0) : kind == 2 ? (i + 1 == NX ? 0.0 : v) : (i == j ? v : 0.0);
        }
    for (size_t i = 0; i < NX; i++) {
        for (size_t j = 0; j < NU; j++) B(i, j) = s.real(3);
        for (size_t j = 0; j < ND; j++) Be(i, j) = s.real(3);
    }
    for (size_t i = 0; i < NY; i++) {
        for (size_t j = 0; j < NX; j++) C(i, j) = s.real(3);
        for (size_t j = 0; j < NU; j++) D(i, j) = s.real(3);
    }
    double T = s.chance(1, 12) ? 0.0 : s.positive(1e-4, 1.0) / (1 + A.cwiseAbs().rowwise().sum().maxCoeff() * 0.3);
    constexpr size_t n = NX + NU + ND;
    LD M = LD::Zero(n, n);
    M.block(0, 0, NX, NX) = A.template cast<long double>();
    M.block(0, NX, NX, NU) = B.template cast<long double>();
    M.block(0, NX + NU, NX, ND) = Be.template cast<long double>();
    M *= (long double)T;
    LD R = expmRef(M);
    double mag = (double)expmRef(M.cwiseAbs()).maxCoeff();
    MatD AdR = R.block(0, 0, NX, NX).cast<double>(), BdR = R.block(0, NX, NX, NU).cast<double>(), BeR = R.block(0, NX + NU, NX, ND).cast<double>();
    double tol = 2e-13 * mag * (1 + mag);
    auto cmp = [&](const MatD &got, const MatD &want, const char *sig) {
        for (int i = 0; i < got.rows(); i++)
            for (int j = 0; j < got.cols(); j++)
                PBT_CHECK(std::abs(got(i, j) - want(i, j)) <= tol, sig, "nx=%zu nu=%zu nd=%zu ny=%zu A=%s T=%.17g: %s(%d,%d) is %.15g, exact %.15g (tolerance %g)", NX, NU, ND, NY, ms(A).c_str(), T, sig, i, j, got(i, j), want(i, j), tol);
    };
    mpc::mat<NX, NX> Ad;
    mpc::mat<NX, NU> Bd;
    mpc::mat<NX, ND> Bed;
    Ad.setConstant(9); Bd.setConstant(9); Bed.setConstant(9);
    mpc::discretization<NX, NU>(A, B, T, Ad, Bd);
    cmp(Ad, AdR, "Ad");
    cmp(Bd, BdR, "Bd");
    if (T == 0) PBT_CHECK(Ad.isIdentity(0) && Bd.isZero(0), "zero-time", "zero sampling time is not the identity");
    Ad.setConstant(9); Bd.setConstant(9);
    mpc::discretization<NX, NU, ND>(A, B, Be, T, Ad, Bd, Bed);
    cmp(Ad, AdR, "Ad-disturbance");
    cmp(Bd, BdR, "Bd-disturbance");
    cmp(Bed, BeR, "Bed");
    // output matrices pass through, also when outputs and states differ in number
    mpc::mat<NY, NX> Cd;
    mpc::mat<NY, NU> Dd;
    Ad.setConstant(9); Bd.setConstant(9); Cd.setConstant(9); Dd.setConstant(9);
    if constexpr (requires { mpc::discretization<NX, NU, NY>(A, B, C, D, T, Ad, Bd, Cd, Dd); }) {
        mpc::discretization<NX, NU, NY>(A, B, C, D, T, Ad, Bd, Cd, Dd);
        cmp(Ad, AdR, "Ad-output");
        cmp(Bd, BdR, "Bd-output");
        PBT_CHECK((Cd.array() == C.array()).all() && (Dd.array() == D.array()).all(), "output-matrices", "output matrices changed");
    } else
        fail("output-overload", fmt("the overload with output matrices does not accept a feedforward matrix of %zu x %zu with %zu states", NY, NU, NX));
    // sampling twice is sampling at the doubled time
    mpc::mat<NX, NX> A2;
    mpc::mat<NX, NU> B2;
    mpc::discretization<NX, NU>(A, B, 2 * T, A2, B2);
    double mag2 = (double)expmRef(2 * M.cwiseAbs()).maxCoeff();
    tol = 2e-13 * mag2 * (1 + mag2);
    cmp(Ad * Ad, A2, "semigroup-A");
    cmp(Ad * Bd + Bd, B2, "semigroup-B");
    c.nontrivial = T > 0 && NX >= 2 && kind != 3;
    static const char *kn[] = {"dense", "integrators", "singular", "diagonal"};
    c.label(kn[kind]);
    if (T == 0) c.label("zero-time");
    if (c.wantSample) c.sample = fmt("nx=%zu nu=%zu nd=%zu ny=%zu A=%s T=%g", NX, NU, ND, NY, ms(A).c_str(), T);
}

void pbt_register(pbt::Runner &r) {
    r.add("systems", [](Src &s, Case &c) {
        switch (s.below(6)) {
        case 0: return prop<1, 1, 1, 2>(s, c);
        case 1: return prop<2, 1, 1, 1>(s, c);
        case 2: return prop<3, 2, 2, 2>(s, c);
        case 3: return prop<2, 3, 1, 3>(s, c);
        case 4: return prop<4, 1, 3, 1>(s, c);
        default: return prop<3, 3, 3, 3>(s, c);
        }
    }, 60000, 3000000, "positive sampling time, at least two states, not diagonal", 0.4);
}
PBT_MAIN("U04")
