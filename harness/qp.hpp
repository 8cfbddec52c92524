// A dense primal-dual interior-point solver for small convex quadratic programs, used as an independent reference.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <limits>

namespace qp {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
struct Out {
    bool ok = false;
    V x, y, z;  // primal, multipliers of E x = f, multipliers of C x <= d
    double obj = 0, res = 0;
};
// minimise 1/2 x'Hx + g'x subject to E x = f, C x <= d (H positive semidefinite)
inline Out solve(const M &H, const V &g, const M &E, const V &f, const M &C, const V &d, double tol = 1e-10, int maxit = 100) {
    int n = (int)g.size(), m = (int)f.size(), p = (int)d.size();
    Out o;
    V x = V::Zero(n), y = V::Zero(m), z = V::Ones(p), s = V::Ones(p);
    {
        // start from the regularised equality-constrained minimiser
        M K = M::Zero(n + m, n + m);
        K.topLeftCorner(n, n) = H + (p ? M(C.transpose() * C) : M::Zero(n, n)) + 1e-9 * M::Identity(n, n);
        K.topRightCorner(n, m) = E.transpose();
        K.bottomLeftCorner(m, n) = E;
        V r(n + m);
        r << (p ? V(C.transpose() * d - g) : V(-g)), f;
        V w = K.fullPivLu().solve(r);
        x = w.head(n);
        y = w.tail(m);
        if (p) {
            V sl = d - C * x;
            double sh = std::max(0.0, -1.5 * sl.minCoeff());
            s = sl.array() + sh + 1.0;
        }
    }
    double scale = 1 + std::max(g.size() ? g.cwiseAbs().maxCoeff() : 0, H.size() ? H.cwiseAbs().maxCoeff() : 0);
    double pscale = 1 + std::max(m ? f.cwiseAbs().maxCoeff() : 0, p ? d.cwiseAbs().maxCoeff() : 0);
    for (int it = 0; it < maxit; it++) {
        V rd = H * x + g + E.transpose() * y;
        if (p) rd += C.transpose() * z;
        V re = E * x - f;
        V rp = p ? V(C * x + s - d) : V();
        double mu = p ? s.dot(z) / p : 0;
        double e = std::max(rd.cwiseAbs().maxCoeff() / scale, std::max(m ? re.cwiseAbs().maxCoeff() / pscale : 0, p ? rp.cwiseAbs().maxCoeff() / pscale : 0));
        e = std::max(e, mu / scale);
        o.res = e;
        if (e < tol) { o.ok = true; break; }
        auto dir = [&](const V &rc, V &dx, V &dy, V &dz, V &ds) {
            M K = M::Zero(n + m, n + m);
            K.topLeftCorner(n, n) = H;
            V r(n + m);
            r << -rd, -re;
            if (p) {
                V w = z.cwiseQuotient(s);
                K.topLeftCorner(n, n) += C.transpose() * w.asDiagonal() * C;
                r.head(n) -= C.transpose() * ((rc + z.cwiseProduct(rp)).cwiseQuotient(s));
            }
            K.topRightCorner(n, m) = E.transpose();
            K.bottomLeftCorner(m, n) = E;
            K.diagonal().head(n).array() += 1e-13;
            Eigen::PartialPivLU<M> lu(K);
            V w = lu.solve(r);
            w += lu.solve(r - K * w);
            dx = w.head(n);
            dy = w.tail(m);
            if (p) {
                ds = -rp - C * dx;
                dz = (rc - z.cwiseProduct(ds)).cwiseQuotient(s);
            }
        };
        auto step = [&](const V &dz, const V &ds) {
            double a = 1;
            for (int i = 0; i < p; i++) {
                if (dz(i) < 0) a = std::min(a, -z(i) / dz(i));
                if (ds(i) < 0) a = std::min(a, -s(i) / ds(i));
            }
            return a;
        };
        V dx, dy, dz, ds;
        if (!p) {
            dir(V(), dx, dy, dz, ds);
            x += dx;
            y += dy;
            continue;
        }
        dir(-s.cwiseProduct(z), dx, dy, dz, ds);
        double a = step(dz, ds);
        double muAff = (s + a * ds).dot(z + a * dz) / p, sig = std::pow(muAff / mu, 3);
        dir(V(-(s.cwiseProduct(z) + ds.cwiseProduct(dz)).array() + sig * mu), dx, dy, dz, ds);
        a = std::min(1.0, 0.995 * step(dz, ds));
        x += a * dx; y += a * dy; z += a * dz; s += a * ds;
        if (!x.allFinite()) break;
    }
    o.x = x; o.y = y; o.z = z;
    o.obj = 0.5 * x.dot(H * x) + g.dot(x);
    return o;
}
}  // namespace qp
