// Independent reference model of the MPS scheme (brute force, long double), written from the documented
// equations.  No header of MPS-Basic is used here.
#pragma once

#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

namespace ref {

using R = long double;

struct V {
    R x = 0, y = 0, z = 0;
};
inline V operator+(V a, V b) {
    return {a.x + b.x, a.y + b.y, a.z + b.z};
}
inline V operator-(V a, V b) {
    return {a.x - b.x, a.y - b.y, a.z - b.z};
}
inline V operator*(V a, R k) {
    return {a.x * k, a.y * k, a.z * k};
}
inline R dot(V a, V b) {
    return a.x * b.x + a.y * b.y + a.z * b.z;
}
inline R norm(V a) {
    return std::sqrt(dot(a, a));
}
inline V absv(V a) {
    return {std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)};
}

enum Type { Ghost = 0, Fluid = 1, Wall = 2, Dummy = 3 };
enum State { Ignored = 0, FreeSurface = 1, SubFreeSurface = 2, Inner = 3, Splash = 4 };

struct P {
    int type      = Fluid;
    int fluidType = 0;
    V x, v;
    R rho = 1000;
};

struct Params {
    int dim  = 2;
    R l0     = 0.1;
    R dt     = 0.001;
    R nu     = 0;
    V g;
    R thr    = 0.97;
    bool dist = false;
    R distThr = 1;
    bool implicit = true;
    R compress = 0.45e-9L, relax = 0.2L, c = 10;
    R colDist = 0, e = 0;
    R reN = 0.31L, reG = 0.21L, reL = 0.31L;
    V lo, hi;
    R cfl = 0.3L;
    R reMax() const {
        return std::max({reN, reG, reL});
    }
};

inline R weight(R r, R re) {
    return r >= re ? 0 : re / r - 1;
}

struct RefVal {
    R n0 = 0, lambda = 0;
};
/// sums over every lattice point inside the radius
inline RefVal refValues(int dim, R l0, R re) {
    RefVal r;
    int m  = (int) std::ceil(re / l0) + 1;
    int mz = dim == 3 ? m : 0;
    for (int i = -m; i <= m; i++)
        for (int j = -m; j <= m; j++)
            for (int k = -mz; k <= mz; k++) {
                if (!i && !j && !k)
                    continue;
                R d2 = ((R) i * i + (R) j * j + (R) k * k) * l0 * l0;
                R w  = weight(std::sqrt(d2), re);
                r.n0 += w;
                r.lambda += w * d2;
            }
    r.lambda /= r.n0;
    return r;
}

/// smallest relative distance of any discrete decision to its threshold
struct Margin {
    R m = 1;
    void see(R a) {
        a = std::fabs(a);
        if (!(a >= m))
            m = a;
    }
    bool ambiguous() const {
        return !(m > 1e-9L);
    }
};

inline bool inside(const V& x, const Params& p) {
    return p.lo.x <= x.x && x.x <= p.hi.x && p.lo.y <= x.y && x.y <= p.hi.y && p.lo.z <= x.z && x.z <= p.hi.z;
}

/// turns particles outside the domain into ghosts.  `fixed`: coordinates that equal this earlier state exactly are exact.
inline void ghosts(std::vector<P>& s, const Params& p, Margin& mg, const std::vector<P>* fixed = nullptr) {
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost)
            continue;
        const R* a[3]  = {&s[i].x.x, &s[i].x.y, &s[i].x.z};
        const R lo[3]  = {p.lo.x, p.lo.y, p.lo.z};
        const R hi[3]  = {p.hi.x, p.hi.y, p.hi.z};
        for (int k = 0; k < 3; k++) {
            if (fixed) {
                const V& f   = (*fixed)[i].x;
                const R fx[3] = {f.x, f.y, f.z};
                if (*a[k] == fx[k])
                    continue;
                mg.see((*a[k] - lo[k]) / p.l0);
                mg.see((*a[k] - hi[k]) / p.l0);
            }
        }
        if (!inside(s[i].x, p))
            s[i].type = Ghost;
    }
}

struct Nb {
    int j;
    R d;
};
inline std::vector<std::vector<Nb>> neighbours(const std::vector<P>& s, R re, Margin* mg, const std::vector<R>& radii = {}) {
    std::vector<std::vector<Nb>> nb(s.size());
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost)
            continue;
        for (size_t j = 0; j < i; j++) {
            if (s[j].type == Ghost)
                continue;
            R d = norm(s[j].x - s[i].x);
            if (mg) {
                for (R r : radii)
                    mg->see(r > 0 ? (d - r) / r : 1);
                mg->see((d - re) / re);
            }
            if (d < re) {
                nb[i].push_back({(int) j, d});
                nb[j].push_back({(int) i, d});
            }
        }
    }
    for (auto& v : nb)
        std::sort(v.begin(), v.end(), [](const Nb& a, const Nb& b) { return a.j < b.j; });
    return nb;
}

/// gravity + viscosity + move.  Returns the state after the move; tolX/tolV: rounding scale per particle.
inline std::vector<P> predict(const std::vector<P>& s, const Params& p, Margin& mg, std::vector<R>* tolV = nullptr) {
    RefVal rv = refValues(p.dim, p.l0, p.reL);
    auto nb   = neighbours(s, p.reL, &mg);
    R a       = p.nu * 2 * p.dim / (rv.n0 * rv.lambda);
    auto o    = s;
    if (tolV)
        tolV->assign(s.size(), 0);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type != Fluid)
            continue;
        V acc   = p.g;
        V visc;
        R mag = norm(p.g);
        for (auto& n : nb[i]) {
            R w = weight(n.d, p.reL);
            visc = visc + (s[n.j].v - s[i].v) * w;
            mag += a * w * (norm(s[n.j].v) + norm(s[i].v)) * (1 + p.reL / n.d);
            // the weight of a neighbour next to the radius is a difference of almost equal numbers
            mag += 0.02L * a * (p.reL / n.d) * (1 + (norm(s[i].x) + norm(s[n.j].x)) / n.d) * (norm(s[n.j].v) + norm(s[i].v));
        }
        acc    = acc + visc * a;
        o[i].v = s[i].v + acc * p.dt;
        o[i].x = s[i].x + o[i].v * p.dt;
        if (tolV)
            (*tolV)[i] = mag * p.dt + norm(s[i].v);
    }
    return o;
}

struct ColInfo {
    int pairs = 0, approaching = 0;
    bool multiple = false; ///< some particle takes part in more than one pair: the outcome depends on the order
};
/// collision phase for states in which no particle is in more than one pair
inline std::vector<P> collide(const std::vector<P>& s, const Params& p, Margin& mg, ColInfo& ci) {
    auto o = s;
    std::vector<int> cnt(s.size(), 0);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost)
            continue;
        for (size_t j = 0; j < i; j++) {
            if (s[j].type == Ghost || (s[i].type != Fluid && s[j].type != Fluid))
                continue;
            R d = norm(s[j].x - s[i].x);
            if (p.colDist > 0)
                mg.see((d - p.colDist) / p.colDist);
            if (!(d < p.colDist) || !(d < p.reMax()))
                continue;
            ci.pairs++;
            cnt[i]++;
            cnt[j]++;
            R wi = s[i].type == Fluid ? 1 / s[i].rho : 0, wj = s[j].type == Fluid ? 1 / s[j].rho : 0;
            R m  = 1 / (wi + wj);
            V n  = (s[j].x - s[i].x) * (1 / d);
            R rv = dot(s[j].v - s[i].v, n);
            if (rv < 0) {
                ci.approaching++;
                R J    = -(1 + p.e) * rv * m;
                o[i].v = o[i].v - n * (J * wi);
                o[j].v = o[j].v + n * (J * wj);
            }
            R dep  = (p.colDist - d) * m;
            o[i].x = o[i].x - n * (dep * wi);
            o[j].x = o[j].x + n * (dep * wj);
        }
    }
    for (size_t i = 0; i < s.size(); i++)
        if (cnt[i] > 1 && !(s[i].type != Fluid)) // a wall hit by several particles is order independent
            ci.multiple = true;
    return o;
}

inline std::vector<R> numberDensity(const std::vector<P>& s, R reN, std::vector<R>* tol = nullptr) {
    std::vector<R> n(s.size(), 0);
    if (tol)
        tol->assign(s.size(), 0);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost)
            continue;
        for (size_t j = 0; j < s.size(); j++) {
            if (j == i || s[j].type == Ghost)
                continue;
            V r = s[j].x - s[i].x;
            R d = norm(r);
            R w = weight(d, reN);
            n[i] += w;
            if (tol && w > 0)
                (*tol)[i] += (reN / d) * (1 + (norm(s[i].x) + norm(s[j].x)) / d);
        }
    }
    return n;
}

inline std::vector<int> classify(
    const std::vector<P>& s, const Params& p, const std::vector<R>& n, Margin& mg, R n0
) {
    std::vector<int> b(s.size(), Ignored);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost || s[i].type == Dummy)
            continue;
        mg.see((n[i] - p.thr * n0) / n0);
        bool surf = n[i] < p.thr * n0;
        if (surf && p.dist) {
            V sum;
            int k = 0;
            for (size_t j = 0; j < s.size(); j++) {
                if (j == i || s[j].type == Ghost)
                    continue;
                V r = s[j].x - s[i].x;
                R d = norm(r);
                mg.see((d - p.reMax()) / p.reMax());
                if (d < p.reMax()) {
                    sum = sum + r;
                    k++;
                }
            }
            if (k) {
                R t = p.distThr * p.l0;
                V a = absv(sum);
                mg.see((a.x - t) / p.l0);
                mg.see((a.y - t) / p.l0);
                if (p.dim == 3 || a.z != 0)
                    mg.see((a.z - t) / p.l0);
                surf = a.x > t || a.y > t || a.z > t;
            }
        }
        b[i] = surf ? FreeSurface : Inner;
    }
    return b;
}

struct Pressure {
    std::vector<R> p;  ///< after clipping
    std::vector<R> raw;
    R tol = 0;         ///< absolute error a backward-stable iterative solve may leave
    R maxAbs = 0;
    R inv    = 0; ///< ||A^-1||, maximum norm
    R rowMax = 0; ///< ||A||, maximum norm
    bool ok = true;
    R kappa() const {
        return inv * rowMax;
    }
};

inline bool solveDense(std::vector<std::vector<R>>& A, std::vector<std::vector<R>>& B) {
    size_t n = A.size();
    for (size_t k = 0; k < n; k++) {
        size_t piv = k;
        for (size_t i = k + 1; i < n; i++)
            if (std::fabs(A[i][k]) > std::fabs(A[piv][k]))
                piv = i;
        if (A[piv][k] == 0 || !std::isfinite(A[piv][k]))
            return false;
        std::swap(A[k], A[piv]);
        for (auto& b : B)
            std::swap(b[k], b[piv]);
        for (size_t i = k + 1; i < n; i++) {
            R f = A[i][k] / A[k][k];
            if (f == 0)
                continue;
            for (size_t j = k; j < n; j++)
                A[i][j] -= f * A[k][j];
            for (auto& b : B)
                b[i] -= f * b[k];
        }
    }
    for (auto& b : B)
        for (size_t i = n; i-- > 0;) {
            R t = b[i];
            for (size_t j = i + 1; j < n; j++)
                t -= A[i][j] * b[j];
            b[i] = t / A[i][i];
        }
    return true;
}

/// pressure Poisson equation.  n: number densities, b: classification
inline Pressure implicitPressure(
    const std::vector<P>& s, const Params& p, const std::vector<R>& n, const std::vector<int>& b
) {
    Pressure out;
    RefVal rn = refValues(p.dim, p.l0, p.reN), rl = refValues(p.dim, p.l0, p.reL);
    std::vector<int> idx(s.size(), -1), inner;
    for (size_t i = 0; i < s.size(); i++)
        if (b[i] == Inner) {
            idx[i] = (int) inner.size();
            inner.push_back((int) i);
        }
    size_t m = inner.size();
    out.p.assign(s.size(), 0);
    out.raw.assign(s.size(), 0);
    if (!m)
        return out;
    std::vector<std::vector<R>> A(m, std::vector<R>(m, 0)), B(2, std::vector<R>(m, 0));
    R a = 2 * p.dim / (rl.n0 * rl.lambda), bn = 0, rowMax = 0, cancel = 0;
    for (size_t k = 0; k < m; k++) {
        int i  = inner[k];
        R diag = p.compress / (p.dt * p.dt);
        for (size_t j = 0; j < s.size(); j++) {
            if ((int) j == i || b[j] == Ignored || s[j].type == Ghost)
                continue;
            R d = norm(s[j].x - s[i].x);
            if (d >= p.reL)
                continue;
            R co = a * weight(d, p.reL) / s[i].rho;
            diag += co;
            if (idx[j] >= 0)
                A[k][idx[j]] -= co;
        }
        A[k][k] += diag;
        rowMax  = std::max(rowMax, 2 * diag);
        B[0][k] = p.relax / (p.dt * p.dt) * (n[i] - rn.n0) / rn.n0;
        B[1][k] = 1;
        // n0 and n_i are rounded; their difference keeps that error
        cancel = std::max(cancel, p.relax / (p.dt * p.dt) * 100 * std::numeric_limits<double>::epsilon() * (1 + n[i] / rn.n0));
        bn += B[0][k] * B[0][k];
    }
    out.ok = solveDense(A, B);
    R inv  = 0;
    for (size_t k = 0; k < m; k++) {
        R v = B[0][k];
        if (!std::isfinite(v))
            out.ok = false;
        out.raw[inner[k]] = v;
        out.p[inner[k]]   = v < 0 ? 0 : v;
        out.maxAbs        = std::max(out.maxAbs, std::fabs(v));
        inv               = std::max(inv, std::fabs(B[1][k])); // ||A^-1||_inf for an M-matrix
    }
    out.inv    = inv;
    out.rowMax = rowMax;
    R eps   = std::numeric_limits<double>::epsilon();
    out.tol = 6e4L * inv * eps * (std::sqrt(bn) + rowMax * out.maxAbs) * std::sqrt((R) m) + 1e-12L * out.maxAbs + inv * cancel;
    return out;
}

inline std::vector<R> explicitPressure(const std::vector<P>& s, const Params& p, const std::vector<R>& n) {
    R n0 = refValues(p.dim, p.l0, p.reN).n0;
    std::vector<R> o(s.size(), 0);
    for (size_t i = 0; i < s.size(); i++)
        if (s[i].type != Ghost && n[i] > n0)
            o[i] = p.c * p.c * s[i].rho * (n[i] - n0) / n0;
    return o;
}

/// minimum pressure over itself and fluid/wall neighbours
inline std::vector<R> minPressure(const std::vector<P>& s, const Params& p, const std::vector<R>& pr) {
    std::vector<R> m(pr);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == Ghost || s[i].type == Dummy)
            continue;
        for (size_t j = 0; j < s.size(); j++) {
            if (j == i || s[j].type == Ghost || s[j].type == Dummy)
                continue;
            if (norm(s[j].x - s[i].x) < p.reG)
                m[i] = std::min(m[i], pr[j]);
        }
    }
    return m;
}

/// pressure-gradient correction; mag: sum of magnitudes of the terms (rounding scale of the acceleration)
inline std::vector<P> correct(
    const std::vector<P>& s, const Params& p, const std::vector<R>& pr, Margin& mg, std::vector<R>* mag = nullptr
) {
    R n0   = refValues(p.dim, p.l0, p.reG).n0;
    auto m = minPressure(s, p, pr);
    auto o = s;
    if (mag)
        mag->assign(s.size(), 0);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type != Fluid)
            continue;
        V g;
        R t = 0;
        for (size_t j = 0; j < s.size(); j++) {
            if (j == i || s[j].type == Ghost || s[j].type == Dummy)
                continue;
            V r = s[j].x - s[i].x;
            R d = norm(r);
            mg.see((d - p.reG) / p.reG);
            if (d >= p.reG)
                continue;
            R w = weight(d, p.reG);
            g   = g + r * ((pr[j] - m[i]) / (d * d) * w);
            t += (std::fabs(pr[j]) + std::fabs(m[i])) / d * (p.reG / d);
        }
        R a    = (R) p.dim / n0 / s[i].rho;
        V acc  = g * (-a);
        o[i].v = s[i].v + acc * p.dt;
        o[i].x = s[i].x + acc * (p.dt * p.dt);
        if (mag)
            (*mag)[i] = t * a;
    }
    return o;
}

inline R courant(const std::vector<P>& s, const Params& p) {
    R c = 0;
    for (auto& q : s)
        if (q.type == Fluid)
            c = std::max(c, norm(q.v) * p.dt / p.l0);
    return c;
}

} // namespace ref
