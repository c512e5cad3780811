// Scene generator and adapters between the reference model and MPS-Basic's public classes.
#pragma once

#include "pbt.hpp"
#include "ref.hpp"

#include "input.hpp"
#include "mps.hpp"
#include "mps_factory.hpp"
#include "particles.hpp"
#include "settings.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <ostream>

namespace scene {

using ref::P;
using ref::Params;
using ref::R;
using ref::V;

struct Scene {
    Params p;
    std::vector<P> s;
    bool xyz = true;       ///< gravity given directly
    double gNorm = 0, gAngle = 0;
    double defaultDensity = 1000;
};

inline const char* typeName(int t) {
    static const char* n[] = {"ghost", "fluid", "wall", "dummy"};
    return t >= 0 && t < 4 ? n[t] : "?";
}
inline std::ostream& operator<<(std::ostream& o, const V& v) {
    return o << "(" << (double) v.x << ", " << (double) v.y << ", " << (double) v.z << ")";
}
inline void describe(std::ostream& o, const Scene& sc) {
    auto& p = sc.p;
    o << "dim=" << p.dim << " l0=" << (double) p.l0 << " dt=" << (double) p.dt << " nu=" << (double) p.nu
      << " g=" << p.g << " reN=" << (double) p.reN << " reG=" << (double) p.reG << " reL=" << (double) p.reL
      << " colDist=" << (double) p.colDist << " e=" << (double) p.e << " thr=" << (double) p.thr
      << " dist=" << p.dist << "/" << (double) p.distThr << " " << (p.implicit ? "Implicit" : "Explicit")
      << " compress=" << (double) p.compress << " relax=" << (double) p.relax << " c=" << (double) p.c
      << " domain=" << p.lo << ".." << p.hi << " cfl=" << (double) p.cfl << "\n";
    int k = 0;
    for (auto& q : sc.s) {
        if (k++ >= 40) {
            o << "  ... " << sc.s.size() << " particles\n";
            break;
        }
        o << "  " << k - 1 << " " << typeName(q.type) << " x=" << q.x << " v=" << q.v << " rho=" << (double) q.rho
          << " ft=" << q.fluidType << "\n";
    }
}

inline Eigen::Vector3d ev(const V& v) {
    return Eigen::Vector3d((double) v.x, (double) v.y, (double) v.z);
}
inline V vv(const Eigen::Vector3d& v) {
    return {v.x(), v.y(), v.z()};
}

inline Particles toParticles(const std::vector<P>& s) {
    Particles ps;
    for (auto& q : s)
        ps.add(Particle(
            ps.size(),
            static_cast<ParticleType>(q.type),
            ev(q.x),
            ev(q.v),
            (double) q.rho,
            q.fluidType
        ));
    return ps;
}
inline Domain toDomain(const Params& p) {
    Domain d;
    d.xMin    = (double) p.lo.x;
    d.xMax    = (double) p.hi.x;
    d.yMin    = (double) p.lo.y;
    d.yMax    = (double) p.hi.y;
    d.zMin    = (double) p.lo.z;
    d.zMax    = (double) p.hi.z;
    d.xLength = d.xMax - d.xMin;
    d.yLength = d.yMax - d.yMin;
    d.zLength = d.zMax - d.zMin;
    return d;
}
inline Input toInput(const Scene& sc) {
    Input in;
    auto& s            = in.settings;
    auto& p            = sc.p;
    s.dim              = p.dim;
    s.particleDistance = (double) p.l0;
    s.dt               = (double) p.dt;
    s.endTime          = 1;
    s.outputPeriod     = 1;
    s.cflCondition     = (double) p.cfl;
    s.numPhysicalCores = 1;
    s.domain           = toDomain(p);
    s.kinematicViscosity = (double) p.nu;
    s.defaultDensity     = sc.defaultDensity;
    s.xyzInput           = sc.xyz;
    s.gravity            = ev(p.g);
    if (!sc.xyz)
        s.gravity = Eigen::Vector3d(123, 456, 789); // must not be used
    s.gNorm  = sc.gNorm;
    s.gAngle = sc.gAngle;
    s.surfaceDetection_numberDensity_threshold         = (double) p.thr;
    s.surfaceDetection_particleDistribution            = p.dist;
    s.surfaceDetection_particleDistribution_threshold  = (double) p.distThr;
    s.pressureCalculationMethod        = p.implicit ? "Implicit" : "Explicit";
    s.compressibility                  = (double) p.compress;
    s.relaxationCoefficientForPressure = (double) p.relax;
    s.soundSpeed                       = (double) p.c;
    s.collisionDistance                = (double) p.colDist;
    s.coefficientOfRestitution         = (double) p.e;
    s.re_forNumberDensity              = (double) p.reN;
    s.re_forGradient                   = (double) p.reG;
    s.re_forLaplacian                  = (double) p.reL;
    s.reMax                            = std::max({s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian});
    in.particles                       = toParticles(sc.s);
    in.startTime                       = 0;
    return in;
}
/// state of the implementation as reference particles
inline std::vector<P> fromParticles(const Particles& ps) {
    std::vector<P> o;
    for (const auto& q : ps) {
        P r;
        r.type      = static_cast<int>(q.type);
        r.fluidType = q.fluidType;
        r.x         = vv(q.position);
        r.v         = vv(q.velocity);
        r.rho       = q.density;
        o.push_back(r);
    }
    return o;
}

/// documented extension point: a pressure calculator that records what it is given
class SpyCalc : public PressureCalculator::Interface {
public:
    std::function<std::vector<double>(Particles&)> f;
    std::unique_ptr<PressureCalculator::Interface> real;
    Particles before, after; ///< particles at entry / at return
    std::vector<double> result;
    int calls = 0;
    std::vector<double> calc(Particles& particles) override {
        calls++;
        before = particles;
        if (real)
            result = real->calc(particles);
        else if (f)
            result = f(particles);
        else
            result.assign(particles.size(), 0.0);
        after = particles;
        return result;
    }
};
struct Sim {
    MPS mps;
    SpyCalc* spy = nullptr;
};
/// stub pressures (f may be null: zero pressure everywhere)
inline Sim makeStub(const Input& in, std::function<std::vector<double>(Particles&)> f = nullptr) {
    Sim r;
    r.mps    = MPSFactory::create(in);
    auto spy = std::make_unique<SpyCalc>();
    spy->f   = f;
    r.spy    = spy.get();
    r.mps.pressureCalculator = std::move(spy);
    return r;
}
inline Sim makeSpied(const Input& in) {
    Sim r;
    r.mps                    = MPSFactory::create(in);
    auto spy                 = std::make_unique<SpyCalc>();
    spy->real                = std::move(r.mps.pressureCalculator);
    r.spy                    = spy.get();
    r.mps.pressureCalculator = std::move(spy);
    return r;
}

// ---------------------------------------------------------------- generation
struct Opt {
    int maxN        = 60;
    bool walls      = true;  ///< wall, dummy wall particles
    bool ghosts     = true;  ///< initial ghosts
    bool outside    = false; ///< some particles outside the domain
    bool overlap    = false; ///< pairs closer than the particle distance
    bool multiRho   = true;
    bool wideRho    = false; ///< densities of very different magnitude
    bool moving     = true;
    double cfl      = 0.3;   ///< typical |v| dt / l0
    int dim         = 0;     ///< 0: either
    double minSep   = 0.35;  ///< minimum separation / l0 for clouds
    bool bigRe      = false; ///< radii beyond 5 l0
    bool thick      = true;  ///< some two-dimensional cases have positions and velocities out of the plane
    bool farCol     = false; ///< collision distances beyond l0, up to the largest radius
};

inline double dbl(R x) {
    return (double) x;
}

inline void genParams(pbt::Src& g, Scene& sc, const Opt& o) {
    Params& p = sc.p;
    p.dim     = o.dim ? o.dim : (g.chance(0.35) ? 3 : 2);
    double l0 = g.pick({0.1, 0.025, 0.012, 1.0, 0.0});
    if (l0 == 0.0)
        l0 = g.logu(1e-3, 10);
    p.l0       = l0;
    double dt  = g.pick({0.001, 0.002, 0.01, 0.0});
    if (dt == 0.0)
        dt = g.logu(1e-5, 0.05);
    p.dt = dt;
    auto ratio = [&] {
        double r = g.pick({3.1, 2.1, 1.5, 4.1, 2.5, 0.0});
        if (r == 0.0)
            r = g.real(1.05, p.dim == 3 ? 3.6 : 4.5);
        if (o.bigRe && g.chance(0.15))
            r = g.real(4.5, 6.5);
        return r;
    };
    p.reN = dbl(ratio() * l0);
    p.reG = dbl(ratio() * l0);
    p.reL = dbl(ratio() * l0);
    p.nu  = g.pick({1e-6, 0.0, 1e-4, -1.0});
    if (p.nu < 0)
        p.nu = dbl(g.logu(1e-3, 1) * 0.05 * l0 * l0 / dt);
    switch (g.weighted({4, 2, 2, 2})) {
    case 0: p.g = {0, -9.8, 0}; break;
    case 1: p.g = {0, 0, 0}; break;
    case 2: p.g = {g.sym(20), g.sym(20), p.dim == 3 ? g.sym(20) : 0.0}; break;
    case 3: {
        double a = l0 / dt / dt * 0.05;
        p.g      = {g.sym(a), g.sym(a), p.dim == 3 ? g.sym(a) : 0.0};
    }
    }
    p.thr      = g.pick({0.97, 0.95, 0.8, 1.05});
    p.dist     = g.chance(0.5);
    p.distThr  = g.pick({1.0, 0.5, 2.0, 0.1});
    p.implicit = !g.chance(0.4);
    p.compress = g.pick({0.45e-9, 1e-7, 1e-10});
    p.relax    = g.pick({0.2, 0.01, 1.0});
    p.c        = g.pick({17.1, 1.0, 340.0});
    p.colDist  = dbl(g.pick({0.5, 0.0, 0.8, 0.2}) * l0);
    p.e        = g.pick({0.2, 0.0, 1.0, 0.5});
    p.cfl      = g.pick({0.3, 0.05, 1.0});
    if (g.chance(0.25)) { // values between and beyond the usual ones
        if (g.chance(0.4))
            p.thr = g.real(0.6, 1.2);
        if (g.chance(0.4))
            p.distThr = g.real(0, 4);
        if (g.chance(0.4))
            p.compress = g.logu(1e-11, 1e-6);
        if (g.chance(0.4))
            p.relax = g.real(0.001, 1);
        if (g.chance(0.4))
            p.c = g.logu(0.1, 1500);
        if (g.chance(0.4))
            p.colDist = dbl(g.real(0, 0.99) * l0);
        if (o.farCol && g.chance(0.3))
            p.colDist = dbl(g.real(0.3, 0.99) * p.reMax());
        if (g.chance(0.4))
            p.e = g.real(0, 1);
        if (g.chance(0.4))
            p.cfl = g.logu(1e-3, 3);
    }
}

/// density per fluid type, fluid type per particle
inline void genMaterial(pbt::Src& g, Scene& sc, const Opt& o) {
    double base = g.pick({1000.0, 1.0, 13600.0, 0.5});
    bool multi  = o.multiRho && g.chance(0.5);
    double r[3] = {base, base * 2, base * 0.125};
    if (multi && o.wideRho && g.chance(0.4)) {
        r[1] = base * g.logu(1e-5, 1e5);
        r[2] = base * g.logu(1e-5, 1e5);
    }
    sc.defaultDensity = base;
    for (auto& q : sc.s) {
        q.fluidType = multi ? (int) g.raw(3) : 0;
        q.rho       = r[q.fluidType];
    }
}

inline V genVel(pbt::Src& g, const Scene& sc, const Opt& o) {
    if (!o.moving)
        return {};
    double v = dbl(o.cfl * sc.p.l0 / sc.p.dt);
    return {g.sym(v), g.sym(v), sc.p.dim == 3 ? g.sym(v) : 0.0};
}

/// domain around the particles, optionally leaving some out; then the whole scene may be shifted
inline void genDomain(pbt::Src& g, Scene& sc, const Opt& o, bool thick = false) {
    auto& p = sc.p;
    V a{1e30, 1e30, 1e30}, b{-1e30, -1e30, -1e30};
    for (auto& q : sc.s) {
        a = {std::min(a.x, q.x.x), std::min(a.y, q.x.y), std::min(a.z, q.x.z)};
        b = {std::max(b.x, q.x.x), std::max(b.y, q.x.y), std::max(b.z, q.x.z)};
    }
    if (sc.s.empty())
        a = b = {};
    double l0 = dbl(p.l0);
    auto side = [&]() -> double {
        switch (g.weighted({4, 3, 2, o.outside ? 3.0 : 0.0})) {
        case 0: return 2.0 * l0;
        case 1: return g.real(0.05, 6) * l0;
        case 2: return 0.0; // particles exactly on the boundary
        default: return -g.real(0, 1.5) * l0;
        }
    };
    p.lo.x = dbl(a.x - side());
    p.hi.x = std::max<R>(dbl(b.x + side()), p.lo.x);
    p.lo.y = dbl(a.y - side());
    p.hi.y = std::max<R>(dbl(b.y + side()), p.lo.y);
    if (p.dim == 3 || thick) {
        p.lo.z = dbl(a.z - side());
        p.hi.z = std::max<R>(dbl(b.z + side()), p.lo.z);
    } else if (g.chance(0.3)) {
        p.lo.z = dbl(-g.real(0, 5) * l0);
        p.hi.z = dbl(g.real(0, 5) * l0);
    } else
        p.lo.z = p.hi.z = 0;
}

inline void shuffleParticles(pbt::Src& g, std::vector<P>& s) {
    if (!g.chance(0.4))
        return;
    uint64_t seed = g.raw(1u << 20);
    for (size_t i = s.size(); i > 1; i--) {
        seed     = seed * 6364136223846793005ull + 1442695040888963407ull;
        size_t j = (seed >> 33) % i;
        std::swap(s[i - 1], s[j]);
    }
}

/// lattice block of fluid in a tank of walls, jittered
inline void layoutTank(pbt::Src& g, Scene& sc, const Opt& o) {
    auto& p   = sc.p;
    double l0 = dbl(p.l0);
    double jit = g.pick({0.0, 0.1, 0.3, 0.02}) * l0;
    int budget = o.maxN;
    int side = p.dim == 3 ? (o.maxN >= 800 ? 10 : o.maxN >= 200 ? 7 : 4) : o.maxN >= 800 ? 34 : o.maxN >= 200 ? 18 : 8;
    int least = o.maxN >= 800 ? side / 2 : 1;
    int nx = (int) g.range(least, side), ny = (int) g.range(least, side);
    int nz  = p.dim == 3 ? (int) g.range(least, o.maxN >= 800 ? side : std::min(side, 5)) : 1;
    int wl = 0, dl = 0;
    bool left = false, right = false;
    if (o.walls) {
        wl    = (int) g.range(0, 2);
        dl    = (int) g.range(0, 2);
        left  = g.chance(0.3);
        right = g.chance(0.3);
    }
    int L = left ? wl + dl : 0, Rr = right ? wl + dl : 0, B = wl + dl;
    double shear = g.pick({0.0, 1.0, -1.0});
    V common     = genVel(g, sc, o);
    for (int i = -L; i < nx + Rr; i++)
        for (int j = -B; j < ny; j++)
            for (int k = 0; k < nz; k++) {
                if ((int) sc.s.size() >= budget)
                    return;
                P q;
                int depth = std::max({-i, i - nx + 1, -j, 0});
                q.type    = depth == 0 ? ref::Fluid : depth <= wl ? ref::Wall : ref::Dummy;
                q.x       = {l0 * i, l0 * j, l0 * k};
                if (q.type == ref::Fluid) {
                    if (g.chance(0.05))
                        continue; // hole
                    if (jit > 0) {
                        q.x.x = dbl(q.x.x + g.sym(jit));
                        q.x.y = dbl(q.x.y + g.sym(jit));
                        if (p.dim == 3)
                            q.x.z = dbl(q.x.z + g.sym(jit));
                    }
                    if (o.moving) {
                        q.v = common;
                        q.v.x = dbl(q.v.x + shear * o.cfl * l0 / dbl(p.dt) * 0.1 * j);
                        if (g.chance(0.5)) {
                            V w = genVel(g, sc, o);
                            q.v = {dbl(q.v.x + 0.3L * w.x), dbl(q.v.y + 0.3L * w.y), dbl(q.v.z + 0.3L * w.z)};
                        }
                    }
                } else if (o.moving && g.chance(0.1))
                    q.v = genVel(g, sc, o);
                sc.s.push_back(q);
            }
}

/// random cloud with a minimum separation
inline void layoutCloud(pbt::Src& g, Scene& sc, const Opt& o) {
    auto& p    = sc.p;
    double l0  = dbl(p.l0);
    double box = g.pick({2.0, 4.0, 8.0, 1.0}) * l0;
    double sep = (o.overlap ? g.pick({0.05, 0.3, 0.5}) : o.minSep) * l0;
    int n      = 0;
    while (n < o.maxN && g.more(g.pick({25, 6}))) {
        P q;
        q.x = {g.sym(box), g.sym(box), p.dim == 3 ? g.sym(box) : 0.0};
        bool ok = true;
        for (auto& r : sc.s)
            ok = ok && ref::norm(r.x - q.x) >= sep;
        q.v    = genVel(g, sc, o);
        q.type = ref::Fluid;
        if (o.walls && g.chance(0.25))
            q.type = g.chance(0.5) ? ref::Wall : ref::Dummy;
        n++;
        if (ok)
            sc.s.push_back(q);
    }
}

/// isolated groups of two (sometimes one) particles, pairs possibly overlapping
inline void layoutPairs(pbt::Src& g, Scene& sc, const Opt& o) {
    auto& p   = sc.p;
    double l0 = dbl(p.l0);
    double gap = dbl(p.reMax()) * 2.5 + 4 * l0;
    int k     = 0;
    while ((int) sc.s.size() + 2 <= o.maxN && g.more(6)) {
        P a, b;
        int gx = k % 4, gy = k / 4;
        k++;
        a.x      = {gap * gx + g.sym(0.3 * l0), gap * gy + g.sym(0.3 * l0), p.dim == 3 ? g.sym(0.3 * l0) : 0.0};
        a.v      = genVel(g, sc, o);
        double r = g.real(0.05, 1.2) * l0;
        V d      = {g.sym(1), g.sym(1), p.dim == 3 ? g.sym(1) : 0.0};
        R dn     = ref::norm(d);
        if (dn < 1e-3) {
            d  = {1, 0, 0};
            dn = 1;
        }
        b.x    = {dbl(a.x.x + d.x / dn * r), dbl(a.x.y + d.y / dn * r), dbl(a.x.z + d.z / dn * r)};
        b.v    = genVel(g, sc, o);
        a.type = ref::Fluid;
        b.type = ref::Fluid;
        if (o.walls && g.chance(0.35))
            (g.chance(0.5) ? a : b).type = g.chance(0.5) ? ref::Wall : ref::Dummy;
        sc.s.push_back(a);
        if (!g.chance(0.1))
            sc.s.push_back(b);
    }
}

inline void finish(pbt::Src& g, Scene& sc, const Opt& o) {
    if (o.ghosts && !sc.s.empty() && g.chance(0.3)) {
        int n = (int) g.range(1, 3);
        for (int i = 0; i < n; i++)
            sc.s[g.raw(sc.s.size())].type = ref::Ghost;
    }
    shuffleParticles(g, sc.s);
    genMaterial(g, sc, o);
    if (g.chance(0.1)) // the kind of fluid is a label
        for (auto& q : sc.s)
            q.fluidType = g.chance(0.5) ? 0 : (int) g.range(-2, 3);
    bool thick = o.thick && sc.p.dim == 2 && g.chance(0.08);
    if (thick) {
        double l0 = dbl(sc.p.l0), v = o.moving ? dbl(o.cfl * sc.p.l0 / sc.p.dt) : 0.0;
        double m = g.pick({0.0, 0.3, 1.5}) * l0;
        for (auto& q : sc.s) {
            if (g.chance(0.5))
                q.x.z = dbl(q.x.z + g.sym(m));
            if (q.type == ref::Fluid && g.chance(0.6))
                q.v.z = g.sym(v);
        }
        if (g.chance(0.3))
            sc.p.g.z = g.pick({9.8, -9.8, 0.05 * l0 / dbl(sc.p.dt) / dbl(sc.p.dt)});
    }
    // shift everything
    if (g.chance(0.5)) {
        double l0 = dbl(sc.p.l0);
        double m  = g.pick({1.0, 30.0, 300.0}) * l0;
        V t       = {g.sym(m), g.sym(m), sc.p.dim == 3 ? g.sym(m) : 0.0};
        for (auto& q : sc.s)
            q.x = {dbl(q.x.x + t.x), dbl(q.x.y + t.y), dbl(q.x.z + t.z)};
    }
    genDomain(g, sc, o, thick);
}

/// number of steps: few, and in 1 case of 100 many (defects that need a history or wear out)
inline int historyLength(pbt::Src& g, int few, int many, double p = 0.01) {
    return g.chance(p) ? (int) g.range(few + 1, many) : (int) g.range(1, few);
}

inline Scene gen(pbt::Src& g, const Opt& opt, std::initializer_list<double> weights = {5, 3, 2}) {
    Scene sc;
    Opt o = opt;
    if (o.maxN >= 40 && g.chance(0.01)) { // a large block
        o.maxN = 300;
        genParams(g, sc, o);
        layoutTank(g, sc, o);
        finish(g, sc, o);
        return sc;
    }
    genParams(g, sc, o);
    switch (g.weighted(weights)) {
    case 0: layoutTank(g, sc, o); break;
    case 1: layoutCloud(g, sc, o); break;
    default: layoutPairs(g, sc, o); break;
    }
    finish(g, sc, o);
    return sc;
}

inline R big(R a, R b) {
    return std::max(a, b);
}
inline R scaleX(const Scene& sc) {
    R m = sc.p.l0;
    for (R v : {sc.p.lo.x, sc.p.lo.y, sc.p.lo.z, sc.p.hi.x, sc.p.hi.y, sc.p.hi.z})
        m = std::max(m, std::fabs(v));
    return m;
}
inline R dist(const V& a, const V& b) {
    return ref::norm(a - b);
}

} // namespace scene
