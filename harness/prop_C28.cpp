// C28: the physics is independent of frame, orientation and particle numbering
#include "scene.hpp"

#include <limits>

using namespace pbt;
using scene::dbl;
using scene::Opt;
using ref::Params;
using scene::P;
using scene::R;
using scene::Scene;
using scene::V;

namespace {

using scene::operator<<;
constexpr R EPS = std::numeric_limits<double>::epsilon();

struct State {
    std::vector<P> s;
    std::vector<R> p, n;
    std::vector<int> bc;
    R courant = 0;
};

/// one step of the program
bool step(const Scene& sc, State& o) {
    Input in = scene::toInput(sc);
    CaptureStderr cap;
    auto r = guarded([&] {
        MPS m = MPSFactory::create(in);
        m.stepForward();
        o.s = scene::fromParticles(m.particles);
        for (const auto& q : m.particles) {
            o.p.push_back(q.pressure);
            o.n.push_back(q.numberDensity);
            o.bc.push_back((int) q.boundaryCondition);
        }
        o.courant = m.courant;
    });
    return r.ok();
}

/// margins of decisions at the domain's faces; coordinates that are exactly on a face and do not move are exact in every frame
void faces(const std::vector<P>& s, const std::vector<P>& first, const Params& p, ref::Margin& mg) {
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i].type == ref::Ghost)
            continue;
        const R a[3] = {s[i].x.x, s[i].x.y, s[i].x.z}, f[3] = {first[i].x.x, first[i].x.y, first[i].x.z};
        const R lo[3] = {p.lo.x, p.lo.y, p.lo.z}, hi[3] = {p.hi.x, p.hi.y, p.hi.z};
        for (int k = 0; k < 3; k++)
            for (R b : {lo[k], hi[k]})
                if (!(a[k] == f[k] && a[k] == b))
                    mg.see((a[k] - b) / p.l0);
    }
}

struct RefStep {
    std::vector<P> s;
    std::vector<R> p, n;
    R pTol = 0;
    bool multiple = false, ok = true;
    R vMax = 0, near = 1e30L;
    std::vector<std::vector<int>> types; ///< at the three ghost stages
    std::vector<int> bc;
    std::vector<R> gain; ///< change of velocity per unit of pressure
};
/// the reference step; `like`: take types and classification from there
RefStep refStep(const std::vector<P>& a, const Params& p, ref::Margin& mg, const RefStep* like, const std::function<void(std::vector<P>&)>& noise = nullptr) {
    RefStep o;
    auto stage = [&](std::vector<P>& s, size_t k) {
        if (like) {
            for (size_t i = 0; i < s.size(); i++)
                s[i].type = like->types[k][i];
            return;
        }
        faces(s, a, p, mg);
        ref::Margin none;
        ref::ghosts(s, p, none);
        o.types.emplace_back();
        for (auto& q : s)
            o.types.back().push_back(q.type);
    };
    auto s0 = a;
    stage(s0, 0);
    ref::neighbours(s0, p.reMax(), &mg, {p.reL});
    auto s1 = ref::predict(s0, p, mg);
    if (noise)
        noise(s1);
    auto s2 = s1;
    stage(s2, 1);
    ref::ColInfo ci;
    auto s3    = ref::collide(s2, p, mg, ci);
    o.multiple = ci.multiple;
    if (noise)
        noise(s3);
    auto s4    = s3;
    stage(s4, 2);
    ref::neighbours(s4, p.reMax(), &mg, {p.reN, p.reG, p.reL});
    o.n     = ref::numberDensity(s4, p.reN);
    auto n0 = ref::refValues(p.dim, p.l0, p.reN).n0;
    o.bc    = like ? like->bc : ref::classify(s4, p, o.n, mg, n0);
    if (p.implicit) {
        auto pr = ref::implicitPressure(s4, p, o.n, o.bc);
        o.p     = pr.p;
        o.pTol  = pr.tol;
        o.ok    = pr.ok && pr.tol <= 1e-4L * pr.maxAbs + 1e-300L;
    } else
        o.p = ref::explicitPressure(s4, p, o.n);
    o.s = ref::correct(s4, p, o.p, mg);
    R g0 = ref::refValues(p.dim, p.l0, p.reG).n0;
    o.gain.assign(a.size(), 0);
    for (size_t i = 0; i < s4.size(); i++) {
        if (s4[i].type != ref::Fluid)
            continue;
        for (size_t j = 0; j < s4.size(); j++) {
            R d = ref::norm(s4[j].x - s4[i].x);
            if (j == i || s4[j].type == ref::Ghost)
                continue;
            o.near = std::min(o.near, d);
            if (d < p.reG)
                o.gain[i] += 2 * p.dt * p.dim / g0 / s4[i].rho * ref::weight(d, p.reG) / d;
        }
    }
    for (size_t i = 0; i < s4.size(); i++)
        o.vMax = std::max({o.vMax, ref::norm(a[i].v), ref::norm(s1[i].v), ref::norm(s3[i].v), ref::norm(o.s[i].v)});
    return o;
}

struct Tol {
    std::vector<R> x, v, p, n;
};
R maxDiff(const V& a, const V& b) {
    return std::max({std::fabs(a.x - b.x), std::fabs(a.y - b.y), std::fabs(a.z - b.z)});
}

/// how much rounding may change: the reference step's answer to perturbations that are 2000 times rounding
bool tolerances(const Scene& sc, R scale, R vScale, Tol& t, RefStep& base) {
    auto& p = sc.p;
    ref::Margin mg;
    base = refStep(sc.s, p, mg, nullptr);
    size_t n = sc.s.size();
    R amp    = 2000 * EPS * scale, ampV = 2000 * EPS * (vScale + base.vMax);
    if (!base.ok || base.multiple || mg.ambiguous() || amp > 1e-9L * p.l0 || amp > 1e-7L * base.near)
        return false;
    R sx = 0, sv = 0, sp = 0, sn = 0;
    uint64_t h = 12345;
    for (int k = 0; k < 2; k++) {
        auto r = [&] { // not part of the case, so that shrinking cannot make it trivial
            h = h * 6364136223846793005ull + 1442695040888963407ull;
            return (R) ((double) ((h >> 33) % 2001) / 1000.0 - 1);
        };
        auto noise = [&](std::vector<P>& a) {
            for (auto& q : a) {
                q.x = {q.x.x + amp * r(), q.x.y + amp * r(), q.x.z + (p.dim == 3 ? amp * r() : 0)};
                q.v = {q.v.x + ampV * r(), q.v.y + ampV * r(), q.v.z + (p.dim == 3 ? ampV * r() : 0)};
            }
        };
        auto a = sc.s;
        noise(a);
        ref::Margin none;
        auto b = refStep(a, p, none, &base, noise);
        for (size_t i = 0; i < n; i++) {
            if (sc.s[i].type == ref::Ghost)
                continue;
            sx = std::max(sx, maxDiff(b.s[i].x, base.s[i].x));
            sv = std::max(sv, maxDiff(b.s[i].v, base.s[i].v));
            sp = std::max(sp, std::fabs(b.p[i] - base.p[i]));
            sn = std::max(sn, std::fabs(b.n[i] - base.n[i]));
        }
    }
    t.x.assign(n, 0);
    t.v = t.p = t.n = t.x;
    R worst = 0, n0 = ref::refValues(p.dim, p.l0, p.reN).n0, pErr = 0;
    for (size_t i = 0; i < n; i++) // rounding of the pressures themselves
        pErr = std::max(pErr, 200 * EPS * (p.implicit ? base.p[i] : p.c * p.c * sc.s[i].rho * (1 + base.n[i] / n0)));
    pErr += 2 * base.pTol;
    for (size_t i = 0; i < n; i++) {
        t.p[i] = sp + pErr;
        t.n[i] = sn + 1e-12L * base.n[i];
        t.v[i] = sv + base.gain[i] * pErr + 8 * EPS * (vScale + base.vMax);
        t.x[i] = sx + base.gain[i] * pErr * p.dt + 8 * EPS * scale;
        worst  = std::max(worst, t.x[i]);
    }
    return worst < 1e-4L * p.l0;
}

struct Map {
    int axis[3] = {0, 1, 2};
    int sign[3] = {1, 1, 1};
    V shift;
    std::vector<int> to; ///< new number of particle i
    V turn(const V& v) const {
        const R a[3] = {v.x, v.y, v.z};
        return {sign[0] * a[axis[0]], sign[1] * a[axis[1]], sign[2] * a[axis[2]]};
    }
    V move(const V& v) const { // rounded as a user's file would be
        V w = turn(v);
        return {dbl(w.x) + dbl(shift.x), dbl(w.y) + dbl(shift.y), dbl(w.z) + dbl(shift.z)};
    }
};

V rounded(const V& v) {
    return {dbl(v.x), dbl(v.y), dbl(v.z)};
}

void compare(Case& c, const Scene& sc, const State& a, const State& b, const RefStep& base, const Tol& t, const Map& m, const V& u, const char* what) {
    // coordinates of b: turned, moved, and drifted with u
    auto& p = sc.p;
    for (size_t i = 0; i < sc.s.size(); i++) {
        size_t j  = (size_t) m.to[i];
        auto who  = [&] { return std::string(scene::typeName(sc.s[i].type)) + " " + std::to_string(i); };
        auto &x = a.s[i], &y = b.s[j];
        REQUIRE(x.type == y.type, what << ": " << who() << " becomes " << scene::typeName(x.type) << " in the one frame, " << scene::typeName(y.type) << " in the other");
        if (x.type == ref::Ghost && sc.s[i].type == ref::Ghost)
            continue;
        V wx = m.turn(x.x) + m.shift + u * p.dt, wv = m.turn(x.v) + u;
        REQUIRE(
            maxDiff(wx, y.x) <= t.x[i] && maxDiff(wv, y.v) <= t.v[i],
            what << ": " << who() << " goes to x=" << x.x << ", v=" << x.v << " in the one frame, which is x=" << wx << ", v=" << wv << " in the other; there it goes to x=" << y.x << ", v=" << y.v
                 << " (tolerances " << (double) t.x[i] << ", " << (double) t.v[i] << ")"
        );
        if (base.s[i].type == ref::Ghost)
            continue;
        REQUIRE(std::fabs(a.n[i] - b.n[j]) <= t.n[i], what << ": " << who() << " has number density " << (double) a.n[i] << " in the one frame, " << (double) b.n[j] << " in the other");
        REQUIRE(
            std::fabs(a.p[i] - b.p[j]) <= t.p[i],
            what << ": " << who() << " has pressure " << (double) a.p[i] << " in the one frame, " << (double) b.p[j] << " in the other (tolerance " << (double) t.p[i] << ")"
        );
        REQUIRE(a.bc[i] == b.bc[j], what << ": " << who() << " has boundary condition " << a.bc[i] << " in the one frame, " << b.bc[j] << " in the other");
    }
}

Scene genScene(Src& g, bool fluidOnly) {
    Opt o;
    o.maxN    = 45;
    o.walls   = !fluidOnly;
    o.ghosts  = !fluidOnly;
    o.outside = !fluidOnly && g.chance(0.25);
    o.overlap = g.chance(0.15);
    o.cfl     = g.pick({0.1, 0.3, 0.02});
    auto sc   = scene::gen(g, o, {6, 3, 3});
    if (g.chance(0.5)) { // compressed: pressures act
        double k = g.pick({0.95, 0.9, 0.98});
        for (auto& q : sc.s)
            q.x = {dbl(q.x.x * k), dbl(q.x.y * k), dbl(q.x.z * k)};
    }
    return sc;
}

void frames(Src& g, Case& c) {
    Scene sc = genScene(g, false);
    auto& p  = sc.p;
    Map m;
    bool turn = g.chance(0.7), shift = g.chance(0.6), renumber = g.chance(0.6);
    if (turn) {
        int k = p.dim == 3 || g.chance(0.2) ? 3 : 2; // the plane of a two-dimensional case may be any
        for (int i = k; i > 1; i--)
            std::swap(m.axis[i - 1], m.axis[g.raw((uint64_t) i)]);
        for (int i = 0; i < 3; i++)
            m.sign[i] = g.chance(0.5) ? -1 : 1;
    }
    if (shift) {
        double s = dbl(p.l0) * g.pick({1.0, 0.1, 10.0, 300.0});
        m.shift  = {g.sym(s), g.sym(s), p.dim == 3 || g.chance(0.3) ? g.sym(s) : 0.0};
    }
    for (size_t i = 0; i < sc.s.size(); i++)
        m.to.push_back((int) i);
    if (renumber)
        for (size_t i = sc.s.size(); i > 1; i--)
            std::swap(m.to[i - 1], m.to[g.raw(i)]);
    Scene tr = sc;
    V a = m.turn(p.lo), b = m.turn(p.hi);
    V sh    = m.shift;
    tr.p.lo = rounded(V{std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)} + sh);
    tr.p.hi = rounded(V{std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)} + sh);
    tr.p.g  = m.turn(p.g);
    for (size_t i = 0; i < sc.s.size(); i++) {
        P q = sc.s[i];
        q.x = rounded(m.turn(q.x) + sh);
        q.v = m.turn(q.v);
        tr.s[(size_t) m.to[i]] = q;
    }
    c.note([&](std::ostream& o) {
        o << "axes " << m.axis[0] << m.axis[1] << m.axis[2] << " signs " << m.sign[0] << "," << m.sign[1] << "," << m.sign[2] << " shift " << m.shift << (renumber ? " renumbered" : "") << "\n";
        scene::describe(o, sc);
    });
    Tol t;
    RefStep base;
    if (!tolerances(sc, scene::scaleX(sc) + scene::scaleX(tr), 0, t, base))
        c.discard();
    State x, y;
    bool okX = step(sc, x), okY = step(tr, y);
    if (!okX || !okY)
        c.discard(); // the solver gave up; C11 judges that
    compare(c, sc, x, y, base, t, m, V{}, "one step");
    R tc = 0;
    for (R v : t.v)
        tc = std::max(tc, v);
    REQUIRE(std::fabs(x.courant - y.courant) <= 2 * tc * p.dt / p.l0 + 8 * EPS * x.courant, "Courant numbers " << (double) x.courant << " and " << (double) y.courant);
    bool moved = false, press = false;
    bool flat = p.dim == 2 && p.g.z == 0;
    for (auto& q : sc.s)
        flat = flat && q.v.z == 0 && q.x.z == sc.s[0].x.z;
    if (p.dim == 2)
        c.label(flat ? "in the plane" : "2D formulas, out of the plane");
    for (size_t i = 0; i < sc.s.size(); i++) {
        moved = moved || ref::norm(x.s[i].x - sc.s[i].x) > 10 * t.x[i];
        press = press || x.p[i] > 10 * t.p[i];
        for (auto* w : {&x, &y}) {
            auto& from = w == &x ? sc.s[i] : tr.s[i];
            auto out = [&](const V& q) {
                int d = 2;
                if (w == &y)
                    for (int k = 0; k < 3; k++)
                        d = m.axis[k] == 2 ? k : d;
                return d == 0 ? q.x : d == 1 ? q.y : q.z;
            };
            if (flat)
                REQUIRE(out(w->s[i].x) == out(from.x) && out(w->s[i].v) == 0, "a particle of a 2D case leaves its plane: " << from.x << " to " << w->s[i].x << ", v=" << w->s[i].v);
        }
    }
    if (turn)
        c.label("turned");
    if (shift)
        c.label("shifted");
    if (renumber)
        c.label("renumbered");
    if (press)
        c.label("pressure");
    c.label(p.implicit ? "Implicit" : "Explicit");
    c.nontrivial(moved && (turn || shift || renumber));
}

/// cases in which every decision is exact in every frame: lattice positions, velocities and domain are short binary fractions
void exact(Src& g, Case& c) {
    Scene sc;
    Opt o;
    scene::genParams(g, sc, o);
    auto& p  = sc.p;
    double h = std::ldexp(1.0, (int) g.range(-7, 2)); // particle distance
    double dt = std::ldexp(1.0, (int) g.range(-12, -4)), q = h / 8;
    p.l0 = h;
    p.dt = dt;
    for (R* r : {&p.reN, &p.reG, &p.reL})
        *r = g.pick({1.5, 2.0, 2.125, 3.0, 3.125, 2.5}) * h;
    p.nu      = 0;
    p.colDist = g.pick({0.0, 0.5, 0.75, 1.0}) * h; // lattice neighbours may be exactly at it
    p.dist    = true;
    p.distThr = g.pick({1.0, 0.5, 2.0, 1.5, 3.0, 0.25, 0.125, 4.0});
    auto vec  = [&](double unit, int most) {
        auto k = [&] { return unit * (double) g.range(-most, most); };
        double x = k(), y = k(), z = p.dim == 3 ? k() : 0;
        return V{x, y, z};
    };
    V v = g.chance(0.5) ? V{} : vec(q / dt, 4);
    p.g = g.chance(0.5) ? V{} : vec(q / dt / dt, 2);
    int n[3], most = p.dim == 3 ? 4 : 7, fine = g.chance(0.5) ? 1 : 2;
    for (int k = 0; k < 3; k++)
        n[k] = k < p.dim ? (int) g.range(1, most) : 1;
    double holes = g.pick({0.0, 0.1, 0.3, 0.6});
    for (int i = 0; i < n[0]; i++)
        for (int j = 0; j < n[1]; j++)
            for (int k = 0; k < n[2]; k++) {
                if (g.chance(holes))
                    continue;
                P a;
                a.type = (int) g.weighted({1, 8, 2, 1}); // ghost, fluid, wall, dummy wall
                a.x = {h * i, h * j, h * k};
                if (fine == 2 && g.chance(0.2))
                    a.x = a.x + vec(h / 4, 1);
                if (a.type == ref::Fluid)
                    a.v = v;
                sc.s.push_back(a);
            }
    if (sc.s.empty())
        c.discard();
    Opt plain;
    scene::genMaterial(g, sc, plain);
    int m[6];
    for (int k = 0; k < 6; k++)
        m[k] = (int) (g.chance(0.5) ? g.range(0, 3) : g.range(4, 24)); // particles on and beyond the faces
    p.lo = {-q * m[0], -q * m[1], p.dim == 3 ? -q * m[2] : 0};
    p.hi = {h * (n[0] - 1) + q * m[3], h * (n[1] - 1) + q * m[4], p.dim == 3 ? h * (n[2] - 1) + q * m[5] : 0};
    // the other frame
    Map mp;
    for (int i = p.dim == 3 ? 3 : 2; i > 1; i--)
        std::swap(mp.axis[i - 1], mp.axis[g.raw((uint64_t) i)]);
    for (int i = 0; i < 3; i++)
        mp.sign[i] = g.chance(0.5) ? -1 : 1;
    if (g.chance(0.5))
        mp.shift = vec(q, 1000);
    Scene tr = sc;
    V a = mp.turn(p.lo), b = mp.turn(p.hi);
    tr.p.lo = V{std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)} + mp.shift;
    tr.p.hi = V{std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)} + mp.shift;
    tr.p.g  = mp.turn(p.g);
    for (auto& w : tr.s) {
        w.x = mp.turn(w.x) + mp.shift;
        w.v = mp.turn(w.v);
    }
    c.note([&](std::ostream& os) {
        os << "axes " << mp.axis[0] << mp.axis[1] << mp.axis[2] << " signs " << mp.sign[0] << "," << mp.sign[1] << "," << mp.sign[2] << " shift " << mp.shift << "\n";
        scene::describe(os, sc);
    });
    // collisions and number densities at the threshold are not exact: leave such cases out
    ref::Margin mg, none;
    auto s1 = sc.s;
    ref::ghosts(s1, p, none);
    s1 = ref::predict(s1, p, none);
    ref::ghosts(s1, p, none);
    for (size_t i = 0; i < s1.size(); i++)
        for (size_t j = 0; j < i; j++) {
            if (s1[i].type != ref::Ghost && s1[j].type != ref::Ghost && ref::norm(s1[i].x - s1[j].x) == 0)
                c.discard(); // at the same place: no finite number density
            if (s1[i].type == ref::Ghost || s1[j].type == ref::Ghost || (s1[i].type != ref::Fluid && s1[j].type != ref::Fluid))
                continue;
            if (ref::norm(s1[i].x - s1[j].x) < p.colDist)
                c.discard();
        }
    auto n0  = ref::refValues(p.dim, p.l0, p.reN).n0;
    auto den = ref::numberDensity(s1, p.reN);
    bool tie = false, low = false;
    for (size_t i = 0; i < s1.size(); i++) {
        if (s1[i].type == ref::Ghost)
            continue;
        if (std::fabs(den[i] - p.thr * n0) < 1e-9L * n0)
            c.discard();
        V sum{};
        for (size_t j = 0; j < s1.size(); j++)
            if (j != i && s1[j].type != ref::Ghost && ref::norm(s1[j].x - s1[i].x) < p.reN)
                sum = sum + (s1[j].x - s1[i].x);
        for (R k : {sum.x, sum.y, sum.z})
            tie = tie || (s1[i].type != ref::Dummy && den[i] < p.thr * n0 && std::fabs(k) == p.distThr * h);
        low = low || den[i] < p.thr * n0;
    }
    State x, y;
    bool okX = step(sc, x), okY = step(tr, y);
    if (!okX || !okY)
        c.discard(); // the solver gave up; C11 judges that
    for (size_t i = 0; i < sc.s.size(); i++) {
        auto who = [&] { return std::string(scene::typeName(sc.s[i].type)) + " " + std::to_string(i); };
        REQUIRE(x.bc[i] == y.bc[i], who() << " has boundary condition " << x.bc[i] << " in the one frame, " << y.bc[i] << " in the other");
        REQUIRE(
            x.s[i].type == y.s[i].type,
            who() << " becomes " << scene::typeName(x.s[i].type) << " in the one frame, " << scene::typeName(y.s[i].type) << " in the other"
        );
        REQUIRE(std::fabs(x.n[i] - y.n[i]) <= 1e-12L * x.n[i], who() << " has number density " << (double) x.n[i] << " in the one frame, " << (double) y.n[i] << " in the other");
    }
    if (tie)
        c.label("distribution exactly at the threshold");
    c.label(p.implicit ? "Implicit" : "Explicit");
    c.nontrivial(low && sc.s.size() > 2);
}

void drift(Src& g, Case& c) {
    Scene sc = genScene(g, true);
    auto& p  = sc.p;
    p.g      = {};
    double s = 0.5 * dbl(p.l0 / p.dt);
    V u      = {g.sym(s), g.sym(s), p.dim == 3 ? g.sym(s) : 0.0};
    R big    = 12 * p.l0;
    for (auto& q : sc.s)
        big = std::max(big, 3 * ref::norm(q.v) * p.dt + p.l0);
    p.lo = rounded(p.lo - V{big, big, p.dim == 3 ? big : 0});
    p.hi = rounded(p.hi + V{big, big, p.dim == 3 ? big : 0});
    Scene tr = sc;
    for (auto& q : tr.s)
        q.v = rounded(q.v + u);
    Map m;
    for (size_t i = 0; i < sc.s.size(); i++)
        m.to.push_back((int) i);
    c.note([&](std::ostream& o) {
        o << "common velocity " << u << "\n";
        scene::describe(o, sc);
    });
    Tol t;
    RefStep base;
    if (!tolerances(sc, scene::scaleX(sc) + ref::norm(u) * p.dt, ref::norm(u), t, base))
        c.discard();
    for (size_t i = 0; i < sc.s.size(); i++)
        if (base.types[2][i] == ref::Ghost)
            c.discard();
    State x, y;
    bool okX = step(sc, x), okY = step(tr, y);
    if (!okX || !okY)
        c.discard();
    for (size_t i = 0; i < sc.s.size(); i++)
        if (x.s[i].type != ref::Fluid || y.s[i].type != ref::Fluid)
            c.discard();
    compare(c, sc, x, y, base, t, m, u, "common velocity");
    bool press = false, visc = false;
    for (size_t i = 0; i < sc.s.size(); i++) {
        press = press || x.p[i] > 10 * t.p[i];
        visc  = visc || ref::norm(x.s[i].v - sc.s[i].v) > 10 * t.v[i];
    }
    if (press)
        c.label("pressure");
    c.label(p.implicit ? "Implicit" : "Explicit");
    c.nontrivial(visc && ref::norm(u) > 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C28.frames",
          "one step of a generated case and of the same case turned by an axis permutation with signs, shifted and renumbered, in any combination; tolerance: the "
          "reference step's answer to perturbations of 2000 times rounding; cases at a threshold or with several collisions of one particle are discarded; "
          "non-trivial: a particle moved by more than ten times the tolerance",
          40000, 1500000, frames},
         {"C28.exact", "lattices of binary fractions turned and shifted without rounding, so that particles exactly on the faces of the domain, at the collision distance "
                       "and at the distribution threshold must be treated alike; non-trivial: a particle below the number density threshold",
          20000, 800000, exact},
         {"C28.drift", "the same for a common velocity added to fluid without walls and gravity; non-trivial: velocities changed by more than ten times the tolerance", 15000, 600000, drift}}
    );
}
