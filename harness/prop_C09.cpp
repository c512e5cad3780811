// C09: collisions conserve momentum, never add energy, and only push pairs apart
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

/// runs the prediction of the model; false: out of the domain or undecidable
bool predicted(const Scene& sc, std::vector<P>& out, ref::Margin& mg) {
    auto s = sc.s;
    ref::ghosts(s, sc.p, mg, &sc.s);
    out      = ref::predict(s, sc.p, mg);
    for (size_t i = 0; i < out.size(); i++) {
        auto before = std::vector<P>{sc.s[i]};
        auto one    = std::vector<P>{out[i]};
        if (one[0].type == ref::Fluid)
            ref::ghosts(one, sc.p, mg, &before);
        out[i] = one[0];
    }
    return !mg.ambiguous();
}

/// the model's rule for one pair on a working state
void collidePair(std::vector<P>& o, int i, int j, R d, const Params& p, bool current, R* nearest = nullptr) {
    if (nearest) // how close an earlier push brought the two: next to zero the direction is lost in rounding
        *nearest = std::min(*nearest, ref::norm(o[j].x - o[i].x));
    if (current) {
        d = ref::norm(o[j].x - o[i].x);
        if (!(d < p.colDist))
            return;
    }
    R wi = o[i].type == ref::Fluid ? 1 / o[i].rho : 0, wj = o[j].type == ref::Fluid ? 1 / o[j].rho : 0;
    R m   = 1 / (wi + wj);
    V n   = (o[j].x - o[i].x) * (1 / ref::norm(o[j].x - o[i].x));
    R rel = dot(o[j].v - o[i].v, n);
    if (rel < 0) {
        R J    = -(1 + p.e) * rel * m;
        o[i].v = o[i].v - n * (J * wi);
        o[j].v = o[j].v + n * (J * wj);
    }
    R dep  = (p.colDist - d) * m;
    o[i].x = o[i].x - n * (dep * wi);
    o[j].x = o[j].x + n * (dep * wj);
}

struct Pr {
    int i, j;
    R d;
};
std::vector<Pr> pairsOf(const std::vector<P>& s, const Params& p, ref::Margin& mg) {
    std::vector<Pr> r;
    R reMax = p.reMax();
    for (size_t i = 0; i < s.size(); i++)
        for (size_t j = 0; j < i; j++) {
            if (s[i].type == ref::Ghost || s[j].type == ref::Ghost || (s[i].type != ref::Fluid && s[j].type != ref::Fluid))
                continue;
            R d = ref::norm(s[i].x - s[j].x);
            mg.see((d - p.colDist) / p.colDist);
            if (d < p.colDist && d < reMax)
                r.push_back({(int) i, (int) j, d});
        }
    return r;
}

void setCollision(Src& g, Scene& sc) {
    sc.p.colDist = dbl(g.pick({0.5, 0.9, 1.0, 0.3}) * sc.p.l0);
    if (g.chance(0.15)) // beyond the particle distance, within the search radius
        sc.p.colDist = dbl(g.real(0.2, 0.99) * sc.p.reMax());
    sc.p.e = g.pick({0.0, 0.2, 1.0, 0.7});
}

bool near(const V& a, const V& b, R tol) {
    return dist(a, b) <= tol;
}

void judgePairs(Src&, Case& c, Scene& sc);

/// exact outcome: every particle in at most a few pairs
void pairs(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN    = 24;
    o.overlap = true;
    o.ghosts  = g.chance(0.2);
    Scene sc  = gen(g, o, {0, 1, 6});
    setCollision(g, sc);
    if (g.chance(0.7))
        sc.p.nu = 0;
    judgePairs(g, c, sc);
}

void judgePairs(Src&, Case& c, Scene& sc) {
    c.note([&](std::ostream& s) { describe(s, sc); });
    ref::Margin mg;
    std::vector<P> pre;
    if (!predicted(sc, pre, mg))
        c.discard();
    auto prs = pairsOf(pre, sc.p, mg);
    std::vector<int> in(sc.s.size(), 0);
    for (auto& q : prs) {
        in[q.i]++;
        in[q.j]++;
    }
    for (auto& q : prs)
        if (q.d < (in[q.i] == 1 && in[q.j] == 1 ? 1e-10L : 1e-3L) * sc.p.l0) // the direction is lost in rounding
            c.discard();
    // relative velocity next to zero: either branch gives the same result up to rounding
    if (mg.ambiguous())
        c.discard();
    std::vector<int> cnt(sc.s.size(), 0);
    bool multi = false;
    for (auto& q : prs) {
        cnt[q.i]++;
        cnt[q.j]++;
    }
    for (size_t i = 0; i < cnt.size(); i++)
        multi = multi || (cnt[i] > 1 && pre[i].type == ref::Fluid);
    Sim sim = makeStub(toInput(sc));
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto got = fromParticles(sim.spy->before);
    R xs = scaleX(sc), vs = 0;
    for (auto& q : pre)
        vs = std::max(vs, ref::norm(q.v));
    // error of the predicted positions relative to the shortest pair amplifies the normal's error
    R dmin = sc.p.colDist;
    for (auto& q : prs)
        dmin = std::min(dmin, q.d);
    R xr = 1e-15L * xs * 8 / dmin; // relative error of a normal
    R tv = (vs * (1e-12L + 4 * xr)) * (multi ? 100 : 1), tx = (1e-15L * xs * 8 + sc.p.colDist * (1e-12L + 4 * xr)) * (multi ? 100 : 1);
    auto compare = [&](const std::vector<P>& want, std::string& why) {
        for (size_t i = 0; i < want.size(); i++) {
            bool okv = near(got[i].v, want[i].v, tv + 1e-12L * ref::norm(want[i].v)), okx = near(got[i].x, want[i].x, tx + sc.p.dt * tv);
            if (okv && okx)
                continue;
            std::ostringstream s;
            s.precision(17);
            s << typeName(pre[i].type) << " " << i << " (in " << cnt[i] << " pairs): velocity " << pre[i].v << " -> "
              << got[i].v << ", expected " << want[i].v << "; position " << pre[i].x << " -> " << got[i].x << ", expected "
              << want[i].x << " (tolerances " << (double) tv << ", " << (double) tx << ")";
            why = s.str();
            return false;
        }
        return true;
    };
    int approaching = 0;
    for (auto& q : prs) {
        V n = pre[q.j].x - pre[q.i].x;
        approaching += dot(pre[q.j].v - pre[q.i].v, n) < 0;
    }
    if (!multi) {
        auto want = pre;
        for (auto& q : prs)
            collidePair(want, q.i, q.j, q.d, sc.p, false);
        std::string why;
        if (!compare(want, why))
            c.fail("a pair did not collide as specified: " + why);
        c.label(prs.empty() ? "no pair" : "separate pairs");
    } else {
        if (prs.size() > 6)
            c.discard();
        // connected pairs: the result must be that of treating each pair once in some order
        std::sort(prs.begin(), prs.end(), [](const Pr& a, const Pr& b) { return std::make_pair(a.i, a.j) < std::make_pair(b.i, b.j); });
        bool ok   = false;
        R nearest = sc.p.colDist;
        std::string why;
        std::vector<int> ord(prs.size());
        for (size_t k = 0; k < ord.size(); k++)
            ord[k] = (int) k;
        do {
            for (int cur = 0; cur < 2 && !ok; cur++) {
                auto want = pre;
                for (int k : ord)
                    collidePair(want, prs[k].i, prs[k].j, prs[k].d, sc.p, cur, &nearest);
                ok = compare(want, why);
            }
        } while (!ok && std::next_permutation(ord.begin(), ord.end()));
        if (!ok && nearest < 1e-3L * sc.p.l0)
            c.discard();
        if (!ok)
            c.fail("no order of treating each of the " + std::to_string(prs.size()) + " pairs once gives this result; last compared: " + why);
        c.label("connected pairs");
    }
    c.label("pairs " + std::to_string(std::min<size_t>(prs.size(), 6)));
    if (approaching)
        c.label("approaching");
    if (approaching < (int) prs.size())
        c.label("separating");
    c.nontrivial(approaching > 0);
}

/// many walls in one direction: whatever the order, the particle bounces once and is pushed by the sum of the depths
/// (depths at the start of the phase) or by the largest (depths at the time of treatment)
void stack(Src& g, Case& c) {
    Opt o;
    o.maxN   = 1;
    o.ghosts = false;
    Scene sc = gen(g, o, {0, 1, 0});
    auto& p  = sc.p;
    setCollision(g, sc);
    p.nu = 0;
    p.g  = {};
    int k = (int) (g.chance(0.3) ? g.range(8, 60) : g.range(1, 8));
    V u   = {g.sym(1), g.sym(1), p.dim == 3 ? g.sym(1) : 0.0};
    if (!(ref::norm(u) > 0.1L))
        u = {1, 0, 0};
    u = u * (1 / ref::norm(u));
    double lo = dbl(p.colDist);
    P f;
    f.type   = ref::Fluid;
    f.rho    = g.pick({1000.0, 1.0, 13600.0});
    double s = dbl(p.colDist / p.dt);
    f.v      = u * (g.pick({0.1, -0.05, 0.0, 0.01}) * s);
    f.v      = {dbl(f.v.x), dbl(f.v.y), dbl(f.v.z)};
    V at     = f.v * p.dt; // where it is in the collision phase
    sc.s     = {f};
    for (int i = 0; i < k; i++) {
        P w;
        w.type = g.chance(0.7) ? ref::Wall : ref::Dummy;
        double d = g.real(0.3, 0.97) * lo;
        w.x = at + u * d;
        w.x = {dbl(w.x.x), dbl(w.x.y), dbl(w.x.z)};
        bool same = false;
        for (auto& q : sc.s)
            same = same || dist(q.x, w.x) < 1e-6L * lo;
        if (!same)
            sc.s.push_back(w);
    }
    scene::shuffleParticles(g, sc.s);
    R m  = 3 * p.l0 + 3 * p.colDist;
    p.lo = {dbl(-m), dbl(-m), p.dim == 3 ? dbl(-m) : 0.0};
    p.hi = {dbl(m), dbl(m), p.dim == 3 ? dbl(m) : 0.0};
    c.note([&](std::ostream& os) { describe(os, sc); });
    size_t me = 0;
    R sum = 0, most = 0;
    for (size_t i = 0; i < sc.s.size(); i++)
        if (sc.s[i].type == ref::Fluid)
            me = i;
    for (auto& q : sc.s)
        if (q.type != ref::Fluid) {
            R d  = ref::norm(q.x - at);
            sum += p.colDist - d;
            most = std::max(most, p.colDist - d);
        }
    if (sum > 2.5L * p.l0 || sum - most > 2.5L * p.l0)
        c.label("pushed far");
    p.lo = {dbl(p.lo.x - sum), dbl(p.lo.y - sum), p.dim == 3 ? dbl(p.lo.z - sum) : p.lo.z};
    p.hi = {dbl(p.hi.x + sum), dbl(p.hi.y + sum), p.dim == 3 ? dbl(p.hi.z + sum) : p.hi.z};
    Sim sim = makeStub(toInput(sc));
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto got = fromParticles(sim.spy->before);
    R vn     = dot(sc.s[me].v, u);
    V v      = vn > 0 ? u * (-p.e * vn) : sc.s[me].v;
    R tol    = 1e-11L * (p.colDist + sum), tv = 1e-11L * ref::norm(sc.s[me].v) + 1e-300L;
    REQUIRE(
        dist(got[me].v, v) <= tv,
        "a particle with velocity " << sc.s[me].v << " against " << sc.s.size() - 1 << " walls on one line leaves with " << got[me].v << ", expected " << v
    );
    REQUIRE(
        dist(got[me].x, at - u * sum) <= tol || dist(got[me].x, at - u * most) <= tol,
        "a particle within the collision distance of " << sc.s.size() - 1 << " walls on one line is moved from " << at << " to " << got[me].x << ", expected "
                                                       << at - u * sum << " (or " << at - u * most << ")"
    );
    c.label(sc.s.size() > 9 ? "more than 8 walls" : "1-8 walls");
    c.nontrivial(sc.s.size() > 2);
}

/// one fluid particle among 3 to 6 others in contact with it
void star(Src& g, Case& c) {
    Opt o;
    o.maxN   = 1;
    o.ghosts = false;
    Scene sc = gen(g, o, {0, 1, 0});
    auto& p  = sc.p;
    setCollision(g, sc);
    p.nu = 0;
    p.g  = {};
    int k    = (int) g.range(3, g.chance(0.5) ? 6 : 5);
    double s = dbl(p.colDist / p.dt);
    P f;
    f.v  = {g.sym(0.1) * s, g.sym(0.1) * s, p.dim == 3 ? g.sym(0.1) * s : 0.0};
    V at = f.v * p.dt;
    sc.s = {f};
    for (int i = 0; i < k; i++) {
        P w;
        w.type = g.weighted({1, 2, 1}) == 0 ? ref::Fluid : g.chance(0.7) ? ref::Wall : ref::Dummy;
        V u    = {g.sym(1), g.sym(1), p.dim == 3 ? g.sym(1) : 0.0};
        if (!(ref::norm(u) > 0.1L))
            u = {1, 0, 0};
        if (w.type == ref::Fluid) {
            w.rho = g.pick({1000.0, 500.0});
            w.v   = {g.sym(0.1) * s, g.sym(0.1) * s, p.dim == 3 ? g.sym(0.1) * s : 0.0};
        }
        w.x = at + u * (g.real(0.4, 0.97) * p.colDist / ref::norm(u)) - w.v * p.dt;
        w.x = {dbl(w.x.x), dbl(w.x.y), dbl(w.x.z)};
        sc.s.push_back(w);
    }
    scene::shuffleParticles(g, sc.s);
    R m  = 6 * p.l0 + 3 * p.colDist;
    p.lo = {dbl(-m), dbl(-m), p.dim == 3 ? dbl(-m) : 0.0};
    p.hi = {dbl(m), dbl(m), p.dim == 3 ? dbl(m) : 0.0};
    judgePairs(g, c, sc);
}

/// two particles almost at one place or approaching very slowly
void closePair(Src& g, Case& c) {
    Opt o;
    o.maxN   = 1;
    o.ghosts = false;
    Scene sc = gen(g, o, {0, 1, 0});
    auto& p  = sc.p;
    setCollision(g, sc);
    p.nu = 0;
    p.g  = {};
    auto dir = [&] {
        V u = {g.sym(1), g.sym(1), p.dim == 3 ? g.sym(1) : 0.0};
        if (!(ref::norm(u) > 0.1L))
            u = {0, 1, 0};
        return u * (1 / ref::norm(u));
    };
    bool slow = g.chance(0.6);
    double s  = dbl(p.colDist / p.dt * (slow ? g.logu(1e-14, 1e-2) : 0.1)), d = slow && g.chance(0.5) ? g.real(0.1, 0.9) : g.logu(1e-8, 0.5);
    P a, b;
    a.rho  = g.pick({1000.0, 1.0, 13600.0});
    b.rho  = g.pick({1000.0, 500.0});
    b.type = g.weighted({2, 2, 1}) == 0 ? ref::Fluid : g.chance(0.7) ? ref::Wall : ref::Dummy;
    V u = dir(), at = dir() * (g.chance(0.5) ? 0.0L : p.l0);
    a.v = dir() * s;
    if (b.type == ref::Fluid)
        b.v = dir() * (s * g.pick({0.0, 1.0, 0.5}));
    a.x = at - a.v * p.dt;
    b.x = at + u * (p.colDist * d) - b.v * p.dt;
    for (P* q : {&a, &b}) {
        q->x = {dbl(q->x.x), dbl(q->x.y), dbl(q->x.z)};
        q->v = {dbl(q->v.x), dbl(q->v.y), dbl(q->v.z)};
    }
    sc.s = {a, b};
    scene::shuffleParticles(g, sc.s);
    R m  = 6 * p.l0 + 3 * p.colDist;
    p.lo = {dbl(-m), dbl(-m), p.dim == 3 ? dbl(-m) : 0.0};
    p.hi = {dbl(m), dbl(m), p.dim == 3 ? dbl(m) : 0.0};
    c.label(d < 1e-3 ? "very close" : "close");
    if (slow)
        c.label("slow");
    judgePairs(g, c, sc);
}

/// clusters: conservation laws
void cluster(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN    = 60;
    o.overlap = true;
    o.walls   = g.chance(0.4);
    o.ghosts  = g.chance(0.2);
    Scene sc  = gen(g, o, {4, 5, 1});
    setCollision(g, sc);
    if (g.chance(0.3))
        sc.p.colDist = dbl(1.3 * sc.p.l0);
    sc.p.nu = 0;
    sc.p.g  = {};
    bool walls = false;
    for (auto& q : sc.s)
        if (q.type != ref::Fluid) {
            q.v   = {};
            walls = walls || q.type != ref::Ghost;
        }
    c.note([&](std::ostream& s) { describe(s, sc); });
    ref::Margin mg;
    std::vector<P> pre;
    if (!predicted(sc, pre, mg))
        c.discard();
    for (auto& l : ref::neighbours(pre, 1e-3L * sc.p.l0, nullptr))
        if (!l.empty())
            c.discard();
    Sim sim = makeStub(toInput(sc));
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto got = fromParticles(sim.spy->before);
    auto prs = pairsOf(pre, sc.p, mg);
    V p0, p1, c0, c1;
    R e0 = 0, e1 = 0, mass = 0, pm = 0, cm = 0;
    std::vector<bool> wallPair(sc.s.size(), false), anyPair(sc.s.size(), false);
    // connected components that touch a wall do not conserve momentum: restrict the law to scenes without walls
    for (auto& q : prs)
        anyPair[q.i] = anyPair[q.j] = true;
    bool wallHit = false;
    for (auto& q : prs)
        wallHit = wallHit || pre[q.i].type != ref::Fluid || pre[q.j].type != ref::Fluid;
    // fluid that was pushed out of the domain keeps its state and still counts
    for (size_t i = 0; i < pre.size(); i++) {
        if (pre[i].type != ref::Fluid) {
            bool flown = sc.s[i].type == ref::Fluid; // left the domain in the prediction: rounded
            REQUIRE(
                dist(got[i].x, pre[i].x) <= (flown ? 1e-15L * 8 * scaleX(sc) + 1e-15L * ref::norm(pre[i].x) : 0) &&
                    dist(got[i].v, pre[i].v) <= (flown ? 1e-15L * ref::norm(pre[i].v) : 0),
                "a collision moved " << typeName(pre[i].type) << " " << i << " from " << sc.s[i].x << " to " << got[i].x
                                     << ", velocity " << got[i].v
            );
            continue;
        }
        R m = pre[i].rho;
        p0  = p0 + pre[i].v * m;
        p1  = p1 + got[i].v * m;
        c0  = c0 + pre[i].x * m;
        c1  = c1 + got[i].x * m;
        e0 += m * dot(pre[i].v, pre[i].v);
        e1 += m * dot(got[i].v, got[i].v);
        pm += m * (ref::norm(pre[i].v) + ref::norm(got[i].v));
        cm += m * (ref::norm(pre[i].x) + ref::norm(got[i].x));
        mass += m;
        if (!anyPair[i] && !mg.ambiguous()) {
            REQUIRE(
                dist(got[i].v, pre[i].v) <= 1e-14L * ref::norm(pre[i].v) &&
                    dist(got[i].x, pre[i].x) <= 1e-15L * 8 * scaleX(sc),
                "particle " << i << " is not within the collision distance of any other, but changed from x " << pre[i].x
                            << " v " << pre[i].v << " to x " << got[i].x << " v " << got[i].v
            );
        }
    }
    if (!wallHit) {
        REQUIRE(dist(p0, p1) <= 1e-11L * pm, "density-weighted momentum of the fluid changed from " << p0 << " to " << p1);
        REQUIRE(dist(c0, c1) <= 1e-11L * (cm + mass * sc.p.l0), "density-weighted centre of the fluid moved from " << c0 * (1 / mass) << " to " << c1 * (1 / mass));
    }
    REQUIRE(e1 <= e0 * (1 + 1e-10L), "kinetic energy of the fluid grew from " << (double) e0 << " to " << (double) e1);
    c.label(walls ? (wallHit ? "wall hit" : "walls not hit") : "fluid only");
    c.label("pairs " + std::string(prs.empty() ? "0" : prs.size() < 4 ? "1-3" : prs.size() < 20 ? "4-19" : "20+"));
    c.nontrivial(prs.size() >= 2);
}

/// pairs exactly at the collision distance, in numbers without rounding
void exact(Src& g, Case& c) {
    Scene sc;
    auto& p   = sc.p;
    p.dim     = g.chance(0.5) ? 3 : 2;
    p.l0      = 1;
    p.dt      = g.pick({0.25, 0.5, 0.125});
    p.nu      = 0;
    p.g       = {};
    p.reN = p.reG = p.reL = g.pick({2.5, 3.5});
    p.colDist = g.pick({0.5, 1.0, 0.75});
    p.e       = g.pick({0.0, 0.5, 1.0});
    p.lo      = {-8, -8, p.dim == 3 ? -8.0 : 0.0};
    p.hi      = {8, 8, p.dim == 3 ? 8.0 : 0.0};
    int axis  = (int) g.raw((uint64_t) p.dim);
    double va = (double) g.range(0, 4) * 0.25, vb = -(double) g.range(0, 4) * 0.25;
    int delta = (int) g.range(0, 2); // 0: exactly at the distance, 1: a bit more, 2: twice
    double gap = (double) p.colDist * (delta == 2 ? 2 : 1) + (delta == 1 ? 1.0 / 1024 : 0);
    double xa = (double) g.range(-8, 8) * 0.125, xb = xa + gap;
    P a, b;
    auto set = [&](V& v, double t) { (axis == 0 ? v.x : axis == 1 ? v.y : v.z) = t; };
    int kind = (int) g.raw(3);
    a.type   = ref::Fluid;
    b.type   = kind == 0 ? ref::Fluid : kind == 1 ? ref::Wall : ref::Dummy;
    if (b.type != ref::Fluid)
        vb = 0;
    set(a.x, xa - va * (double) p.dt);
    set(b.x, xb - vb * (double) p.dt);
    set(a.v, va);
    set(b.v, vb);
    sc.s = {a, b};
    if (g.chance(0.5))
        std::swap(sc.s[0], sc.s[1]);
    c.note([&](std::ostream& s) { describe(s, sc); });
    Sim sim = makeStub(toInput(sc));
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto got = fromParticles(sim.spy->before);
    for (int i = 0; i < 2; i++) {
        V x = sc.s[i].type == ref::Fluid ? sc.s[i].x + sc.s[i].v * p.dt : sc.s[i].x;
        REQUIRE(
            dist(got[i].v, sc.s[i].v) == 0 && dist(got[i].x, x) == 0,
            "pair at " << (delta == 0 ? "exactly" : "more than") << " the collision distance: particle " << i
                       << " changed from x " << x << " v " << sc.s[i].v << " to x " << got[i].x << " v " << got[i].v
        );
    }
    c.nontrivial(delta == 0 && va - vb > 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C09.pairs",
          "isolated groups and small clouds with overlaps, all type combinations, densities, restitution 0..1; exact rule for "
          "separate pairs, 'some order of treating every pair once' for connected ones; non-trivial: an approaching pair",
          50000,
          800000,
          pairs},
         {"C09.close", "two particles at a distance down to 1e-8 of the collision distance or with velocities down to 1e-14 of it per step; non-trivial: they approach", 6000, 100000, closePair},
         {"C09.star", "one fluid particle in contact with 3 to 6 others: some order of treating every pair once; non-trivial: an approaching pair", 3000, 60000, star},
         {"C09.stack", "a fluid particle in contact with up to 60 walls in one direction: bounces once, pushed by the sum or the largest of the depths; non-trivial: more than 1 wall", 5000, 100000, stack},
         {"C09.cluster", "overlapping clusters without gravity and viscosity: momentum, centre of mass, energy, walls; non-trivial: >=2 colliding pairs", 40000, 500000, cluster},
         {"C09.exact", "pairs exactly at or beyond the collision distance in exact arithmetic; non-trivial: exactly at the distance and approaching", 6000, 30000, exact}}
    );
}
