// C02: neighbour search returns exactly the particles within the radius
#include "nbcheck.hpp"

using namespace pbt;
using Vec = Eigen::Vector3d;

namespace {

Domain genDomain(Src& g, double re, bool threeD, bool large) {
    Domain d;
    auto len = [&](double cells) {
        switch (g.weighted({3, 3, 2, 1})) {
        case 0: return re * g.real(0, cells);
        case 1: return re * (double) g.range(0, (int64_t) cells); // borders coincide with cell borders
        case 2: return re * (g.range(1, (int64_t) std::max(1.0, cells)) + g.real(-1e-9, 1e-9));
        default: return re * g.real(0, 1); // thinner than the radius
        }
    };
    double c0 = large ? 20 : g.pick({6, 3, 12});
    bool lon  = !threeD && g.chance(0.1);
    bool huge = g.chance(large ? 0.15 : 0.02); // many more cells than particles
    d.xLength = len(lon ? 300 : c0);
    d.yLength = len(c0);
    d.zLength = threeD ? len(large ? 8 : std::min(c0, 5.0)) : (g.chance(0.25) ? len(2) : 0.0);
    if (huge)
        for (double* l : {&d.xLength, &d.yLength, &d.zLength})
            if (*l > 0 && (l == &d.xLength || g.chance(0.7)))
                *l = re * g.logu(1e3, 1e6) * (1 + g.unit());
    if (g.chance(0.15))
        std::swap(d.xLength, d.yLength);
    double off = g.pick({0.0, 1.0, 100.0, 10000.0}) * re;
    d.xMin     = g.sym(off);
    d.yMin     = g.sym(off);
    d.zMin     = threeD ? g.sym(off) : (d.zLength > 0 ? -d.zLength / 2 : 0.0);
    d.xMax     = d.xMin + d.xLength;
    d.yMax     = d.yMin + d.yLength;
    d.zMax     = d.zMin + d.zLength;
    d.xLength  = d.xMax - d.xMin;
    d.yLength  = d.yMax - d.yMin;
    d.zLength  = d.zMax - d.zMin;
    return d;
}

double genCoord(Src& g, double lo, double hi, double re) {
    double len = hi - lo, v;
    switch (g.weighted({6, 2, 2, 3, 2})) {
    case 0: v = lo + len * g.unit(); break;
    case 1: return lo;
    case 2: return hi;
    case 3: { // on or next to a cell border
        double k = (double) g.range(0, (int64_t) std::min(len / re + 1, 1000.0));
        v        = lo + k * re;
        switch (g.raw(4)) {
        case 1: v = std::nextafter(v, 1e300); break;
        case 2: v = std::nextafter(v, -1e300); break;
        case 3: v += g.sym(1e-6) * re; break;
        }
        break;
    }
    default: v = lo + len * g.real(0, 1); break;
    }
    return std::min(std::max(v, lo), hi);
}

void placeParticles(Src& g, Particles& ps, const Domain& d, double re, bool first, int n, double outside) {
    Vec lo(d.xMin, d.yMin, d.zMin), hi(d.xMax, d.yMax, d.zMax);
    for (int i = 0; i < n; i++) {
        Vec x;
        int how = (int) g.weighted({6, 3.0 * (i > 0), outside, first ? 0.0 : 3.0});
        if (how == 3) { // small move or stay
            x = ps[i].position;
            if (g.chance(0.6))
                x += Vec(g.sym(1), g.sym(1), d.zLength > 0 ? g.sym(1) : 0.0) * re;
        } else if (how == 1) { // near another particle: often exactly at or about the radius
            const Vec& b = ps[(size_t) g.raw((uint64_t) i)].position;
            double r     = re * g.pick({1.0, 0.5, 0.999999, 1.000001, 0.01, 0.0});
            Vec dir(g.sym(1), g.sym(1), d.zLength > 0 ? g.sym(1) : 0.0);
            if (dir.norm() < 1e-3)
                dir = Vec(1, 0, 0);
            x = b + dir.normalized() * r;
        } else {
            for (int k = 0; k < 3; k++)
                x[k] = genCoord(g, lo[k], hi[k], re);
            if (how == 2) {
                int k = (int) g.raw(d.zLength > 0 ? 3 : 2);
                double o = g.pick({1e-3, 1.0, 50.0}) * re * (1 + g.unit());
                x[k] = g.chance(0.5) ? lo[k] - o : hi[k] + o;
            }
        }
        if (how != 2 && g.chance(0.9))
            for (int k = 0; k < 3; k++)
                x[k] = std::min(std::max(x[k], lo[k]), hi[k]);
        if (first) {
            int t = (int) g.weighted({1, 6, 2, 2});
            ps.add(Particle(i, static_cast<ParticleType>(t), x, Vec::Zero(), 1000.0));
        } else
            ps[(size_t) i].position = x;
    }
}

void history(Src& g, Case& c, bool large) {
    bool threeD = g.chance(0.5);
    double re   = g.pick({1.0, 0.31, 0.05, 7.5, 0.0});
    if (re == 0.0)
        re = g.logu(1e-4, 100);
    Domain d       = genDomain(g, re, threeD, large);
    double outside = g.pick({0.0, 0.7});
    int n          = large ? (int) g.range(200, 1500) : (int) g.range(0, g.pick({12, 40, 120}));
    Particles ps;
    placeParticles(g, ps, d, re, true, n, outside);
    NeighborSearcher ns(re, d, (size_t) n);
    int rounds   = large ? (int) g.range(1, 2) : (int) g.range(1, 4);
    size_t pairs = 0;
    // in a domain of very many cells, coordinates relative to its corner are rounded more coarsely
    double cells = std::max({d.xLength, d.yLength, d.zLength}) / re;
    double tie   = 1e-12 + (cells > 1000 ? 1e-15 * cells : 0);
    if (cells > 1000)
        c.label("huge domain");
    for (int k = 0; k < rounds; k++) {
        if (k > 0)
            placeParticles(g, ps, d, re, false, n, outside);
        std::vector<ParticleType> before;
        for (auto& p : ps)
            before.push_back(p.type);
        Particles pre = ps;
        c.note([&](std::ostream& o) {
            o << "search " << k << " re=" << re << " domain x " << d.xMin << ".." << d.xMax << " y " << d.yMin << ".."
              << d.yMax << " z " << d.zMin << ".." << d.zMax;
            for (int i = 0; i < n && i < 30; i++)
                o << "\n  " << i << " type " << (int) ps[i].type << " (" << ps[i].position.transpose() << ")";
        });
        {
            CaptureStderr cap;
            ns.setNeighbors(ps);
        }
        REQUIRE(ps.size() == n, "number of particles changed");
        for (int i = 0; i < n; i++) {
            bool in = nbcheck::inBox(pre[i].position, d);
            ParticleType want = in ? before[i] : ParticleType::Ghost;
            REQUIRE(
                ps[i].type == want,
                "search " << k << ": particle " << i << " at (" << pre[i].position.transpose() << ") "
                          << (in ? "inside" : "outside") << " the domain has type " << (int) ps[i].type << ", was "
                          << (int) before[i]
            );
            REQUIRE(ps[i].position == pre[i].position, "search moved particle " << i);
            REQUIRE(ps[i].id == i, "search changed id of particle " << i);
        }
        auto st = nbcheck::check(c, ps, re, ("search " + std::to_string(k)).c_str(), tie);
        pairs += st.pairs;
        if (st.ties)
            c.label("tie at radius");
        if (st.ghosts)
            c.label("ghosts");
    }
    c.label(threeD ? "3D" : "2D");
    c.label(rounds > 1 ? "reused searcher" : "single search");
    if (n == 0)
        c.label("no particles");
    c.nontrivial(pairs > 0 && n > 2);
}

/// tens of thousands of particles; the lists of a sample of them are checked against all others
void many(Src& g, Case& c) {
    bool threeD = g.chance(0.5);
    int n       = (int) g.pick({33000, 66000, 70000}) + (int) g.raw(1000);
    double re   = g.pick({1.0, 0.31, 0.05});
    double per  = g.real(2, 12); // particles per cell
    Domain d;
    double cells = n / per;
    d.xLength    = re * (threeD ? std::cbrt(cells) : std::sqrt(cells)) * g.real(0.5, 2);
    d.yLength    = re * (threeD ? std::cbrt(cells) : std::sqrt(cells)) * g.real(0.5, 2);
    d.zLength    = threeD ? re * std::cbrt(cells) : 0;
    d.xMin       = g.sym(10);
    d.yMin       = g.sym(10);
    d.zMin       = threeD ? g.sym(10) : 0;
    d.xMax       = d.xMin + d.xLength;
    d.yMax       = d.yMin + d.yLength;
    d.zMax       = d.zMin + d.zLength;
    uint64_t h   = g.raw(1ull << 40) * 2 + 1;
    auto rnd     = [&] {
        h = h * 6364136223846793005ull + 1442695040888963407ull;
        return (double) (h >> 11) / 9007199254740992.0;
    };
    Particles ps;
    for (int i = 0; i < n; i++) {
        Vec x(d.xMin + rnd() * d.xLength, d.yMin + rnd() * d.yLength, d.zMin + rnd() * d.zLength);
        x = x.cwiseMin(Vec(d.xMax, d.yMax, d.zMax));
        ps.add(Particle(i, static_cast<ParticleType>(rnd() < 0.02 ? 0 : 1 + (int) (rnd() * 2.99)), x, Vec::Zero(), 1000.0));
    }
    c.note([&](std::ostream& o) { o << n << " particles, re=" << re << ", " << (threeD ? "3D" : "2D") << ", " << per << " per cell"; });
    NeighborSearcher ns(re, d, (size_t) n);
    {
        CaptureStderr cap;
        ns.setNeighbors(ps);
    }
    auto st = nbcheck::check(c, ps, re, "search", 1e-10, n / 150);
    c.label(threeD ? "3D" : "2D");
    c.nontrivial(st.pairs > 100);
}

} // namespace

int main(int argc, char** argv) {
    const char* rule =
        "random domain (offset, cell-aligned or not, thin, long), radius, particles on faces, corners, cell borders, "
        "near the radius of others, ghosts and outsiders; one searcher used 1-4 times; non-trivial: >2 particles and a "
        "pair within the radius";
    return engineMain(
        argc,
        argv,
        {{"C02.history", rule, 16000, 600000, [](Src& g, Case& c) { history(g, c, false); }},
         {"C02.large", rule, 160, 5000, [](Src& g, Case& c) { history(g, c, true); }},
         {"C02.many", "33000 - 71000 particles, lists of about 150 of them checked against all others; non-trivial: more than 100 pairs", 24, 800, many, 60}}
    );
}
