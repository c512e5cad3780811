// C03: a particle outside the domain becomes an inert ghost and disturbs nothing
#include "nbcheck.hpp"

#include <limits>
#include <sstream>

using namespace pbt;
using namespace scene;
using Vec = Eigen::Vector3d;

namespace {

const double INF = std::numeric_limits<double>::infinity();
const double NaN = std::numeric_limits<double>::quiet_NaN();

/// a coordinate that is outside [lo,hi], or not finite
double outsideCoord(Src& g, double lo, double hi, double l0) {
    bool up = g.chance(0.5);
    switch (g.weighted({3, 3, 2, 2, 2, 1, 2})) {
    case 0: return up ? std::nextafter(hi, INF) : std::nextafter(lo, -INF);
    case 1: return up ? hi + l0 * g.real(0.01, 3) : lo - l0 * g.real(0.01, 3);
    case 2: return up ? hi + l0 * g.logu(1, 1e8) : lo - l0 * g.logu(1, 1e8);
    case 3: return (up ? 1 : -1) * g.pick({1e10, 1e18, 1e30, 1e300, 1.7e308});
    case 4: return up ? INF : -INF;
    case 5: return -NaN;
    default: return NaN;
    }
}

/// number of warnings in the captured text
int warnings(const std::string& err) {
    int n = 0;
    std::string low;
    for (char ch : err)
        low += (char) std::tolower((unsigned char) ch);
    for (size_t a = low.find("warning"); a != std::string::npos; a = low.find("warning", a + 7))
        n++;
    return n;
}
/// is there a line with a warning that names this particle?
bool warned(const std::string& err, int id) {
    std::istringstream is(err);
    std::string l;
    while (std::getline(is, l)) {
        if (!warnings(l))
            continue;
        for (size_t a = 0; a < l.size();) {
            if (!std::isdigit((unsigned char) l[a])) {
                a++;
                continue;
            }
            size_t e = a;
            while (e < l.size() && std::isdigit((unsigned char) l[e]))
                e++;
            if (e - a < 9 && std::stoi(l.substr(a, e - a)) == id)
                return true;
            a = e;
        }
    }
    return false;
}

/// closed box predicate on searcher level, warnings
void boundary(Src& g, Case& c) {
    Scene sc;
    Opt o;
    o.maxN = 25;
    sc     = gen(g, o, {3, 3, 1});
    Domain d = toDomain(sc.p);
    double l0 = (double) sc.p.l0, re = (double) sc.p.reMax();
    Particles ps = toParticles(sc.s);
    int n        = ps.size();
    NeighborSearcher ns(re, d, (size_t) n);
    int rounds = historyLength(g, 4, 100);
    int turned = 0, edge = 0;
    for (int k = 0; k < rounds; k++) {
        std::vector<ParticleType> type0;
        for (auto& p : ps) {
            double lo[3] = {d.xMin, d.yMin, d.zMin}, hi[3] = {d.xMax, d.yMax, d.zMax};
            if (g.chance(rounds > 4 ? 0.01 : k == 0 ? 0.25 : 0.15)) {
                int a = (int) g.raw(3);
                if (g.chance(0.5))
                    p.position[a] = outsideCoord(g, lo[a], hi[a], l0);
                else {
                    p.position[a] = g.chance(0.5) ? lo[a] : hi[a];
                    edge++;
                }
            }
            type0.push_back(p.type);
        }
        Particles pre = ps;
        std::string err;
        c.note([&](std::ostream& s) {
            s << "search " << k << " domain x " << d.xMin << ".." << d.xMax << " y " << d.yMin << ".." << d.yMax << " z "
              << d.zMin << ".." << d.zMax << " re " << re;
            for (int i = 0; i < n; i++)
                s << "\n  " << i << " " << typeName((int) type0[i]) << " " << pre[i].position.transpose();
        });
        {
            CaptureStderr cap;
            ns.setNeighbors(ps);
            err = cap.take();
        }
        bool any = false;
        int left = 0;
        for (int i = 0; i < n; i++) {
            bool in  = nbcheck::inBox(pre[i].position, d);
            bool was = type0[i] == ParticleType::Ghost;
            REQUIRE(
                ps[i].type == (in ? type0[i] : ParticleType::Ghost),
                "search " << k << ": particle " << i << " (" << typeName((int) type0[i]) << ") at "
                          << pre[i].position.transpose() << (in ? " inside" : " outside") << " the domain is now "
                          << typeName((int) ps[i].type)
            );
            REQUIRE(
                std::memcmp(ps[i].position.data(), pre[i].position.data(), 24) == 0 &&
                    std::memcmp(ps[i].velocity.data(), pre[i].velocity.data(), 24) == 0,
                "search changed the position or velocity of particle " << i
            );
            if (!in && !was) {
                any = true;
                left++;
                turned++;
                REQUIRE(warned(err, i), "search " << k << ": no warning for particle " << i << " at " << pre[i].position.transpose() << ": " << err);
            }
        }
        REQUIRE(warnings(err) == left, "search " << k << ": " << left << " particles left, but there are " << warnings(err) << " warnings: " << err);
        REQUIRE(any == !err.empty(), "search " << k << ": " << (any ? "no warning although a particle left" : "unexpected message: ") << err);
        nbcheck::check(c, ps, re, "search");
    }
    if (edge)
        c.label("on boundary");
    if (turned)
        c.label("turned ghost");
    c.nontrivial(turned > 0);
}

/// whole steps: ghosts stay ghosts, are frozen and zero; the others behave as if the ghosts did not exist
void inert(Src& g, Case& c) {
    Opt o;
    o.maxN    = 40;
    o.outside = true;
    o.overlap = g.chance(0.3);
    Scene sc  = gen(g, o, {5, 3, 1});
    if (sc.s.empty())
        c.discard();
    double lo[3] = {(double) sc.p.lo.x, (double) sc.p.lo.y, (double) sc.p.lo.z},
           hi[3] = {(double) sc.p.hi.x, (double) sc.p.hi.y, (double) sc.p.hi.z};
    for (auto& q : sc.s) {
        if (g.chance(0.12)) {
            int a        = (int) g.raw(3);
            double v     = outsideCoord(g, lo[a], hi[a], (double) sc.p.l0);
            R* x[3]      = {&q.x.x, &q.x.y, &q.x.z};
            *x[a]        = v;
        }
        if (g.chance(0.1)) { // will leave in the first move
            double big = (double) ((sc.p.hi.x - sc.p.lo.x) + sc.p.l0) * 3 / (double) sc.p.dt;
            q.v.x      = g.chance(0.5) ? big : -big;
        }
    }
    c.note([&](std::ostream& s) { describe(s, sc); });
    int steps = historyLength(g, 4, 60);
    auto in   = toInput(sc);
    Sim sim   = makeSpied(in);
    // the same scene in which every particle that starts outside has been a ghost at an arbitrary place all along,
    // or is not there at all
    Domain d = toDomain(sc.p);
    Scene gh = sc, rm = sc;
    rm.s.clear();
    std::vector<int> keep;
    int out0 = 0;
    for (size_t i = 0; i < sc.s.size(); i++) {
        if (sc.s[i].type == ref::Ghost || !nbcheck::inBox(ev(sc.s[i].x), d)) {
            out0 += sc.s[i].type != ref::Ghost;
            gh.s[i].type = ref::Ghost;
            double m     = dbl(5 * sc.p.l0);
            gh.s[i].x    = {g.sym(m), g.sym(m), 0};
            gh.s[i].v    = {g.sym(m), 0, 0};
            gh.s[i].rho  = 1;
        } else {
            keep.push_back((int) i);
            rm.s.push_back(sc.s[i]);
        }
    }
    auto zeroPressure = g.chance(0.3);
    Sim simG = makeSpied(toInput(gh)), simR = makeStub(toInput(rm));
    auto weightOf = [](int k) { return 100.0 + 37.0 * ((k * 7919) % 101); };
    if (zeroPressure) {
        sim.spy->real.reset();
        simG.spy->real.reset();
    }
    (void) weightOf;
    std::vector<bool> ghost(sc.s.size(), false);
    Particles prev = sim.mps.particles;
    bool compare   = true;
    int turned     = 0;
    for (int k = 0; k < steps; k++) {
        bool failed = false;
        std::string err;
        Guarded r1, r2, r3;
        {
            CaptureStderr cap;
            r1  = guarded([&] { sim.mps.stepForward(); });
            err = cap.take();
            if (r1.ok()) {
                r2 = guarded([&] { simG.mps.stepForward(); });
                if (k == 0)
                    r3 = guarded([&] { simR.mps.stepForward(); });
            }
        }
        if (!r1.ok()) { // the linear solver may give up; then it must give up without the ghosts, too
            c.label("solver gave up");
            failed = true;
        }
        if (failed)
            break;
        auto& ps = sim.mps.particles;
        int left = 0;
        for (int i = 0; i < ps.size(); i++) {
            bool startOut = !nbcheck::inBox(prev[i].position, d);
            if (prev[i].type != ParticleType::Ghost && startOut) {
                REQUIRE(ps[i].type == ParticleType::Ghost, "step " << k << ": particle " << i << " started outside but is " << typeName((int) ps[i].type));
                turned++;
            }
            if (prev[i].type == ParticleType::Ghost || startOut) {
                REQUIRE(ps[i].type == ParticleType::Ghost, "step " << k << ": ghost " << i << " became " << typeName((int) ps[i].type));
                REQUIRE(
                    !std::memcmp(ps[i].position.data(), prev[i].position.data(), 24) &&
                        !std::memcmp(ps[i].velocity.data(), prev[i].velocity.data(), 24),
                    "step " << k << ": ghost " << i << " moved: " << prev[i].position.transpose() << " -> "
                            << ps[i].position.transpose() << ", velocity " << prev[i].velocity.transpose() << " -> "
                            << ps[i].velocity.transpose()
                );
            }
            if (ps[i].type == ParticleType::Ghost) {
                REQUIRE(ps[i].pressure == 0.0, "step " << k << ": ghost " << i << " has pressure " << ps[i].pressure);
                REQUIRE(ps[i].numberDensity == 0.0, "step " << k << ": ghost " << i << " has number density " << ps[i].numberDensity);
                if (sim.spy->real && sc.p.implicit)
                    REQUIRE(ps[i].boundaryCondition == FluidState::Ignored, "step " << k << ": ghost " << i << " is not ignored by the pressure equation");
                if (prev[i].type != ParticleType::Ghost) {
                    turned++;
                    left++;
                    REQUIRE(warned(err, i), "step " << k << ": no warning for particle " << i << ", which became a ghost: " << err);
                }
            }
        }
        REQUIRE(warnings(err) == left, "step " << k << ": " << left << " particles left, but there are " << warnings(err) << " warnings: " << err);
        // (a) same as having been ghosts from the start: identical arithmetic
        if (compare && r2.ok()) {
            auto& pg = simG.mps.particles;
            for (int i : keep) {
                bool same = ps[i].type == pg[i].type &&
                            !std::memcmp(ps[i].position.data(), pg[i].position.data(), 24) &&
                            !std::memcmp(ps[i].velocity.data(), pg[i].velocity.data(), 24) &&
                            ps[i].pressure == pg[i].pressure;
                REQUIRE(
                    same,
                    "step " << k << ": particle " << i << " depends on a particle outside the domain: x "
                            << ps[i].position.transpose() << " vs " << pg[i].position.transpose() << ", v "
                            << ps[i].velocity.transpose() << " vs " << pg[i].velocity.transpose() << ", p "
                            << ps[i].pressure << " vs " << pg[i].pressure
                );
            }
            REQUIRE(sim.mps.courant == simG.mps.courant, "step " << k << ": Courant number depends on a particle outside: " << sim.mps.courant << " vs " << simG.mps.courant);
        }
        // (b) same as not existing, up to rounding, judged in the middle of the first step
        if (k == 0 && r3.ok()) {
            auto& a = sim.spy->before;
            auto& b = simR.spy->before;
            R tol   = 1e-9L * sc.p.l0;
            R vmax  = 0;
            for (int i : keep)
                vmax = std::max(vmax, ref::norm(sc.s[i].v));
            for (size_t m = 0; m < keep.size(); m++) {
                int i = keep[m];
                double xs = std::max(1.0, ref::norm(sc.s[i].x) > 0 ? (double) ref::norm(sc.s[i].x) : 1.0);
                if (a[i].type == ParticleType::Ghost)
                    continue;
                REQUIRE(
                    (a[i].position - b[(int) m].position).norm() <= tol + 1e-12 * xs,
                    "particle " << i << " is predicted at " << a[i].position.transpose() << " with and "
                                << b[(int) m].position.transpose() << " without the particles outside"
                );
                REQUIRE(
                    std::fabs(a[i].numberDensity - b[(int) m].numberDensity) <= 1e-7 * (1 + a[i].numberDensity),
                    "particle " << i << " has number density " << a[i].numberDensity << " with and "
                                << b[(int) m].numberDensity << " without the particles outside"
                );
            }
        }
        prev = ps;
    }
    if (out0)
        c.label("outside from the start");
    c.label(sc.p.implicit ? "implicit" : "explicit");
    c.nontrivial(turned > 0 && keep.size() > 1);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C03.boundary",
          "positions inside, exactly on and just outside each face, far, overflowing, infinite and NaN; 1-4 searches with "
          "one searcher; non-trivial: a particle turns ghost",
          40000,
          1000000,
          boundary},
         {"C03.inert",
          "whole steps of scenes in which particles start outside or fly out; compared with the same scene where they "
          "are ghosts elsewhere or absent; non-trivial: a particle turns ghost and >1 others remain",
          6000,
          200000,
          inert}}
    );
}
