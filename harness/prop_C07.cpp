// C07: free fluid particles integrate gravity semi-implicitly and exactly
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

void flight(Src& g, Case& c) {
    Scene sc;
    Opt o;
    genParams(g, sc, o);
    auto& p = sc.p;
    V grav;
    if (g.chance(0.5)) {
        sc.xyz = true;
        p.g    = {g.chance(0.2) ? 0.0 : g.sym(20), g.chance(0.3) ? -9.8 : g.sym(20), g.chance(0.5) ? 0.0 : g.sym(20)};
        sc.gNorm  = 5;
        sc.gAngle = 77;
        grav   = p.g;
    } else {
        sc.xyz    = false;
        sc.gNorm  = g.pick({9.8, 0.0, 1.0, -3.5, 123.0});
        sc.gAngle = g.chance(0.4) ? (double) g.range(-12, 12) * 30 : g.sym(400);
        R th      = (R) sc.gAngle * acosl(-1.0L) / 180;
        grav      = {sc.gNorm * sinl(th), -sc.gNorm * cosl(th), 0};
    }
    if (g.chance(0.15)) { // very weak or strong gravity
        double k = g.logu(1e-9, 30);
        p.g      = {dbl(p.g.x * k), dbl(p.g.y * k), dbl(p.g.z * k)};
        sc.gNorm *= k;
        grav = sc.xyz ? p.g : V{sc.gNorm * sinl((R) sc.gAngle * acosl(-1.0L) / 180), -sc.gNorm * cosl((R) sc.gAngle * acosl(-1.0L) / 180), 0};
    }
    int n     = (int) g.range(1, 6);
    int steps = historyLength(g, 40, 1500, 0.006);
    double T  = steps * (double) p.dt;
    double slow = steps > 40 ? 40.0 / steps : 1; // the distance travelled stays in reach of the search grid
    if (steps > 40) {
        p.g      = {dbl(p.g.x * slow * slow), dbl(p.g.y * slow * slow), dbl(p.g.z * slow * slow)};
        sc.gNorm = sc.gNorm * slow * slow;
        R th     = (R) sc.gAngle * acosl(-1.0L) / 180;
        grav     = sc.xyz ? p.g : V{sc.gNorm * sinl(th), -sc.gNorm * cosl(th), 0};
    }
    double vm = slow * dbl(o.cfl * p.l0 / p.dt);
    std::vector<V> x0, v0;
    double travel = 0;
    for (int i = 0; i < n; i++) {
        V v = {g.sym(vm), g.sym(vm), g.chance(0.4) ? g.sym(vm) : 0.0};
        v0.push_back(v);
        travel = std::max(travel, (double) ref::norm(v) * T + (double) ref::norm(grav) * T * T);
    }
    double gap = 2.1 * travel + 2 * (double) std::max(p.reMax(), p.colDist) + (double) p.l0;
    for (int i = 0; i < n; i++) {
        P q;
        q.x    = {gap * (i % 3) + g.sym(0.1) * (double) p.l0, gap * (i / 3) + g.sym(0.1) * (double) p.l0, g.chance(0.3) ? g.sym(1) * (double) p.l0 : 0.0};
        q.x    = {dbl(q.x.x), dbl(q.x.y), dbl(q.x.z)};
        q.v    = v0[i];
        q.type = ref::Fluid;
        if (i > 0 && g.chance(0.15))
            q.type = g.chance(0.5) ? ref::Wall : ref::Dummy;
        sc.s.push_back(q);
        x0.push_back(q.x);
    }
    genMaterial(g, sc, o);
    // keep the number of search cells small: the domain is wide, so is the radius of the search grid
    double m = travel + (double) p.l0;
    V a = x0[0], b = x0[0];
    for (auto& x : x0) {
        a = {std::min(a.x, x.x), std::min(a.y, x.y), std::min(a.z, x.z)};
        b = {std::max(b.x, x.x), std::max(b.y, x.y), std::max(b.z, x.z)};
    }
    p.lo = {dbl(a.x - m), dbl(a.y - m), dbl(a.z - m)};
    p.hi = {dbl(b.x + m), dbl(b.y + m), dbl(b.z + m)};
    R cells = 1;
    for (R l : {p.hi.x - p.lo.x, p.hi.y - p.lo.y, p.hi.z - p.lo.z})
        cells *= l / p.reMax() + 3;
    if (cells > 3e5)
        c.discard();
    c.note([&](std::ostream& s) {
        describe(s, sc);
        s << "gravity " << (sc.xyz ? "vector " : "norm/angle ") << grav << " norm " << sc.gNorm << " angle " << sc.gAngle
          << ", " << steps << " steps";
    });
    Sim sim = makeSpied(toInput(sc));
    // leftovers of an earlier use of the particles must not matter
    if (g.chance(0.3))
        for (auto& q : sim.mps.particles) {
            q.pressure        = 1e5;
            q.minimumPressure = -3;
            q.numberDensity   = 17;
        }
    for (int k = 1; k <= steps; k++) {
        {
            CaptureStderr cap;
            auto r = guarded([&] { sim.mps.stepForward(); });
            REQUIRE(r.ok(), "step " << k << " of free flight ended the program: " << r.what);
        }
        for (int i = 0; i < n; i++) {
            auto& q = sim.mps.particles[i];
            if (sc.s[i].type != ref::Fluid)
                continue;
            R t  = (R) k * p.dt;
            V v  = v0[i] + grav * t;
            V x  = x0[i] + v0[i] * t + grav * (p.dt * p.dt * (R) k * (k + 1) / 2);
            R vs = ref::norm(v0[i]) + ref::norm(grav) * t;
            R xs = ref::norm(x0[i]) + ref::norm(v0[i]) * t + ref::norm(grav) * t * t;
            R tv = 4e-16L * (k + 4) * vs, tx = 4e-16L * (k + 4) * (xs + vs * t);
            REQUIRE(
                dist(vv(q.velocity), v) <= tv,
                "after " << k << " steps particle " << i << " has velocity " << q.velocity.transpose() << ", free flight gives " << v
            );
            REQUIRE(
                dist(vv(q.position), x) <= tx,
                "after " << k << " steps particle " << i << " is at " << q.position.transpose() << ", free flight gives " << x
            );
            REQUIRE(q.pressure == 0.0, "isolated particle " << i << " has pressure " << q.pressure);
        }
    }
    c.label(sc.xyz ? "vector" : "norm and angle");
    c.label(p.implicit ? "implicit" : "explicit");
    c.nontrivial(ref::norm(grav) > 0 && steps > 1);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C07.flight",
          "1-6 particles out of reach of each other, gravity as vector or norm and angle, 1-40 (rarely up to 1500) steps, compared in every step "
          "with the closed-form trajectory; non-trivial: gravity not zero and >1 steps",
          24000,
          400000,
          flight}}
    );
}
