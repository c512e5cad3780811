// C29: a regular lattice at rest without gravity stays at rest
#include "scene.hpp"

using namespace pbt;
using scene::dbl;
using scene::P;
using scene::R;
using scene::Scene;
using scene::V;

namespace {

void rest(Src& g, Case& c) {
    Scene sc;
    scene::Opt o;
    o.bigRe = true;
    scene::genParams(g, sc, o);
    auto& p   = sc.p;
    p.g       = {};
    double l0 = dbl(p.l0), dt = dbl(p.dt);
    if (g.chance(0.3)) // up to the distance of lattice neighbours
        p.colDist = dbl(g.pick({1.0, 0.99, 0.95, 0.9999999}) * l0);
    if (!p.implicit && p.c * p.dt > 0.3L * p.l0) // stable time step of the explicit method
        p.c = g.pick({0.3, 0.1, 0.01}) * l0 / dt;
    // lattice
    int n[3], most = p.dim == 3 ? 7 : 14;
    for (int k = 0; k < 3; k++)
        n[k] = k < p.dim ? (int) g.range(1, g.chance(0.8) ? most : 4) : 1;
    double holes = g.pick({0.0, 0.0, 0.1, 0.4});
    int walls    = (int) g.raw(3); // none, layers around, anywhere
    int wl = (int) g.range(1, 2), dl = (int) g.range(0, 2);
    double off = g.pick({0.0, 0.5, 10.0, 200.0}) * l0;
    V shift    = {g.sym(off), g.sym(off), p.dim == 3 || g.chance(0.2) ? g.sym(off) : 0.0};
    bool open  = g.chance(0.5); // layers above, too?
    int L      = walls == 1 ? wl + dl : 0, Lz = p.dim == 3 && g.chance(0.5) ? L : 0;
    for (int i = -L; i < n[0] + L; i++)
        for (int j = -L; j < n[1] + (open ? 0 : L); j++)
            for (int k = -Lz; k < n[2] + Lz; k++) {
                if (sc.s.size() >= 400)
                    continue;
                int depth = std::max({-i, i - n[0] + 1, -j, j - n[1] + 1, -k, k - n[2] + 1, 0});
                P q;
                q.type = depth == 0 ? ref::Fluid : depth <= wl ? ref::Wall : ref::Dummy;
                if (depth == 0 && holes > 0 && g.chance(holes))
                    continue;
                if (walls == 2 && g.chance(0.3))
                    q.type = g.chance(0.6) ? ref::Wall : ref::Dummy;
                q.x = {dbl(l0 * i + shift.x), dbl(l0 * j + shift.y), dbl(l0 * k + shift.z)};
                sc.s.push_back(q);
            }
    if (sc.s.empty())
        c.discard();
    scene::shuffleParticles(g, sc.s);
    scene::genMaterial(g, sc, o);
    // particles on the very face of the domain could leave by rounding
    double side = g.pick({0.02, 1.0, 3.0}) * l0;
    p.lo = p.hi = sc.s[0].x;
    for (auto& q : sc.s) {
        p.lo = {std::min(p.lo.x, q.x.x), std::min(p.lo.y, q.x.y), std::min(p.lo.z, q.x.z)};
        p.hi = {std::max(p.hi.x, q.x.x), std::max(p.hi.y, q.x.y), std::max(p.hi.z, q.x.z)};
    }
    R sz = p.dim == 3 ? side : 0;
    p.lo = {dbl(p.lo.x - side), dbl(p.lo.y - side), dbl(p.lo.z - sz)};
    p.hi = {dbl(p.hi.x + side), dbl(p.hi.y + side), dbl(p.hi.z + sz)};
    int steps = (int) g.range(1, 5);
    if (g.chance(0.01)) { // a long rest; only with a small sound speed does rounding not grow
        steps      = (int) g.range(6, 120);
        p.implicit = false;
        p.c        = 0.01 * l0 / dt;
    }
    c.note([&](std::ostream& s) {
        s << steps << " steps, block " << n[0] << "x" << n[1] << "x" << n[2] << ", ";
        scene::describe(s, sc);
    });
    R rhoMax = 0, rhoMin = 1e300L;
    for (auto& q : sc.s) {
        rhoMax = std::max(rhoMax, q.rho);
        rhoMin = std::min(rhoMin, q.rho);
    }
    R size = std::max({n[0], n[1], n[2]}) + 2 * L;
    // relative change of the number density per relative displacement
    R sens = 0;
    {
        int m = (int) std::ceil(p.reN / p.l0), mz = p.dim == 3 ? m : 0;
        for (int i = -m; i <= m; i++)
            for (int j = -m; j <= m; j++)
                for (int k = -mz; k <= mz; k++) {
                    R d = std::sqrt((R) (i * i + j * j + k * k)) * p.l0;
                    if (d > 0 && d < p.reN)
                        sens += p.reN / d;
                }
        sens /= ref::refValues(p.dim, p.l0, p.reN).n0;
    }
    R growth = 1 + sens * (p.implicit ? p.relax : std::pow(p.c * p.dt / p.l0, 2.0L)); // of rounding, per step
    // what rounding of the number density (relative error `e`) can do in a step
    R e0   = 1e-10L * (1 + dbl(scene::scaleX(sc) / p.l0) * 0.01L) * std::max(1.0L, sens / 3);
    R tolP = 0, tolV = 0, tolX = 0;
    auto limits = [&](int k) {
        R e  = e0 * std::pow(growth, (R) (k - 1));
        tolP = p.implicit ? e * p.relax * rhoMax * p.l0 * p.l0 / (p.dt * p.dt) * size * size : e * p.c * p.c * rhoMax;
        if (p.implicit) // a part without free surface is held by the compressibility alone
            tolP += 1e-3L * e * p.relax / p.compress;
        tolV = tolP / rhoMin / p.l0 * p.dt * 4 * k;
        tolX = tolV * p.dt * k + 1e-15L * scene::scaleX(sc) * (1 + k);
    };
    Input in = scene::toInput(sc);
    CaptureStderr cap;
    MPS m;
    auto r0 = guarded([&] { m = MPSFactory::create(in); });
    REQUIRE(r0.ok(), "the simulation cannot be created");
    int done = 0;
    for (int k = 1; k <= steps; k++) {
        auto r = guarded([&] { m.stepForward(); });
        if (!r.ok()) {
            if (!done)
                c.discard(); // the solver gave up; C11 judges that
            break;
        }
        done = k;
        limits(k);
        for (size_t i = 0; i < sc.s.size(); i++) {
            const auto& q = m.particles[(int) i];
            auto& a = sc.s[i];
            V x = scene::vv(q.position), v = scene::vv(q.velocity);
            REQUIRE((int) q.type == a.type, "step " << k << ": " << scene::typeName(a.type) << " " << i << " becomes " << scene::typeName((int) q.type));
            REQUIRE(
                ref::norm(x - a.x) <= tolX && ref::norm(v) <= tolV,
                "step " << k << ": " << scene::typeName(a.type) << " " << i << " of the lattice at rest moves from (" << q.position.transpose() << ") by " << (double) (ref::norm(x - a.x) / p.l0)
                        << " particle distances, velocity " << (double) ref::norm(v) << " (tolerances " << (double) (tolX / p.l0) << ", " << (double) tolV << ")"
            );
            REQUIRE(
                std::fabs(q.pressure) <= tolP,
                "step " << k << ": " << scene::typeName(a.type) << " " << i << " of the lattice at rest has pressure " << q.pressure << " (tolerance " << (double) tolP << ")"
            );
        }
        REQUIRE(m.courant <= dbl(tolV * p.dt / p.l0), "step " << k << ": Courant number " << m.courant);
    }
    c.label(p.implicit ? "Implicit" : "Explicit");
    c.label(p.dim == 3 ? "3D" : "2D");
    c.label(p.dist ? "distribution" : "number density");
    if (std::max({p.reN, p.reG, p.reL}) > 5 * p.l0)
        c.label("radius > 5 l0");
    auto rn   = ref::refValues(p.dim, p.l0, p.reN).n0;
    bool full = false;
    for (R d : ref::numberDensity(sc.s, p.reN))
        full = full || std::fabs(d - rn) < 1e-6L * rn;
    if (full)
        c.label("complete neighbourhoods");
    c.nontrivial(full);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C29.rest",
          "blocks of up to 400 lattice points with walls around or anywhere, holes, several densities, any radii up to 6.5 particle distances, 1-5 (explicit method: in 1% of cases up to 120) steps; explicit method "
          "with sound speeds up to 0.3 particle distances per step; non-trivial: some particle has the full reference number density",
          12000, 250000, rest}}
    );
}
