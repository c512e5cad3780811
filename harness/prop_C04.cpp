// C04: only fluid moves; particles are never lost, created, reordered or altered
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

bool sameBits(const Eigen::Vector3d& a, const Eigen::Vector3d& b) {
    return std::memcmp(a.data(), b.data(), 24) == 0;
}

void history(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN    = 60;
    o.outside = g.chance(0.3);
    o.overlap = g.chance(0.5);
    o.cfl     = g.pick({0.3, 1.0, 0.05});
    Scene sc  = gen(g, o, {6, 3, 2});
    // walls may be given velocities and any density
    for (auto& q : sc.s) {
        if (q.type != ref::Fluid && g.chance(0.3))
            q.v = {g.sym(5), g.sym(5), g.sym(5)};
        if (q.type != ref::Fluid && g.chance(0.1))
            q.rho = g.pick({0.1, 1e5});
        if (g.chance(0.05))
            q.fluidType = (int) g.range(-2, 100);
    }
    bool stub = g.chance(0.3);
    c.note([&](std::ostream& s) { describe(s, sc); });
    auto in      = toInput(sc);
    auto initial = toParticles(sc.s);
    double pmag  = g.pick({1e4, 1e2, 0.0}) * 1.0;
    Sim sim      = stub ? makeStub(in, [&](Particles& ps) {
        std::vector<double> r(ps.size());
        for (int i = 0; i < ps.size(); i++)
            r[i] = ps[i].type == ParticleType::Ghost ? 0 : pmag * ((i * 7919) % 13);
        return r;
    })
                        : makeSpied(in);
    int steps    = scene::historyLength(g, 12, 200);
    std::vector<ParticleType> type;
    for (auto& p : initial)
        type.push_back(p.type);
    bool contact = false;
    for (int k = 0; k < steps; k++) {
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { sim.mps.stepForward(); });
        }
        if (!r.ok()) {
            c.label("solver gave up");
            break;
        }
        auto& ps = sim.mps.particles;
        REQUIRE(ps.size() == initial.size(), "step " << k << ": " << ps.size() << " particles instead of " << initial.size());
        for (int i = 0; i < ps.size(); i++) {
            auto &a = initial[i], &b = ps[i];
            REQUIRE(b.id == i, "step " << k << ": particle at place " << i << " has id " << b.id);
            REQUIRE(b.density == a.density, "step " << k << ": density of " << i << " changed from " << a.density << " to " << b.density);
            REQUIRE(b.fluidType == a.fluidType, "step " << k << ": fluid type of " << i << " changed from " << a.fluidType << " to " << b.fluidType);
            REQUIRE(
                b.type == type[i] || b.type == ParticleType::Ghost,
                "step " << k << ": " << i << " changed from " << typeName((int) type[i]) << " to " << typeName((int) b.type)
            );
            type[i] = b.type;
            if (a.type == ParticleType::Wall || a.type == ParticleType::DummyWall) {
                REQUIRE(
                    sameBits(a.position, b.position),
                    "step " << k << ": " << typeName((int) a.type) << " " << i << " moved from " << a.position.transpose()
                            << " to " << b.position.transpose()
                );
                REQUIRE(
                    sameBits(a.velocity, b.velocity),
                    "step " << k << ": velocity of " << typeName((int) a.type) << " " << i << " changed from "
                            << a.velocity.transpose() << " to " << b.velocity.transpose()
                );
                for (auto& nb : b.neighbors)
                    if (ps[nb.id].type == ParticleType::Fluid &&
                        (nb.distance <= 1.05 * in.settings.collisionDistance || nb.distance < in.settings.re_forGradient))
                        contact = true;
            }
        }
    }
    c.label(stub ? "prescribed pressure" : sc.p.implicit ? "implicit" : "explicit");
    c.nontrivial(contact);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C04.history",
          "1-12 (in 1% of cases up to 200) steps of scenes mixing fluid, wall, dummy wall (also moving ones) and ghosts, real or prescribed pressure; "
          "non-trivial: a fluid particle within gradient radius or collision distance of a wall",
          40000,
          600000,
          history}}
    );
}
