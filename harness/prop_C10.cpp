// C10: free-surface classification follows the selected detector
#include "scene.hpp"
#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"
#include "surface_detector/distribution.hpp"
#include "surface_detector/number_density.hpp"

using namespace pbt;
using namespace scene;

namespace {

/// state with neighbour lists and number densities (true ones, or perturbed)
Particles prepare(Src& g, const Scene& sc, std::vector<R>& n, R n0) {
    Particles ps = toParticles(sc.s);
    NeighborSearcher ns((double) sc.p.reMax(), toDomain(sc.p), (size_t) ps.size());
    {
        CaptureStderr cap;
        ns.setNeighbors(ps);
    }
    auto st   = fromParticles(ps);
    n         = ref::numberDensity(st, sc.p.reN);
    bool pert = g.chance(0.6);
    for (int i = 0; i < ps.size(); i++) {
        if (pert && ps[i].type != ParticleType::Ghost && g.chance(0.7))
            n[i] = dbl(n0 * sc.p.thr * (R) g.real(0.8, 1.2));
        n[i]                = dbl(n[i]);
        ps[i].numberDensity = (double) n[i];
        ps[i].boundaryCondition = static_cast<FluidState>(g.raw(5)); // leftover
    }
    return ps;
}

void states(Src& g, Case& c) {
    Opt o;
    o.maxN    = 60;
    o.outside = g.chance(0.2);
    Scene sc  = gen(g, o, {6, 3, 1});
    auto n0   = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    namespace DG = PressureCalculator::DirichletBoundaryConditionGenerator;
    auto make    = [&]() -> std::unique_ptr<SurfaceDetector::Interface> {
        if (sc.p.dist)
            return std::make_unique<SurfaceDetector::Distribution>((double) n0, (double) sc.p.l0, (double) sc.p.distThr, (double) sc.p.thr);
        return std::make_unique<SurfaceDetector::NumberDensity>((double) sc.p.thr, (double) n0);
    };
    auto det = make();
    DG::FreeSurface gen1(make());
    sc.p.implicit = true;
    auto in       = toInput(sc);
    MPS mps       = MPSFactory::create(in);
    int rounds    = scene::historyLength(g, 3, 120);
    auto base     = sc.s;
    bool inner = false, surf = false;
    for (int k = 0; k < rounds; k++) {
        if (k > 0) { // another state for the same objects
            if (k > 3)
                for (size_t i = 0; i < base.size(); i++)
                    sc.s[i].x = base[i].x;
            for (auto& q : sc.s) {
                double m = dbl(0.3L * sc.p.l0);
                if (q.type == ref::Fluid && g.chance(0.5))
                    q.x = {dbl(q.x.x + g.sym(m)), dbl(q.x.y + g.sym(m)), q.x.z};
                if (g.chance(rounds > 3 ? 0.001 : 0.05))
                    q.type = ref::Ghost;
            }
        }
        std::vector<R> n;
        Particles ps = prepare(g, sc, n, n0);
        auto st      = fromParticles(ps);
        ref::Margin mg;
        auto want = ref::classify(st, sc.p, n, mg, n0);
        c.note([&](std::ostream& s) {
            s << "round " << k << " n0=" << (double) n0 << "\n";
            describe(s, sc);
            for (size_t i = 0; i < n.size() && i < 40; i++)
                s << " n" << i << "=" << (double) n[i];
        });
        if (mg.ambiguous()) {
            if (k == 0)
                c.discard();
            continue;
        }
        Particles viaGen = ps, viaCalc = ps;
        auto bc = gen1.generate(viaGen);
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { mps.pressureCalculator->calc(viaCalc); });
        }
        for (int i = 0; i < ps.size(); i++) {
            bool ignored = want[i] == ref::Ignored;
            (want[i] == ref::Inner ? inner : surf) |= !ignored;
            if (!ignored)
                REQUIRE(
                    det->isFreeSurface(ps, ps[i]) == (want[i] == ref::FreeSurface),
                    "detector: particle " << i << " with number density " << ps[i].numberDensity << " (n0 " << (double) n0
                                          << ", threshold " << (double) sc.p.thr << ") is "
                                          << (want[i] == ref::FreeSurface ? "a" : "not a") << " free-surface particle by definition"
                );
            REQUIRE(
                (int) viaGen[i].boundaryCondition == want[i],
                "round " << k << ": generator classifies " << typeName(st[i].type) << " " << i << " as "
                         << (int) viaGen[i].boundaryCondition << ", expected " << want[i]
            );
            if (r.ok())
                REQUIRE(
                    (int) viaCalc[i].boundaryCondition == want[i],
                    "round " << k << ": pressure calculator classifies " << typeName(st[i].type) << " " << i << " as "
                             << (int) viaCalc[i].boundaryCondition << ", expected " << want[i]
                );
            bool has = bc.contains(i);
            REQUIRE(has == (want[i] != ref::Inner), "round " << k << ": particle " << i << " (class " << want[i] << ") has " << (has ? "a" : "no") << " Dirichlet condition");
            if (has)
                REQUIRE(bc.value(i) == 0.0, "Dirichlet value of particle " << i << " is " << bc.value(i));
        }
        REQUIRE(!bc.contains(ps.size()) && !bc.contains(-1), "Dirichlet condition for a particle that does not exist");
    }
    c.label(sc.p.dist ? "distribution" : "number density");
    c.nontrivial(inner && surf);
}

/// the classification after whole steps, with the simulation's own number densities
void steps(Src& g, Case& c) {
    Opt o;
    o.maxN        = 60;
    o.overlap     = g.chance(0.3);
    Scene sc      = gen(g, o, {7, 3, 0});
    sc.p.implicit = true;
    c.note([&](std::ostream& s) { describe(s, sc); });
    auto n0   = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    Sim sim   = makeSpied(toInput(sc));
    int steps = scene::historyLength(g, 4, 80);
    bool inner = false, surf = false;
    for (int k = 0; k < steps; k++) {
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { sim.mps.stepForward(); });
        }
        if (!r.ok())
            break;
        auto mid = fromParticles(sim.spy->before);
        std::vector<R> n;
        for (auto& q : sim.spy->before)
            n.push_back(q.numberDensity);
        ref::Margin mg;
        auto want = ref::classify(mid, sc.p, n, mg, n0);
        if (mg.ambiguous())
            break;
        for (size_t i = 0; i < mid.size(); i++) {
            (want[i] == ref::Inner ? inner : surf) |= want[i] != ref::Ignored;
            REQUIRE(
                (int) sim.mps.particles[i].boundaryCondition == want[i],
                "step " << k << ": " << typeName(mid[i].type) << " " << i << " with number density " << (double) n[i]
                        << " (n0 " << (double) n0 << ") is recorded as " << (int) sim.mps.particles[i].boundaryCondition
                        << ", expected " << want[i]
            );
        }
    }
    c.label(sc.p.dist ? "distribution" : "number density");
    c.nontrivial(inner && surf);
}

/// thresholds met exactly, in numbers without rounding
void exact(Src& g, Case& c) {
    double n0 = g.pick({8.0, 16.0, 4.0}), thr = g.pick({0.5, 1.0, 0.75}), dthr = g.pick({1.0, 0.5, 2.0});
    double l0 = g.pick({1.0, 0.25});
    SurfaceDetector::NumberDensity a(thr, n0);
    SurfaceDetector::Distribution b(n0, l0, dthr, thr);
    // particle 0 with neighbours on the axes; the sum of relative positions is s * dthr * l0 in one component
    double f  = g.pick({1.0, -1.0, 1.5, 0.5, -2.0, 0.0});
    int axis  = (int) g.raw(3);
    int nb    = (int) g.range(0, 4);
    double dn = g.pick({0.0, -0.5, 0.5});
    Particles ps;
    ps.add(Particle(0, ParticleType::Fluid, {3 * l0, -2 * l0, l0}, {0, 0, 0}, 1000));
    ps[0].numberDensity = thr * n0 + dn;
    for (int k = 0; k < nb; k++) {
        Eigen::Vector3d d(0, 0, 0);
        if (k == 0)
            d[axis] = f * dthr * l0;
        else if (k == 1)
            d[(axis + 1) % 3] = l0;
        else if (k == 2)
            d[(axis + 1) % 3] = -l0;
        else
            d[(axis + 2) % 3] = 0.5 * dthr * l0;
        ps.add(Particle(k + 1, ParticleType::Fluid, ps[0].position + d, {0, 0, 0}, 1000));
        ps[0].neighbors.emplace_back(k + 1, d.norm());
    }
    double sum[3] = {0, 0, 0};
    for (int k = 1; k <= nb; k++)
        for (int m = 0; m < 3; m++)
            sum[m] += ps[k].position[m] - ps[0].position[m];
    bool low = dn < 0, biased = nb == 0;
    for (double s : sum)
        biased = biased || std::fabs(s) > dthr * l0;
    c.note([&](std::ostream& o) {
        o << "n " << ps[0].numberDensity << " n0 " << n0 << " threshold " << thr << " sum " << sum[0] << " " << sum[1] << " "
          << sum[2] << " limit " << dthr * l0 << " neighbours " << nb;
    });
    REQUIRE(a.isFreeSurface(ps, ps[0]) == low, "number density detector is wrong at the threshold");
    REQUIRE(b.isFreeSurface(ps, ps[0]) == (low && biased), "distribution detector gives " << b.isFreeSurface(ps, ps[0]) << ", expected " << (low && biased));
    c.nontrivial(dn <= 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C10.states",
          "particle states with true or perturbed number densities and leftover classifications; detector, generator and "
          "pressure calculator, 1-3 (in 1% of cases up to 120) states per object; non-trivial: inner and surface particles occur",
          30000,
          500000,
          states},
         {"C10.steps", "whole steps; non-trivial: inner and surface particles occur", 16000, 300000, steps},
         {"C10.exact", "thresholds met exactly; non-trivial: at or below the density threshold", 6000, 30000, exact}}
    );
}
