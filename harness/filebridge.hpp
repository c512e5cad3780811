// files.hpp <-> MPS-Basic's Particles
#pragma once
#include "files.hpp"

#include "particles.hpp"
#include "particles_exporter.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"

namespace files {

inline Particles toParticles(const Snap& s) {
    Particles ps;
    for (auto& r : s.rows) {
        Particle p(
            ps.size(),
            static_cast<ParticleType>(r.type),
            Eigen::Vector3d(r.x[0], r.x[1], r.x[2]),
            Eigen::Vector3d(r.v[0], r.v[1], r.v[2]),
            r.rho,
            r.fluidType
        );
        p.pressure          = r.p;
        p.numberDensity     = r.n;
        p.boundaryCondition = static_cast<FluidState>(r.bc);
        ps.add(p);
    }
    return ps;
}

/// what a loader returned must be exactly these particles.  cmp: comparison of a value with the loaded one
template <class Cmp>
void compareLoaded(
    pbt::Case& c, const Snap& want, const std::pair<double, Particles>& got, Cmp cmp, bool withFluidType, double defaultDensity, bool withRho, const char* what
) {
    const Particles& ps = got.second;
    REQUIRE(cmp(want.time, got.first), what << ": time " << got.first << ", expected " << want.time);
    REQUIRE((size_t) ps.size() == want.rows.size(), what << ": " << ps.size() << " particles, expected " << want.rows.size());
    for (int i = 0; i < ps.size(); i++) {
        auto& r       = want.rows[i];
        const auto& p = ps[i];
        REQUIRE(p.id == i, what << ": particle " << i << " has id " << p.id);
        REQUIRE(static_cast<int>(p.type) == r.type, what << ": particle " << i << " has type " << static_cast<int>(p.type) << ", expected " << r.type);
        REQUIRE(p.fluidType == (withFluidType ? r.fluidType : 0), what << ": particle " << i << " has fluid type " << p.fluidType << ", expected " << (withFluidType ? r.fluidType : 0));
        for (int k = 0; k < 3; k++) {
            REQUIRE(cmp(r.x[k], p.position[k]), what << ": particle " << i << " position[" << k << "] is " << p.position[k] << ", expected " << r.x[k]);
            REQUIRE(cmp(r.v[k], p.velocity[k]), what << ": particle " << i << " velocity[" << k << "] is " << p.velocity[k] << ", expected " << r.v[k]);
        }
        double rho = withRho && r.rho >= 0 ? r.rho : defaultDensity;
        REQUIRE(cmp(rho, p.density), what << ": particle " << i << " has density " << p.density << ", expected " << rho);
    }
}

} // namespace files
