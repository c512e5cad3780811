// One simulation of some steps, given by a file, with its result as text that shows every bit.
#pragma once
#include "mps.hpp"
#include "mps_factory.hpp"
#include "input.hpp"

#include <cstdint>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>

namespace c26 {

inline std::string hex(double d) {
    uint64_t u;
    std::memcpy(&u, &d, 8);
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long) u);
    return b;
}
inline double unhex(const std::string& s) {
    uint64_t u = std::strtoull(s.c_str(), nullptr, 16);
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}

struct Io {
    std::ostream* o = nullptr;
    std::istream* i = nullptr;
    void operator()(double& d) {
        std::string t;
        if (o)
            *o << hex(d) << "\n";
        else if (*i >> t)
            d = unhex(t);
    }
    void operator()(int& v) {
        if (o)
            *o << v << "\n";
        else
            *i >> v;
    }
    void operator()(bool& v) {
        int k = 0;
        if (o)
            k = v;
        (*this)(k);
        if (i)
            v = k;
    }
    void operator()(Eigen::Vector3d& v) {
        for (int k = 0; k < 3; k++)
            (*this)(v[k]);
    }
};

inline void transfer(Io& io, Input& in, int& steps) {
    auto& s = in.settings;
    io(steps);
    io(s.dim);
    io(s.particleDistance);
    io(s.dt);
    io(s.endTime);
    io(s.outputPeriod);
    io(s.cflCondition);
    io(s.numPhysicalCores);
    for (double* d : {&s.domain.xMin, &s.domain.xMax, &s.domain.yMin, &s.domain.yMax, &s.domain.zMin, &s.domain.zMax, &s.domain.xLength, &s.domain.yLength, &s.domain.zLength})
        io(*d);
    io(s.kinematicViscosity);
    io(s.defaultDensity);
    io(s.xyzInput);
    io(s.gravity);
    io(s.gNorm);
    io(s.gAngle);
    io(s.surfaceDetection_numberDensity_threshold);
    io(s.surfaceDetection_particleDistribution);
    io(s.surfaceDetection_particleDistribution_threshold);
    int implicit = s.pressureCalculationMethod == "Implicit";
    io(implicit);
    s.pressureCalculationMethod = implicit ? "Implicit" : "Explicit";
    io(s.compressibility);
    io(s.relaxationCoefficientForPressure);
    io(s.soundSpeed);
    io(s.collisionDistance);
    io(s.coefficientOfRestitution);
    io(s.re_forNumberDensity);
    io(s.re_forGradient);
    io(s.re_forLaplacian);
    io(s.reMax);
    int n = in.particles.size();
    io(n);
    for (int k = 0; k < n; k++) {
        Particle q(k, ParticleType::Fluid, Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero(), 1.0, 0);
        if (io.o)
            q = in.particles[k];
        int t = (int) q.type;
        io(t);
        io(q.position);
        io(q.velocity);
        io(q.density);
        io(q.fluidType);
        if (io.i)
            in.particles.add(Particle(k, (ParticleType) t, q.position, q.velocity, q.density, q.fluidType));
    }
}
inline std::string save(Input in, int steps) {
    std::ostringstream o;
    Io io;
    io.o = &o;
    transfer(io, in, steps);
    return o.str();
}
inline std::string state(const MPS& m) {
    std::string t;
    auto v3 = [&](const Eigen::Vector3d& v) {
        for (int k = 0; k < 3; k++)
            t += " " + hex(v[k]);
    };
    for (const auto& q : m.particles) {
        t += std::to_string(q.id) + " " + std::to_string((int) q.type);
        v3(q.position);
        v3(q.velocity);
        v3(q.acceleration);
        t += " " + hex(q.pressure) + " " + hex(q.numberDensity) + " " + hex(q.minimumPressure) + " " + std::to_string((int) q.boundaryCondition) + " |";
        if (q.type != ParticleType::Ghost) // a ghost's list is not maintained
            for (auto& nb : q.neighbors)
                t += " " + std::to_string(nb.id) + ":" + hex(nb.distance);
        t += "\n";
    }
    return t + "courant " + hex(m.courant) + "\n";
}
inline std::string steps(const Input& in, int n) {
    MPS m = MPSFactory::create(in);
    std::string t;
    for (int k = 0; k < n; k++) {
        m.stepForward();
        t += state(m);
    }
    return t;
}
/// <file>: prints the states after every step
inline int runnerMain(int argc, char** argv) {
    if (argc < 2)
        return 70;
    std::ifstream f(argv[1]);
    Input in;
    int n = 0;
    Io io;
    io.i = &f;
    transfer(io, in, n);
    std::string t = steps(in, n);
    fwrite(t.data(), 1, t.size(), stdout);
    return 0;
}

} // namespace c26
