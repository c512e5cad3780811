// Driving the mps executable: settings files, particle files, results.
#pragma once
#include "files.hpp"
#include "ref.hpp"

#include <algorithm>
#include <csignal>
#include <filesystem>

namespace e2e {

namespace fs = std::filesystem;
using files::Row;
using files::Snap;

struct Config {
    ref::Params p;
    double dt = 0.001, end = 0, period = 0;
    double defaultDensity = 1000;
    bool xyz = true;
    double gNorm = 0, gAngle = 0;
    double g3[3] = {0, 0, 0};
    // ratios as written; p's radii are the products
    double rN = 3.1, rG = 2.1, rL = 3.1, rC = 0.5;
    bool binary = true;
    std::string particlesPath = "input.prof";
};

inline std::string num(double d) {
    return files::fmt("%.17g", d);
}

/// key/value lines in the order of the sample settings
inline std::vector<std::pair<std::string, std::string>> keys(const Config& c) {
    auto& p = c.p;
    auto d  = [](ref::R x) { return num((double) x); };
    auto v3 = [&](ref::R a, ref::R b, ref::R e) { return "[" + d(a) + ", " + d(b) + ", " + d(e) + "]"; };
    return {
        {"dim", std::to_string(p.dim)},
        {"particleDistance", d(p.l0)},
        {"dt", num(c.dt)},
        {"endTime", num(c.end)},
        {"outputPeriod", num(c.period)},
        {"cflCondition", d(p.cfl)},
        {"numPhysicalCores", "1"},
        {"domainMin", v3(p.lo.x, p.lo.y, p.lo.z)},
        {"domainMax", v3(p.hi.x, p.hi.y, p.hi.z)},
        {"defaultDensity", num(c.defaultDensity)},
        {"kinematicViscosity", d(p.nu)},
        {"xyz-input", c.xyz ? "true" : "false"},
        {"gravity", v3(c.g3[0], c.g3[1], c.g3[2])},
        {"gravity-norm", num(c.gNorm)},
        {"gravity-angle", num(c.gAngle)},
        {"surfaceDetection-numberDensity-threshold", d(p.thr)},
        {"surfaceDetection-particleDistribution", p.dist ? "true" : "false"},
        {"surfaceDetection-particleDistribution-threshold", d(p.distThr)},
        {"pressureCalculationMethod", p.implicit ? "Implicit" : "Explicit"},
        {"compressibility", d(p.compress)},
        {"relaxationCoefficientForPressure", d(p.relax)},
        {"soundSpeed", d(p.c)},
        {"collisionDistanceRatio", num(c.rC)},
        {"coefficientOfRestitution", d(p.e)},
        {"radiusRatioForNumberDensity", num(c.rN)},
        {"radiusRatioForGradient", num(c.rG)},
        {"radiusRatioForLaplacian", num(c.rL)},
        {"particlesPath", c.particlesPath},
        {"outputVtkInBinary", c.binary ? "true" : "false"},
    };
}
inline std::string yaml(const Config& c) {
    std::string t;
    for (auto& k : keys(c))
        t += k.first + ": " + k.second + "\n";
    return t;
}

inline std::string profText(const Snap& s) {
    std::string t = num(s.time) + "\n" + std::to_string(s.rows.size()) + "\n";
    for (auto& r : s.rows) {
        t += std::to_string(r.type);
        for (double d : r.x)
            t += " " + num(d);
        for (double d : r.v)
            t += " " + num(d);
        t += "\n";
    }
    return t;
}
inline std::string csvText(const Snap& s) {
    std::string t = num(s.time) + "\n" + std::to_string(s.rows.size()) + "\ntype,x,y,z,vx,vy,vz,fluidType,density\n";
    for (auto& r : s.rows) {
        t += std::to_string(r.type);
        for (double d : r.x)
            t += "," + num(d);
        for (double d : r.v)
            t += "," + num(d);
        t += "," + std::to_string(r.fluidType) + "," + num(r.rho) + "\n";
    }
    return t;
}
inline std::string vtuText(const Snap& s, bool density) {
    auto arr = [&](const char* type, const char* name, int comps, const std::string& body) {
        return std::string("<DataArray type=\"") + type + "\" Name=\"" + name + "\" NumberOfComponents=\"" + std::to_string(comps) + "\" format=\"ascii\">\n" + body + "</DataArray>\n";
    };
    std::string pos, vel, typ, flu, den;
    for (auto& r : s.rows) {
        pos += num(r.x[0]) + " " + num(r.x[1]) + " " + num(r.x[2]) + "\n";
        vel += num(r.v[0]) + " " + num(r.v[1]) + " " + num(r.v[2]) + "\n";
        typ += std::to_string(r.type) + "\n";
        flu += std::to_string(r.fluidType) + "\n";
        den += num(r.rho) + "\n";
    }
    std::string n = std::to_string(s.rows.size());
    std::string t = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n";
    t += "<Piece NumberOfPoints=\"" + n + "\" NumberOfCells=\"" + n + "\">\n<Points>\n" + arr("Float64", "Position", 3, pos) + "</Points>\n<PointData>\n";
    t += arr("Int32", "Particle Type", 1, typ) + arr("Float64", "Velocity", 3, vel);
    if (density)
        t += arr("Float64", "Density", 1, den);
    t += arr("Int32", "Fluid Type", 1, flu) + "</PointData>\n</Piece>\n<FieldData>\n<DataArray type=\"Float64\" Name=\"Time\" NumberOfTuples=\"1\" format=\"ascii\">\n";
    return t + num(s.time) + "\n</DataArray>\n</FieldData>\n</UnstructuredGrid>\n</VTKFile>\n";
}

inline std::string mpsPath() {
    return getenv("PBT_MPS");
}

inline bool crashed(const pbt::RunResult& r) {
    return r.status == -SIGSEGV || r.status == -SIGBUS || r.status == -SIGFPE || r.status == -SIGILL;
}

/// every regular file below a directory, by relative path
inline std::map<std::string, std::string> tree(const fs::path& root) {
    std::map<std::string, std::string> m;
    if (fs::exists(root))
        for (auto& e : fs::recursive_directory_iterator(root))
            if (e.is_regular_file())
                m[fs::relative(e.path(), root).string()] = pbt::readFile(e.path().string());
    return m;
}

inline std::string outName(size_t k, const char* ext) {
    char b[64];
    snprintf(b, sizeof b, "%s/output_%04zu.%s", ext, k, ext);
    return b;
}

/// fresh directory for one case: <scratch>/<name>
inline std::string freshDir(const std::string& name) {
    std::string d = pbt::scratch() + "/" + name;
    fs::remove_all(d);
    fs::create_directories(d);
    return d;
}

} // namespace e2e
