// C18: ASCII VTU files are well formed and round-trip through export and load
#include "filebridge.hpp"

using namespace pbt;
using namespace files;

namespace {

void checkFile(Case& c, const Snap& s, double n0, const Vtu& v) {
    REQUIRE(!v.binary, "an ASCII export contains appended arrays");
    REQUIRE(v.snap.rows.size() == s.rows.size(), "file has " << v.snap.rows.size() << " particles, expected " << s.rows.size());
    REQUIRE(printed(s.time, v.snap.time), "time in the file is " << v.snap.time << ", expected " << s.time);
    for (size_t i = 0; i < s.rows.size(); i++) {
        auto &a = s.rows[i], &b = v.snap.rows[i];
        double ratio = a.n / n0;
        bool ok      = a.type == b.type && a.fluidType == b.fluidType && a.bc == b.bc && printed(a.p, b.p) && printed(a.n, b.n) &&
                  printed(ratio, b.ratio);
        for (int k = 0; k < 3; k++)
            ok = ok && printed(a.x[k], b.x[k]) && printed(a.v[k], b.v[k]);
        REQUIRE(ok, "particle " << i << " is written as " << b << " ratio=" << b.ratio << ", expected " << a << " ratio=" << ratio);
    }
}

void roundtrip(Src& g, Case& c, bool many) {
    std::string path = scratch() + "/r.vtu";
    ParticlesExporter ex;
    int rounds = many ? 1 : (int) g.range(1, 2);
    for (int k = 0; k < rounds; k++) {
        Snap s      = genSnap(g, 40, true);
        if (many)
            inflate(g, s);
        double dens = g.pick({1000.0, 1.0, 0.25});
        double n0   = g.pick({6.54, 1.0, 0.125});
        c.note([&](std::ostream& o) { o << "n0=" << n0 << " "; describe(o, s); });
        ex.setParticles(toParticles(s));
        auto r = guarded([&] { ex.toVtu(path, s.time, n0, false); });
        REQUIRE(r.ok(), "export failed " << r.what);
        Vtu v;
        try {
            v = parseVtu(readFile(path));
        } catch (const Bad& b) {
            c.fail(std::string("not a well-formed VTK file: ") + b.what());
        }
        checkFile(c, s, n0, v);
        std::pair<double, Particles> got;
        r = guarded([&] { got = ParticlesLoader::Vtu().load(path, dens); });
        REQUIRE(r.ok(), "loading the exported file failed: " << r.what);
        bool rho = v.point.count("Density") != 0;
        compareLoaded(c, s, got, printed, true, dens, rho, "loaded");
        c.nontrivial(s.rows.size() >= 2);
        c.label(s.rows.empty() ? "empty" : s.rows.size() > 10 ? "> 10 particles" : "1-10 particles");
    }
}

/// our own files in the exporter's layout: arrays in any order, optional arrays present or not
void arrays(Src& g, Case& c) {
    Snap s = genSnap(g, 25, true, g.chance(0.5));
    bool de = g.chance(0.5), full = g.chance(0.7);
    std::string q = g.chance(0.25) ? "'" : "\"";
    auto arr = [&](const std::string& type, const std::string& name, int comps, const std::string& body) {
        return "<DataArray type=" + q + type + q + " Name=" + q + name + q + " NumberOfComponents=" + q + std::to_string(comps) + q + " format=" + q + "ascii" + q +
               ">\n" + body + "</DataArray>\n";
    };
    std::string pos, vel, typ, flu, den, nd, pr, bc, co, of, ty;
    for (size_t i = 0; i < s.rows.size(); i++) {
        auto& r = s.rows[i];
        pos += notation(g, r.x[0]) + " " + notation(g, r.x[1]) + " " + notation(g, r.x[2]) + "\n";
        vel += notation(g, r.v[0]) + " " + notation(g, r.v[1]) + " " + notation(g, r.v[2]) + "\n";
        typ += std::to_string(r.type) + "\n";
        flu += std::to_string(r.fluidType) + "\n";
        nd += fmt("%g", std::fabs(genPlain(g)) + 1) + "\n";
        pr += fmt("%g", genPlain(g)) + "\n";
        bc += std::to_string(g.raw(5)) + "\n";
        co += std::to_string(i) + "\n";
        of += std::to_string(i + 1) + "\n";
        ty += "1\n";
        if (!de)
            r.rho = -1;
        else {
            r.rho = g.pick({1000.0, -1.0, 0.0, 800.5, -3.0});
            den += notation(g, r.rho) + "\n";
        }
    }
    bool withVel = full || g.chance(0.7), withFt = full || g.chance(0.6);
    std::vector<std::string> as = {arr("Int32", "Particle Type", 1, typ)};
    if (withVel)
        as.push_back(arr("Float64", "Velocity", 3, vel));
    else
        for (auto& r : s.rows)
            r.v[0] = r.v[1] = r.v[2] = 0;
    if (withFt)
        as.push_back(arr("Int32", "Fluid Type", 1, flu));
    else
        for (auto& r : s.rows)
            r.fluidType = 0;
    if (full || g.chance(0.5)) {
        as.push_back(arr("Float64", "Pressure", 1, pr));
        as.push_back(arr("Float64", "Number Density", 1, nd));
        as.push_back(arr("Float64", "Number Density Ratio", 1, nd));
        as.push_back(arr("Int32", "Boundary Condition", 1, bc));
        c.label("number density arrays");
    }
    if (de)
        as.push_back(arr("Float64", "Density", 1, den));
    if (g.chance(0.2))
        as.push_back(arr("Float64", g.pick({"Density Gradient", "Bulk Density", "Density2"}), 1, nd));
    for (size_t i = as.size(); i > 1; i--)
        std::swap(as[i - 1], as[g.raw(i)]);
    std::string n = std::to_string(s.rows.size());
    std::string points = "<Points>\n" + arr("Float64", "Position", 3, pos) + "</Points>\n", pd = "<PointData>\n";
    for (auto& a : as)
        pd += a;
    pd += "</PointData>\n";
    std::string cells = "<Cells>\n" + arr("Int64", "connectivity", 1, co) + arr("Int64", "offsets", 1, of) + arr("UInt8", "types", 1, ty) + "</Cells>\n";
    std::vector<std::string> parts = {points, pd, cells};
    if (g.chance(0.5))
        for (size_t i = parts.size(); i > 1; i--)
            std::swap(parts[i - 1], parts[g.raw(i)]);
    std::string piece = "<Piece NumberOfPoints=" + q + n + q + " NumberOfCells=" + q + n + q + ">\n" + parts[0] + parts[1] + parts[2] + "</Piece>\n";
    std::string field = "<FieldData>\n<DataArray type=" + q + "Float64" + q + " Name=" + q + "Time" + q + " NumberOfTuples=" + q + "1" + q + " format=" + q + "ascii" + q +
                        ">\n" + notation(g, s.time) + "\n</DataArray>\n</FieldData>\n";
    std::string t = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n";
    t += g.chance(0.5) ? field + piece : piece + field;
    t += "</UnstructuredGrid>\n</VTKFile>\n";
    if (full) { // the generated file itself is valid
        try {
            parseVtu(t);
        } catch (const Bad& b) {
            c.fail(std::string("HARNESS: generated file is not valid: ") + b.what());
        }
    }
    c.note([&](std::ostream& o) { o << t; });
    std::string path = scratch() + "/l.vtu";
    writeFile(path, t);
    double dens = g.pick({997.0, 1.0, 0.25});
    std::pair<double, Particles> got;
    ParticlesLoader::Vtu loader;
    auto r = guarded([&] { got = loader.load(path, dens); });
    REQUIRE(r.ok(), "a valid vtu file was refused: " << r.what);
    auto exact = [](double a, double b) { return a == b; };
    compareLoaded(c, s, got, exact, true, dens, true, "loaded");
    c.label(de ? "density array" : "no density array");
    c.nontrivial(s.rows.size() >= 2);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C18.roundtrip", "0-40 particles with special finite values in every field; non-trivial: at least 2 particles", 10000, 300000, [](Src& g, Case& c) { roundtrip(g, c, false); }},
         {"C18.many", "tens of thousands of particles, more than fit in 15 or 16 bit numbers; non-trivial: all", 8, 120, [](Src& g, Case& c) { roundtrip(g, c, true); }, 60},
         {"C18.arrays", "files in the exporter's layout with arrays permuted, optional arrays present or absent, a Density array with given and "
                        "negative values, other arrays with Density in their name; non-trivial: at least 2 particles",
          10000, 300000, arrays}}
    );
}
