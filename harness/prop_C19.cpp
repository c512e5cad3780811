// C19: binary VTU output is structurally valid and bit-exact
#include "filebridge.hpp"

using namespace pbt;
using namespace files;

namespace {

bool refused(Case& c, const std::string& path) {
    CaptureStderr cap;
    auto r = guarded([&] { ParticlesLoader::Vtu().load(path, 1); });
    (void) c;
    return !r.ok() && !(r.kind == Guarded::Exited && r.code == 0);
}

void exports(Src& g, Case& c, bool many) {
    std::string path = scratch() + "/r.vtu";
    ParticlesExporter ex;
    int rounds = many ? 1 : (int) g.range(1, 2);
    for (int k = 0; k < rounds; k++) {
        Snap s    = genSnap(g, g.chance(0.02) ? 1500 : 60, false);
        if (many)
            inflate(g, s);
        double n0 = g.pick({6.5407, 1.0, 0.125, 1e-3});
        if (g.chance(0.1))
            s.time = genValue(g, false);
        c.note([&](std::ostream& o) { o << "n0=" << n0 << " "; describe(o, s); });
        ex.setParticles(toParticles(s));
        auto r = guarded([&] { ex.toVtu(path, s.time, n0, true); });
        REQUIRE(r.ok(), "export failed " << r.what);
        std::string bytes = readFile(path);
        Vtu v;
        try {
            v = parseVtu(bytes);
        } catch (const Bad& b) {
            c.fail(std::string("not a valid VTK file: ") + b.what());
        }
        REQUIRE(v.binary, "a binary export contains no appended arrays");
        auto f64 = [&](const Array& a) { REQUIRE(a.type == "Float64" && a.format == "appended", "array " << a.name << " is " << a.type << " " << a.format); };
        f64(v.points);
        f64(v.field["Time"]);
        for (const char* n : {"Velocity", "Pressure", "Number Density", "Number Density Ratio"})
            f64(v.point[n]);
        for (const char* n : {"Particle Type", "Boundary Condition", "Fluid Type"})
            REQUIRE(v.point[n].type[0] == 'I' || v.point[n].type[0] == 'U', "array " << n << " is " << v.point[n].type);
        REQUIRE(sameBits(s.time, v.snap.time), "time in the file is " << v.snap.time << ", expected " << s.time);
        REQUIRE(v.snap.rows.size() == s.rows.size(), "file has " << v.snap.rows.size() << " particles, expected " << s.rows.size());
        for (size_t i = 0; i < s.rows.size(); i++) {
            auto &a = s.rows[i], &b = v.snap.rows[i];
            double ratio = a.n / n0;
            bool ok      = a.type == b.type && a.fluidType == b.fluidType && a.bc == b.bc && sameBits(a.p, b.p) && sameBits(a.n, b.n);
            for (int j = 0; j < 3; j++)
                ok = ok && sameBits(a.x[j], b.x[j]) && sameBits(a.v[j], b.v[j]);
            bool rok = std::isfinite(ratio) ? std::fabs(ratio - b.ratio) <= 1e-15 * std::fabs(ratio) + 1e-322 : !std::isfinite(b.ratio) || std::fabs(b.ratio) > 1e307;
            REQUIRE(ok && rok, "particle " << i << " is written as " << b << " ratio=" << b.ratio << ", expected " << a << " ratio=" << ratio);
        }
        REQUIRE(refused(c, path), "the loader accepted a binary vtu file");
        c.nontrivial(s.rows.size() >= 2);
        c.label(s.rows.empty() ? "empty" : s.rows.size() > 10 ? "> 10 particles" : "1-10 particles");
        if (bytes.find("<Append", v.points.offset) != bytes.rfind("<AppendedData"))
            c.label("markup in the data");
    }
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C19.exports", "0-60 (sometimes up to 1500) particles, all bit patterns incl. NaN, infinities, denormals, bytes that look like markup; "
                         "exporter and file reused; non-trivial: at least 2 particles",
          20000, 600000, [](Src& g, Case& c) { exports(g, c, false); }},
         {"C19.many", "tens of thousands of particles, more than fit in 15 or 16 bit numbers; non-trivial: all", 8, 120, [](Src& g, Case& c) { exports(g, c, true); }, 60}}
    );
}
