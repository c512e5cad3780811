// C16: profile files round-trip through export and load
#include "filebridge.hpp"

using namespace pbt;
using namespace files;

namespace {

/// export (possibly over an older file, with a reused exporter) and load again
void roundtrip(Src& g, Case& c, bool many) {
    std::string path = scratch() + "/r.prof";
    ParticlesExporter ex;
    int rounds = many ? 1 : (int) g.range(1, 2);
    for (int k = 0; k < rounds; k++) {
        Snap s      = genSnap(g, 60, true);
        if (many)
            inflate(g, s);
        double dens = g.pick({1000.0, 1.0, 0.0, 13600.0});
        c.note([&](std::ostream& o) { describe(o, s); });
        ex.setParticles(toParticles(s));
        std::pair<double, Particles> got;
        auto r = guarded([&] { ex.toProf(path, s.time); });
        REQUIRE(r.ok(), "export failed " << r.what);
        Snap file;
        try {
            file = parseProf(readFile(path));
        } catch (const Bad& b) {
            c.fail(std::string("the profile is not one: ") + b.what());
        }
        REQUIRE(printed(s.time, file.time), "time in the file is " << file.time << ", expected " << s.time);
        REQUIRE(file.rows.size() == s.rows.size(), "file has " << file.rows.size() << " particles");
        for (size_t i = 0; i < s.rows.size(); i++) {
            REQUIRE(file.rows[i].type == s.rows[i].type, "particle " << i << " written with type " << file.rows[i].type);
            for (int j = 0; j < 3; j++)
                REQUIRE(
                    printed(s.rows[i].x[j], file.rows[i].x[j]) && printed(s.rows[i].v[j], file.rows[i].v[j]),
                    "particle " << i << " component " << j << " written as " << file.rows[i].x[j] << " / " << file.rows[i].v[j]
                );
        }
        r = guarded([&] { got = ParticlesLoader::Prof().load(path, dens); });
        REQUIRE(r.ok(), "loading the exported file failed: " << r.what);
        compareLoaded(c, s, got, printed, false, dens, false, "loaded");
        c.nontrivial(s.rows.size() >= 2);
        c.label(s.rows.empty() ? "empty" : s.rows.size() > 10 ? "> 10 particles" : "1-10 particles");
    }
}

/// our own writer: any layout and notation
void layout(Src& g, Case& c) {
    Snap s = genSnap(g, 40, true);
    auto gap = [&](bool line) -> std::string {
        switch (g.weighted({5, 1, 1, 1, 1})) {
        case 0: return line ? "\n" : " ";
        case 1: return "\n";
        case 2: return line ? "\n\n" : "   ";
        case 3: return line ? " \r\n" : "\t";
        default: return line ? "  " : "\n ";
        }
    };
    std::string t = g.chance(0.1) ? "\n" : "";
    t += notation(g, s.time) + gap(true) + std::to_string(s.rows.size()) + gap(true);
    for (size_t i = 0; i < s.rows.size(); i++) {
        auto& r = s.rows[i];
        t += (g.chance(0.1) ? "+" : "") + std::to_string(r.type);
        for (double d : r.x)
            t += gap(false) + notation(g, d);
        for (double d : r.v)
            t += gap(false) + notation(g, d);
        if (i + 1 < s.rows.size())
            t += gap(true);
    }
    switch (g.weighted({3, 2, 1, 1})) {
    case 0: t += "\n"; break;
    case 1: break;
    case 2: t += "\n1 9 9 9 9 9 9\n"; c.label("extra particle"); break;
    case 3: t += "\n\n# end of file\n"; c.label("extra text"); break;
    }
    c.note([&](std::ostream& o) { o << t; });
    std::string path = scratch() + "/l.prof";
    writeFile(path, t);
    double dens = g.pick({1000.0, 1.0, 13600.0});
    std::pair<double, Particles> got;
    ParticlesLoader::Prof loader;
    auto r = guarded([&] { got = loader.load(path, dens); });
    REQUIRE(r.ok(), "a valid profile was refused: " << r.what);
    auto exact = [](double a, double b) { return a == b; };
    compareLoaded(c, s, got, exact, false, dens, false, "loaded");
    c.nontrivial(s.rows.size() >= 2);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C16.roundtrip", "0-60 particles with special finite values, exporter and file reused; non-trivial: at least 2 particles", 12000, 400000, [](Src& g, Case& c) { roundtrip(g, c, false); }},
         {"C16.many", "tens of thousands of particles, more than fit in 15 or 16 bit numbers; non-trivial: all", 8, 120, [](Src& g, Case& c) { roundtrip(g, c, true); }, 60},
         {"C16.layout", "profiles written with varied white space and number notation, data after the end; non-trivial: at least 2 particles", 12000, 400000, layout}}
    );
}
