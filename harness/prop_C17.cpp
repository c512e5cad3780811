// C17: CSV files load by column name and round-trip through export
#include "filebridge.hpp"

using namespace pbt;
using namespace files;

namespace {

void roundtrip(Src& g, Case& c, bool many) {
    std::string path = scratch() + "/r.csv";
    ParticlesExporter ex;
    int rounds = many ? 1 : (int) g.range(1, 2);
    for (int k = 0; k < rounds; k++) {
        Snap s      = genSnap(g, 60, true);
        if (many)
            inflate(g, s);
        double dens = g.pick({1000.0, 1.0, 13600.0});
        c.note([&](std::ostream& o) { describe(o, s); });
        ex.setParticles(toParticles(s));
        std::pair<double, Particles> got;
        auto r = guarded([&] { ex.toCsv(path, s.time); });
        REQUIRE(r.ok(), "export failed " << r.what);
        Snap file;
        try {
            file = parseCsv(readFile(path));
        } catch (const Bad& b) {
            c.fail(std::string("the csv file is not one: ") + b.what());
        }
        REQUIRE(printed(s.time, file.time), "time in the file is " << file.time << ", expected " << s.time);
        REQUIRE(file.rows.size() == s.rows.size(), "file has " << file.rows.size() << " particles");
        for (size_t i = 0; i < s.rows.size(); i++) {
            auto &a = s.rows[i], &b = file.rows[i];
            REQUIRE(a.type == b.type && a.fluidType == b.fluidType, "particle " << i << " written as " << b);
            for (int j = 0; j < 3; j++)
                REQUIRE(printed(a.x[j], b.x[j]) && printed(a.v[j], b.v[j]), "particle " << i << " written as " << b << ", expected " << a);
        }
        r = guarded([&] { got = ParticlesLoader::Csv().load(path, dens); });
        REQUIRE(r.ok(), "loading the exported file failed: " << r.what);
        // if the exporter wrote densities they must have come back
        bool rho = !file.rows.empty() && file.rows[0].rho >= 0;
        compareLoaded(c, s, got, printed, true, dens, rho, "loaded");
        c.nontrivial(s.rows.size() >= 2);
        c.label(s.rows.empty() ? "empty" : s.rows.size() > 10 ? "> 10 particles" : "1-10 particles");
    }
}

void columns(Src& g, Case& c) {
    Snap s = genSnap(g, 40, true, g.chance(0.6));
    std::vector<std::string> col = {"type", "x", "y", "z", "vx", "vy", "vz"};
    bool ft = g.chance(0.6), de = g.chance(0.6);
    if (ft)
        col.push_back("fluidType");
    if (de)
        col.push_back("density");
    if (g.chance(0.7))
        for (size_t i = col.size(); i > 1; i--)
            std::swap(col[i - 1], col[g.raw(i)]);
    bool emptyRho  = de && g.chance(0.3);
    std::string nl = g.chance(0.2) ? "\r\n" : "\n";
    size_t count   = s.rows.size();
    bool wrong     = g.chance(0.1); // nobody says that the number has to be right, but if the file is read, all of it is
    if (wrong)
        count = g.chance(0.5) ? (size_t) g.raw(count + 1) : count + 1 + g.raw(5);
    wrong          = count != s.rows.size();
    std::string t  = notation(g, s.time) + nl + std::to_string(count) + nl;
    for (size_t i = 0; i < col.size(); i++)
        t += (i ? "," : "") + col[i];
    t += nl;
    bool neg = false, given = false;
    for (size_t k = 0; k < s.rows.size(); k++) {
        auto& r = s.rows[k];
        if (!ft)
            r.fluidType = 0;
        std::string rho;
        if (!de)
            r.rho = -1;
        else {
            switch (g.weighted({3, 2, 1, emptyRho ? 3.0 : 0.0})) {
            case 0: r.rho = g.pick({1000.0, 800.0, 1.25, 0.0, 13600.0}) + (g.chance(0.3) ? g.real(0, 10) : 0); rho = notation(g, r.rho); given = true; break;
            case 1: r.rho = -1; rho = "-1"; neg = true; break;
            case 2: r.rho = -1; rho = g.pick({"-0.5", "-1e-9", "-1000"}); neg = true; break;
            default: r.rho = -1; rho = ""; neg = true; c.label("empty density"); break;
            }
        }
        for (size_t i = 0; i < col.size(); i++) {
            const std::string& n = col[i];
            t += i ? "," : "";
            if (n == "type")
                t += std::to_string(r.type);
            else if (n == "fluidType")
                t += std::to_string(r.fluidType);
            else if (n == "density")
                t += rho;
            else
                t += notation(g, n[0] == 'v' ? r.v[n[1] - 'x'] : r.x[n[0] - 'x']);
        }
        if (k + 1 < s.rows.size() || g.chance(0.8))
            t += nl;
    }
    c.note([&](std::ostream& o) { o << t; });
    std::string path = scratch() + "/l.csv";
    writeFile(path, t);
    double dens = g.pick({997.0, 1.0, 13600.0});
    std::pair<double, Particles> got;
    ParticlesLoader::Csv loader;
    if (g.chance(0.2)) { // the same loader object used before on another file
        std::string p2 = scratch() + "/l2.csv";
        writeFile(p2, "3\n1\ntype,x,y,z,vx,vy,vz,fluidType,density\n1,1,2,3,4,5,6,7,8\n");
        guarded([&] { loader.load(p2, 55); });
    }
    auto r = guarded([&] { got = loader.load(path, dens); });
    if (wrong)
        c.label("wrong number of particles");
    if (wrong && !r.ok())
        return;
    REQUIRE(r.ok(), "a valid csv file was refused: " << r.what);
    compareLoaded(c, s, got, files::close, true, dens, true, "loaded");
    c.label(neg && given ? "given and default densities" : neg ? "default densities" : given ? "given densities" : "no density");
    c.nontrivial(s.rows.size() >= 2);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C17.roundtrip", "0-60 particles with special finite values; non-trivial: at least 2 particles", 12000, 400000, [](Src& g, Case& c) { roundtrip(g, c, false); }},
         {"C17.many", "tens of thousands of particles, more than fit in 15 or 16 bit numbers; non-trivial: all", 8, 120, [](Src& g, Case& c) { roundtrip(g, c, true); }, 60},
         {"C17.columns", "any column order, with and without fluidType and density, densities given, negative or empty per row; "
                         "non-trivial: at least 2 particles",
          12000, 400000, columns}}
    );
}
