// C22: broken particle files are rejected, never silently turned into other data
#include "c22_oracle.hpp"

#include <filesystem>
#include <sys/stat.h>

using namespace pbt;
using namespace c22;

namespace {

std::string writeProf(const Snap& s) {
    std::string t = fmt("%.17g", s.time) + "\n" + std::to_string(s.rows.size()) + "\n";
    for (auto& r : s.rows) {
        t += std::to_string(r.type);
        for (double d : r.x)
            t += " " + fmt("%.17g", d);
        for (double d : r.v)
            t += " " + fmt("%.17g", d);
        t += "\n";
    }
    return t;
}
std::string writeCsv(const Snap& s, const std::vector<std::string>& col) {
    std::string t = fmt("%.17g", s.time) + "\n" + std::to_string(s.rows.size()) + "\n";
    for (size_t i = 0; i < col.size(); i++)
        t += (i ? "," : "") + col[i];
    t += "\n";
    for (auto& r : s.rows) {
        for (size_t i = 0; i < col.size(); i++) {
            const std::string& n = col[i];
            t += i ? "," : "";
            t += n == "type"        ? std::to_string(r.type)
                 : n == "fluidType" ? std::to_string(r.fluidType)
                 : n == "density"   ? fmt("%.17g", r.rho)
                 : n[0] == 'v'      ? fmt("%.17g", r.v[n[1] - 'x'])
                                    : fmt("%.17g", r.x[n[0] - 'x']);
        }
        t += "\n";
    }
    return t;
}
std::string writeVtu(Src& g, const Snap& s) {
    auto arr = [&](const char* type, const char* name, int comps, const std::string& body) {
        return std::string("<DataArray type=\"") + type + "\" Name=\"" + name + "\" NumberOfComponents=\"" + std::to_string(comps) + "\" format=\"ascii\">\n" + body + "</DataArray>\n";
    };
    std::string pos, vel, typ, flu, den;
    for (auto& r : s.rows) {
        pos += fmt("%g", r.x[0]) + " " + fmt("%g", r.x[1]) + " " + fmt("%g", r.x[2]) + "\n";
        vel += fmt("%g", r.v[0]) + " " + fmt("%g", r.v[1]) + " " + fmt("%g", r.v[2]) + "\n";
        typ += std::to_string(r.type) + "\n";
        flu += std::to_string(r.fluidType) + "\n";
        den += fmt("%g", r.rho) + "\n";
    }
    std::string n = std::to_string(s.rows.size());
    std::string t = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n";
    t += "<Piece NumberOfPoints=\"" + n + "\" NumberOfCells=\"" + n + "\">\n<Points>\n" + arr("Float64", "Position", 3, pos) + "</Points>\n<PointData>\n";
    t += arr("Int32", "Particle Type", 1, typ) + arr("Float64", "Velocity", 3, vel);
    if (g.chance(0.5))
        t += arr("Float64", "Number Density", 1, den) + arr("Float64", "Pressure", 1, den);
    if (g.chance(0.5))
        t += arr("Float64", "Density", 1, den);
    t += arr("Int32", "Fluid Type", 1, flu) + "</PointData>\n</Piece>\n<FieldData>\n<DataArray type=\"Float64\" Name=\"Time\" NumberOfTuples=\"1\" format=\"ascii\">\n";
    t += fmt("%g", s.time) + "\n</DataArray>\n</FieldData>\n</UnstructuredGrid>\n</VTKFile>\n";
    return t;
}

Outcome load(Format f, const std::string& path, double dens) {
    Outcome o;
    CaptureStderr cap;
    auto r = guarded([&] {
        if (f == Prof)
            o.got = ParticlesLoader::Prof().load(path, dens);
        else if (f == Csv)
            o.got = ParticlesLoader::Csv().load(path, dens);
        else
            o.got = ParticlesLoader::Vtu().load(path, dens);
    });
    o.accepted = r.ok() || (r.kind == Guarded::Exited && r.code == 0);
    o.error    = r.what;
    return o;
}
const char* ext(Format f) {
    return f == Prof ? ".prof" : f == Csv ? ".csv" : ".vtu";
}

std::string badNumber(Src& g) {
    return g.pick<std::string>({"abc", "1.5abc", "--5", "1e", "-", ".", "1.2.3", "1,5x", "0.1f", "e5", "+", "1e+", "x", "1-2", "five", "1..2", "$", "2e1.5"});
}
std::vector<std::string> allColumns(Src& g) {
    std::vector<std::string> col = {"type", "x", "y", "z", "vx", "vy", "vz"};
    if (g.chance(0.5))
        col.push_back("fluidType");
    if (g.chance(0.5))
        col.push_back("density");
    if (g.chance(0.5))
        for (size_t i = col.size(); i > 1; i--)
            std::swap(col[i - 1], col[g.raw(i)]);
    return col;
}
std::string join(const std::vector<std::string>& l, const std::string& sep) {
    std::string t;
    for (size_t i = 0; i < l.size(); i++)
        t += (i ? sep : "") + l[i];
    return t;
}

/// a valid file broken in one definite way
std::string brokenFile(Src& g, Format f, std::string& how) {
    Snap s = genSnap(g, 12, true, true);
    if (s.rows.empty())
        s.rows.emplace_back();
    for (auto& r : s.rows)
        r.rho = g.pick({1000.0, 1.0, 0.5});
    size_t n = s.rows.size();
    if (f == Prof) {
        std::string t = writeProf(s);
        switch (g.weighted({4, 4, 1, 1, 2})) {
        case 0: { // tokens missing at the end
            std::istringstream in(t);
            std::vector<std::string> tok;
            std::string k;
            while (in >> k)
                tok.push_back(k);
            size_t keep = g.raw(tok.size());
            how         = "truncated";
            std::string o;
            for (size_t i = 0; i < keep; i++)
                o += tok[i] + (i < 2 || (i - 2) % 7 == 6 ? "\n" : " ");
            if (g.chance(0.5) && !o.empty())
                o.pop_back();
            return o;
        }
        case 1: {
            auto l      = splitLines(t);
            size_t row  = 2 + g.raw(n);
            auto cell   = splitOn(l[row], ' ');
            size_t k    = g.raw(7);
            cell[k]     = badNumber(g);
            l[row]      = join(cell, " ");
            how         = "bad value";
            return join(l, "\n") + "\n";
        }
        case 2: {
            auto l = splitLines(t);
            l[1]   = g.pick<std::string>({"many", "", "x12", std::to_string(n + 1 + g.raw(50)), std::to_string(n * 1000 + 7)});
            how    = "bad count";
            if (l[1].empty() && n >= 1) { // the count is then taken from the first particle
                l.erase(l.begin() + 1);
                l[1] = "abc";
            }
            return join(l, "\n") + "\n";
        }
        case 3: {
            auto l = splitLines(t);
            l[0]   = badNumber(g);
            how    = "bad time";
            return join(l, "\n") + "\n";
        }
        default: { // a missing cell shifts everything: too few tokens
            auto l     = splitLines(t);
            size_t row = 2 + g.raw(n);
            auto cell  = splitOn(l[row], ' ');
            cell.erase(cell.begin() + g.raw(7));
            l[row] = join(cell, " ");
            how    = "missing value";
            return join(l, "\n") + "\n";
        }
        }
    }
    if (f == Csv) {
        auto col = allColumns(g);
        auto l   = splitLines(writeCsv(s, col));
        auto idx = [&](const std::string& c) { return std::find(col.begin(), col.end(), c) - col.begin(); };
        switch (g.weighted({4, 4, 2, 2, 1, 1})) {
        case 0: { // no such column
            std::string c = g.pick<std::string>({"type", "x", "y", "z", "vx", "vy", "vz"});
            size_t k      = idx(c);
            how           = "column " + c + " missing";
            for (size_t i = 2; i < l.size(); i++) {
                auto cell = splitOn(l[i], ',');
                cell.erase(cell.begin() + k);
                l[i] = join(cell, ",");
            }
            break;
        }
        case 1: { // malformed value
            size_t row = 3 + g.raw(n);
            auto cell  = splitOn(l[row], ',');
            size_t k   = g.raw(col.size());
            cell[k]    = g.pick<std::string>({"abc", "1.5abc", "--5", "1e", "-", ".", "1.2.3", "0.1f", "e5", "+", "1e+", "1-2", "1 2", "five"});
            l[row]     = join(cell, ",");
            how        = "bad value in " + col[k];
            break;
        }
        case 2: { // missing value
            size_t row    = 3 + g.raw(n);
            auto cell     = splitOn(l[row], ',');
            std::string c = g.pick<std::string>({"type", "x", "y", "z", "vx", "vy", "vz"});
            cell[idx(c)]  = "";
            l[row]        = join(cell, ",");
            how           = "empty value in " + c;
            break;
        }
        case 3: { // wrong number of cells
            size_t row = 3 + g.raw(n);
            auto cell  = splitOn(l[row], ',');
            if (g.chance(0.7))
                cell.erase(cell.begin() + g.raw(cell.size()));
            else
                cell.push_back("1");
            l[row] = join(cell, ",");
            how    = "row with " + std::to_string(cell.size()) + " cells";
            break;
        }
        case 4: l[0] = g.pick<std::string>({"abc", "", "time"}); how = "bad time"; break;
        default: // ends before or inside the header or a row
            l.resize(g.raw(3));
            how = "truncated";
            if (g.chance(0.5) && l.size() == 2) {
                l.push_back("type,x,y,z,vx");
                how = "truncated header";
            }
        }
        return join(l, "\n") + (l.empty() || g.chance(0.3) ? "" : "\n");
    }
    std::string t = writeVtu(g, s);
    auto l        = splitLines(t);
    std::vector<std::pair<size_t, int>> tags;
    for (size_t i = 0; i < l.size(); i++)
        for (auto& a : std::map<std::string, int>{{"\"Position\"", 3}, {"\"Velocity\"", 3}, {"\"Particle Type\"", 1}, {"\"Fluid Type\"", 1}, {"\"Density\"", 1}})
            if (l[i].find(a.first) != std::string::npos)
                tags.push_back({i, a.second});
    auto [tag, comps] = tags[g.raw(tags.size())];
    size_t row        = tag + 1 + g.raw(n);
    auto cell         = splitOn(l[row], ' ');
    if (g.chance(0.6)) {
        cell[g.raw(cell.size())] = g.pick<std::string>({"abc", "1.5abc", "--5", "-", ".", "1.2.3", "0.1f", "e5", "+", "five", "1,5"});
        how                      = "bad value";
    } else if (comps == 3) {
        cell.pop_back();
        how = "missing component";
    } else {
        cell[0] = "";
        how     = "empty line";
    }
    l[row] = join(cell, " ");
    return join(l, "\n") + "\n";
}

void broken(Src& g, Case& c) {
    Format f = (Format) g.raw(3);
    std::string how, t = brokenFile(g, f, how);
    c.note([&](std::ostream& o) { o << ext(f) << ", " << how << "\n" << t; });
    auto j = f == Prof ? judgeProf(t) : f == Csv ? judgeCsv(t) : judgeVtu(t);
    if (j.v != Broken) { // e.g. the edit happened to keep it readable
        c.label("not broken");
        c.discard();
    }
    std::string path = scratch() + "/b" + ext(f);
    writeFile(path, t);
    auto o         = load(f, path, 997);
    std::string m = check(f, t, o, 997);
    REQUIRE(m.empty(), how << ": " << m);
    c.label(std::string(ext(f)) + " " + how.substr(0, how.find(' ')));
    c.nontrivial();
}

std::string mutate(Src& g, std::string t) {
    int k = (int) g.range(1, 4);
    static const char* frag[] = {"nan", "inf", "-inf", "1e999", "1e-999", "1e-99999999999", "99999999999999999999", "0x1p3", ",", ",,", "\n", "\r\n", "\n\n", " ", "\t",
        "-", "+", ".", "e", "-1", "\"", "'", "<", ">", "</DataArray>", "<AppendedData", "Name=\"Density\"", "Time", "Position", "Velocity", "Particle Type", "Fluid Type",
        "type", "density", "fluidType", "x", "vx", "#", "//", "2147483648", "-2147483649", "1e308", "00000000000000000000000000000001", "\xEF\xBB\xBF", "4294967297", "1000000000"};
    for (int i = 0; i < k && !t.empty(); i++) {
        size_t at = g.raw(t.size() + 1);
        switch (g.weighted({3, 2, 4, 2, 2, 1, 2, 2})) {
        case 0: t.resize(at); break;
        case 1: t.erase(at, 1 + g.raw(12)); break;
        case 2: t.insert(at, frag[g.raw(sizeof frag / sizeof *frag)]); break;
        case 3: if (at < t.size()) t[at] = (char) g.raw(256); break;
        case 4: { // a slice doubled
            size_t n = 1 + g.raw(40);
            t.insert(at, t.substr(std::min(at, t.size()), n));
            break;
        }
        case 5: { // a slice moved
            size_t n      = 1 + g.raw(40);
            std::string u = t.substr(at, n);
            t.erase(at, n);
            t.insert(g.raw(t.size() + 1), u);
            break;
        }
        case 6: { // a line removed or doubled
            auto l = splitLines(t);
            if (l.empty())
                break;
            size_t r = g.raw(l.size());
            if (g.chance(0.5))
                l.erase(l.begin() + r);
            else
                l.insert(l.begin() + r, l[r]);
            t = join(l, "\n") + "\n";
            break;
        }
        default: { // a token replaced
            size_t b = t.find_first_of("0123456789-", at);
            if (b == std::string::npos)
                break;
            size_t e = t.find_first_not_of("0123456789-+.e", b);
            t.replace(b, e == std::string::npos ? std::string::npos : e - b, frag[g.raw(sizeof frag / sizeof *frag)]);
        }
        }
    }
    return t;
}

void mutated(Src& g, Case& c) {
    Format f = (Format) g.raw(3);
    Snap s   = genSnap(g, 10, true, true);
    for (auto& r : s.rows)
        r.rho = g.pick({1000.0, 1.0, 0.5, -1.0});
    std::string t = f == Prof ? writeProf(s) : f == Csv ? writeCsv(s, allColumns(g)) : writeVtu(g, s);
    if (g.chance(0.95))
        t = mutate(g, t);
    if (g.chance(0.03)) { // bytes
        t.clear();
        while (t.size() < 300 && g.more(40))
            t += (char) g.raw(256);
    }
    c.note([&](std::ostream& o) { o << ext(f) << "\n" << t; });
    std::string path = scratch() + "/m" + ext(f);
    writeFile(path, t);
    auto j        = f == Prof ? judgeProf(t) : f == Csv ? judgeCsv(t) : judgeVtu(t);
    auto o        = load(f, path, 997);
    std::string m = check(f, t, o, 997);
    REQUIRE(m.empty(), m);
    c.label(std::string(ext(f)) + (j.v == Valid ? " valid" : j.v == Broken ? " broken" : o.accepted ? " grey, accepted" : " grey, refused"));
    c.nontrivial(j.v == Broken || (o.accepted && o.got.second.size() > 0));
}

// ---------------------------------------------------------------- the executable
const char* SETTINGS = "dim: 2\nparticleDistance: 0.1\ndt: 0.001\nendTime: 1.0e+300\noutputPeriod: 0.001\ncflCondition: 0.3\nnumPhysicalCores: 1\n"
                       "domainMin: [-20.0, -20.0, 0.0]\ndomainMax: [20.0, 20.0, 0.0]\ndefaultDensity: 1000.0\nkinematicViscosity: 1.0e-06\n"
                       "gravity: [0.0, 0.0, 0.0]\nsurfaceDetection-numberDensity-threshold: 0.97\nsurfaceDetection-particleDistribution: false\n"
                       "surfaceDetection-particleDistribution-threshold: 1.0\npressureCalculationMethod: Explicit\ncompressibility: 0.45e-09\n"
                       "relaxationCoefficientForPressure: 0.2\nsoundSpeed: 1.0\ncollisionDistanceRatio: 0.5\ncoefficientOfRestitution: 0.2\n"
                       "radiusRatioForNumberDensity: 3.1\nradiusRatioForGradient: 2.1\nradiusRatioForLaplacian: 3.1\n";

void program(Src& g, Case& c) {
    namespace fs    = std::filesystem;
    std::string dir = scratch() + "/run";
    fs::remove_all(dir);
    fs::create_directories(dir + "/out");
    Format f = (Format) g.raw(3);
    std::string how, t, file = std::string("p") + ext(f);
    int kind = (int) g.weighted({5, 1, 1, 1});
    RunOpt opt;
    if (kind == 0) {
        t      = brokenFile(g, f, how);
        auto j = f == Prof ? judgeProf(t) : f == Csv ? judgeCsv(t) : judgeVtu(t);
        if (j.v != Broken)
            c.discard();
        writeFile(dir + "/" + file, t);
    } else if (kind == 1) {
        how = "file missing";
    } else if (kind == 2) {
        how = "directory instead of a file";
        fs::create_directories(dir + "/" + file);
    } else {
        how = "unreadable file";
        writeFile(dir + "/" + file, f == Prof ? "0\n0\n" : f == Csv ? "0\n0\ntype,x,y,z,vx,vy,vz\n" : "<VTKFile>\n");
        chmod((dir + "/" + file).c_str(), 0);
        opt.asNobody = true;
    }
    std::string set = SETTINGS;
    if (kind == 3) // if it is read after all, the run must end
        set.replace(set.find("1.0e+300"), 8, "0.0");
    writeFile(dir + "/settings.yml", set + "particlesPath: " + file + "\n");
    fs::permissions(dir + "/out", fs::perms::all);
    c.note([&](std::ostream& o) { o << how << "\n" << t; });
    opt.cpuSec = 10;
    auto r     = run({getenv("PBT_MPS"), "-s", dir + "/settings.yml", "-o", dir + "/out"}, opt);
    if (opt.asNobody && r.status >= 125 && r.status <= 127)
        c.discard(); // the program could not be started as that user
    REQUIRE(!r.timeout, how << ": mps keeps running");
    REQUIRE(r.status != 0, how << ": mps ends with success");
    REQUIRE(r.status != -SIGSEGV && r.status != -SIGBUS && r.status != -SIGFPE, how << ": mps dies with signal " << -r.status);
    for (const char* d : {"prof", "vtu", "csv"})
        REQUIRE(!fs::exists(dir + "/out/" + d) || fs::is_empty(dir + "/out/" + d), how << ": mps wrote results");
    c.label(how.substr(0, how.find(' ')));
    c.nontrivial();
}

/// the loaders on a path that holds no file
void noFile(Src& g, Case& c) {
    namespace fs    = std::filesystem;
    Format f        = (Format) g.raw(3);
    std::string dir = scratch() + "/none";
    fs::remove_all(dir);
    fs::create_directories(dir);
    std::string name = g.pick<std::string>({"p", "particles", "a b", "input.prof", "x/y", "p.gz"}) + ext(f);
    int kind         = (int) g.weighted({3, 2, 1});
    std::string path = kind == 2 ? "" : dir + "/" + name;
    if (kind == 1) {
        fs::create_directories(fs::path(path).parent_path());
        fs::create_symlink("nowhere", path);
    }
    c.note([&](std::ostream& o) { o << ext(f) << " loader, " << (kind == 1 ? "dangling link " : "no file ") << path; });
    auto o = load(f, path, 997);
    REQUIRE(!o.accepted, "a path without a file was loaded as " << o.got.second.size() << " particles");
    c.label(std::string(ext(f)) + (kind == 0 ? " missing" : kind == 1 ? " dangling link" : " empty path"));
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C22.broken", "valid profile, csv or vtu files with one definite defect (truncated, non-number, missing column, missing value, wrong cell count); "
                        "non-trivial: the independent verdict is broken",
          15000, 400000, broken, 5},
         {"C22.mutated", "valid files under 1-4 random mutations (cuts, insertions of hostile tokens, moved slices, random bytes), three-valued independent "
                         "verdict; non-trivial: broken, or accepted with particles",
          25000, 800000, mutated, 5},
         {"C22.nofile", "each loader on a path where there is no file (missing, dangling link, empty path); non-trivial: all", 300, 3000, noFile},
         {"C22.program", "mps run on broken, missing, unreadable files; non-trivial: all", 400, 4000, program}}
    );
}
