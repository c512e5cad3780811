// C20: every setting in the YAML file takes effect exactly as written
#include "e2e.hpp"
#include "filebridge.hpp"
#include "loader.hpp"
#include "pbt.hpp"

#include <unistd.h>

using namespace pbt;
using namespace e2e;

namespace {

struct Item {
    std::string key, value;
    std::string kind; ///< int, double, bool, list, method, path
    bool required = true;
};

/// a decimal literal and the double it denotes
std::string literal(Src& g, double lo, double hi, double& d) {
    double v = g.chance(0.3) ? (double) (long) g.real(lo, hi) : g.real(lo, hi);
    std::string t;
    switch (g.weighted({4, 2, 2, 2, 1, 1})) {
    case 0: t = files::fmt("%g", v); break;
    case 1: t = files::fmt("%.17g", v); break;
    case 2: t = files::fmt("%.3f", v); break;
    case 3: t = files::fmt("%.10e", v); break;
    case 4: t = files::fmt("%.5E", v); break;
    default:
        t = files::fmt("%.6f", v);
        if (v > 0)
            t = "+" + t;
    }
    d = std::strtod(t.c_str(), nullptr);
    return t;
}

struct Expect {
    std::map<std::string, double> num;
    std::map<std::string, std::array<double, 3>> vec;
    bool xyz = true, dist = false, binary = false;
    std::string method;
};

std::string boolean(Src& g, bool b) {
    return b ? g.pick({"true", "True", "TRUE", "yes", "on"}) : g.pick({"false", "False", "FALSE", "no", "off"});
}
std::string quote(Src& g, const std::string& s, bool need) {
    switch (g.weighted({need ? 0.0 : 3.0, 2, 2})) {
    case 0: return s;
    case 1: {
        std::string o = "\"";
        for (char ch : s) {
            if (ch == '"' || ch == '\\')
                o += '\\';
            o += ch;
        }
        return o + "\"";
    }
    default: {
        std::string o = "'";
        for (char ch : s) {
            if (ch == '\'')
                o += '\'';
            o += ch;
        }
        return o + "'";
    }
    }
}

/// settings with random values.  `calm`: values with which mps can run
std::vector<Item> genItems(Src& g, Expect& e, bool calm, const std::string& path) {
    std::vector<Item> v;
    auto num = [&](const char* k, double lo, double hi) {
        double d;
        std::string t = literal(g, lo, hi, d);
        e.num[k]      = d;
        v.push_back({k, t, "double", true});
    };
    auto vec = [&](const char* k, double lo, double hi) {
        std::string t;
        std::array<double, 3> a;
        bool block = g.chance(0.3);
        for (int i = 0; i < 3; i++) {
            std::string l = literal(g, lo, hi, a[i]);
            if (block)
                t += (i ? "\n  - " : "\n  - ") + l;
            else
                t += (i ? g.pick({", ", ",", " , "}) : std::string("[")) + l;
        }
        e.vec[k] = a;
        v.push_back({k, block ? t : t + "]", block ? "blocklist" : "list", true});
    };
    auto boolk = [&](const char* k, bool b, bool req) { v.push_back({k, boolean(g, b), "bool", req}); };
    int dim      = g.chance(0.3) ? 3 : 2;
    e.num["dim"] = dim;
    v.push_back({"dim", std::to_string(dim), "int", true});
    int cores                 = (int) g.range(1, 64);
    e.num["numPhysicalCores"] = cores;
    v.push_back({"numPhysicalCores", std::to_string(cores), "int", true});
    if (calm) {
        num("particleDistance", 1, 3);
        num("dt", 0.001, 0.1);
        num("endTime", -1, 0);
        num("outputPeriod", 0.01, 2);
        vec("domainMin", -10, -1);
        vec("domainMax", 1, 10);
        num("radiusRatioForNumberDensity", 1.1, 4);
        num("radiusRatioForGradient", 1.1, 4);
        num("radiusRatioForLaplacian", 1.1, 4);
    } else {
        num("particleDistance", 1e-3, 10);
        num("dt", 1e-6, 10);
        num("endTime", -10, 1000);
        num("outputPeriod", 1e-6, 100);
        vec("domainMin", -1000, 100);
        vec("domainMax", -100, 1000);
        num("radiusRatioForNumberDensity", 0.5, 9);
        num("radiusRatioForGradient", 0.5, 9);
        num("radiusRatioForLaplacian", 0.5, 9);
    }
    num("cflCondition", 0, 5);
    num("defaultDensity", 0.1, 20000);
    num("kinematicViscosity", 0, 1);
    e.xyz = true;
    if (g.chance(0.6)) {
        e.xyz = g.chance(0.5);
        boolk("xyz-input", e.xyz, false);
    }
    vec("gravity", -20, 20);
    e.num["gravity-norm"] = e.num["gravity-angle"] = 0;
    if (g.chance(0.6)) {
        num("gravity-norm", 0, 20);
        v.back().required = false;
    }
    if (g.chance(0.6)) {
        num("gravity-angle", -400, 400);
        v.back().required = false;
    }
    num("surfaceDetection-numberDensity-threshold", 0, 2);
    e.dist = g.chance(0.5);
    boolk("surfaceDetection-particleDistribution", e.dist, true);
    num("surfaceDetection-particleDistribution-threshold", 0, 3);
    e.method = g.pick({"Implicit", "Explicit"});
    v.push_back({"pressureCalculationMethod", quote(g, e.method, false), "method", true});
    num("compressibility", 0, 1e-3);
    num("relaxationCoefficientForPressure", 0, 2);
    num("soundSpeed", 0, 2000);
    num("collisionDistanceRatio", 0, 1.5);
    num("coefficientOfRestitution", 0, 1);
    bool odd = path.find_first_of(" #:'\"&*,[]{}%@!|>") != std::string::npos || path[0] == '-' || (unsigned char) path[0] > 127;
    v.push_back({"particlesPath", quote(g, path, odd), "path", true});
    e.binary = false;
    if (g.chance(0.6)) {
        e.binary = g.chance(0.6);
        boolk("outputVtkInBinary", e.binary, false);
    }
    return v;
}

std::string print(Src& g, std::vector<Item> v) {
    if (g.chance(0.6)) { // any order
        uint64_t seed = g.raw(1u << 20);
        for (size_t i = v.size(); i > 1; i--) {
            seed = seed * 6364136223846793005ull + 1442695040888963407ull;
            std::swap(v[i - 1], v[(seed >> 33) % i]);
        }
    }
    bool noisy = g.chance(0.5), flow = g.chance(0.12), quoted = g.chance(0.3);
    for (auto& i : v)
        flow = flow && i.kind != "blocklist";
    std::string eol = g.chance(0.15) ? "\r\n" : "\n";
    std::string t;
    auto comment = [&]() -> std::string {
        return g.pick({"# computational conditions", "#dt: 9", "# 流体", "#", "# endTime: [1, 2"});
    };
    if (g.chance(0.15))
        t += "---" + eol;
    if (flow)
        t += "{" + eol;
    for (size_t i = 0; i < v.size(); i++) {
        if (noisy && !flow && g.chance(0.2))
            t += g.pick({"", "  "}) + comment() + eol;
        if (noisy && g.chance(0.1))
            t += eol;
        std::string val = v[i].value;
        for (size_t p = 0; eol == "\r\n" && (p = val.find('\n', p)) != std::string::npos; p += 2)
            val.replace(p, 1, "\r\n");
        std::string key = quoted && g.chance(0.5) ? quote(g, v[i].key, true) : v[i].key;
        t += key + ":" + (v[i].kind == "blocklist" ? "" : g.pick({" ", "  ", "    "})) + val;
        if (flow)
            t += i + 1 < v.size() ? "," : "";
        else if (noisy && v[i].kind != "blocklist" && g.chance(0.3))
            t += "  " + comment();
        t += eol;
        if (noisy && !flow && g.chance(0.05))
            t += std::string(g.pick({"extra: 1", "note: 'dim: 7'", "Dim: 4", "DT: 5"})) + "" + eol;
    }
    if (flow)
        t += "}" + eol;
    else if (g.chance(0.1))
        t.resize(t.size() - eol.size()); // no newline at the end
    // a repeated extra key would be an invalid mapping
    for (const char* k : {"extra: 1", "note: 'dim: 7'", "Dim: 4", "DT: 5"}) {
        size_t a = t.find(std::string(k) + eol);
        if (a == std::string::npos)
            continue;
        for (size_t b; (b = t.find(std::string(k) + eol, a + 1)) != std::string::npos;)
            t.erase(b, std::strlen(k) + eol.size());
    }
    return t;
}

Snap oneParticle(double tag) {
    Snap s;
    s.time = 0.5;
    Row r;
    r.type = ref::Fluid;
    r.x[0] = tag;
    r.x[1] = 0.25;
    r.v[1] = -tag;
    s.rows.push_back(r);
    return s;
}
std::string particleText(const std::string& name, double tag) {
    auto ends = [&](const char* e) { return name.size() > 4 && name.rfind(e) == name.size() - std::strlen(e); };
    Snap s    = oneParticle(tag);
    return ends(".csv") ? csvText(s) : ends(".vtu") ? vtuText(s, false) : profText(s);
}

struct Cwd {
    fs::path old = fs::current_path();
    explicit Cwd(const std::string& d) {
        fs::current_path(d);
    }
    ~Cwd() {
        fs::current_path(old);
    }
};

struct Layout {
    std::string root, settingsDir, cwd, out; ///< absolute
    std::string settingsArg, outArg;
    std::string pathValue, target;           ///< value of particlesPath; the file it means
};

Layout layout(Src& g, double tag) {
    Layout l;
    l.root = freshDir("c20");
    l.settingsDir = l.root + "/" + g.pick({"case", "a b/case", "case.d"});
    l.cwd         = g.chance(0.5) ? l.root : g.chance(0.5) ? l.settingsDir : l.root + "/elsewhere";
    l.out         = l.root + "/" + g.pick({"out", "results/run1"});
    for (auto& d : {l.settingsDir, l.cwd, l.out, l.settingsDir + "/sub", l.root + "/data", l.root + "/elsewhere"})
        fs::create_directories(d);
    std::string name = std::string(g.pick({"input", "in put", "x.y", "#1"})) + g.pick({".prof", ".csv", ".vtu"});
    std::string through; // what a path through a linked directory means
    switch (g.weighted({3, 2, 2, 2, 1, 1, 0.5, 0.5})) {
    case 6:
    case 7:
        fs::create_directories(l.root + "/data/deep");
        fs::create_directory_symlink(l.root + "/data/deep", l.settingsDir + "/link");
        through     = l.root + "/data/" + (g.chance(0.6) ? "" : "deep/") + name;
        l.pathValue = std::string(g.pick({"link/", "./link/", "sub/../link/"})) + (through == l.root + "/data/" + name ? "../" : "") + name;
        break;
    case 0: l.pathValue = name; break;
    case 1: l.pathValue = "./" + name; break;
    case 2: l.pathValue = "sub/" + name; break;
    case 3: l.pathValue = "../" + std::string(l.settingsDir == l.root + "/a b/case" ? "../" : "") + "data/" + name; break;
    case 4: l.pathValue = "sub/../" + name; break;
    default: l.pathValue = l.root + "/data/" + name;
    }
    l.target = !through.empty() ? through : l.pathValue[0] == '/' ? l.pathValue : (fs::path(l.settingsDir) / l.pathValue).lexically_normal().string();
    // same names elsewhere hold other particles
    double other = 100;
    for (auto& d : {l.settingsDir, l.settingsDir + "/sub", l.root + "/data/deep", l.cwd, l.cwd + "/sub", l.root + "/data", l.root}) {
        fs::create_directories(d);
        if (d + "/" + name != l.target && g.chance(0.7))
            writeFile(d + "/" + name, particleText(name, other += 1));
    }
    writeFile(l.target, particleText(name, tag));
    std::string sname = g.pick({"settings.yml", "s.yaml", "my settings", "set#tings.yml"});
    auto rel          = [&](const std::string& p) { return fs::path(p).lexically_relative(l.cwd).string(); };
    l.settingsArg     = l.settingsDir + "/" + sname;
    l.outArg          = l.out;
    if (g.chance(0.6)) {
        l.settingsArg = rel(l.settingsArg);
        if (g.chance(0.2))
            l.settingsArg = "./" + l.settingsArg;
    }
    if (g.chance(0.5))
        l.outArg = rel(l.outArg) + (g.chance(0.3) ? "/" : "");
    return l;
}
std::string settingsFile(const Layout& l) {
    return fs::path(l.settingsArg).is_absolute() ? l.settingsArg : l.cwd + "/" + l.settingsArg;
}

/// the settings file is where the command line says, now and then as a link to a file elsewhere
bool writeSettings(Src& g, const Layout& l, const std::string& text) {
    std::string f = settingsFile(l);
    if (!g.chance(0.15)) {
        writeFile(f, text);
        return false;
    }
    std::string dir = l.root + "/store/case";
    fs::create_directories(dir + "/sub");
    fs::create_directories(l.root + "/store/data");
    writeFile(dir + "/real.yml", text);
    fs::create_symlink(g.chance(0.5) ? dir + "/real.yml" : fs::path(dir + "/real.yml").lexically_relative(fs::path(f).parent_path()).string(), f);
    auto decoy = (fs::path(dir) / l.pathValue).lexically_normal().string();
    if (decoy != l.target && fs::is_directory(fs::path(decoy).parent_path()) && g.chance(0.7))
        writeFile(decoy, particleText(decoy, 99));
    return true;
}

bool near(double a, double b) {
    return a == b || std::fabs(a - b) <= 4e-16 * std::max(std::fabs(a), std::fabs(b));
}

void load(Src& g, Case& c) {
    Layout l = layout(g, 7);
    Expect e;
    auto items = genItems(g, e, false, l.pathValue);
    std::string text = print(g, items);
    bool linked      = writeSettings(g, l, text);
    c.note([&](std::ostream& o) { o << (linked ? "(link) " : "") << "-s " << l.settingsArg << " -o " << l.outArg << " in " << l.cwd << "\n" << text; });
    Input in;
    Guarded r;
    std::string err;
    {
        Cwd there(l.cwd);
        CaptureStderr cap;
        r = guarded([&] {
            Loader loader;
            in = loader.load(l.settingsArg, l.outArg);
        });
        err = cap.take();
    }
    REQUIRE(r.ok(), "loading the settings failed: " << (r.kind == Guarded::Exited ? "exit" : r.what) << " " << err);
    auto& s  = in.settings;
    auto num = [&](const char* k, double got) {
        REQUIRE(got == e.num[k], k << " is " << got << ", the file says " << e.num[k]);
    };
    num("dim", s.dim);
    num("particleDistance", s.particleDistance);
    num("dt", s.dt);
    num("endTime", s.endTime);
    num("outputPeriod", s.outputPeriod);
    num("cflCondition", s.cflCondition);
    num("numPhysicalCores", s.numPhysicalCores);
    num("defaultDensity", s.defaultDensity);
    num("kinematicViscosity", s.kinematicViscosity);
    num("gravity-norm", s.gNorm);
    num("gravity-angle", s.gAngle);
    num("surfaceDetection-numberDensity-threshold", s.surfaceDetection_numberDensity_threshold);
    num("surfaceDetection-particleDistribution-threshold", s.surfaceDetection_particleDistribution_threshold);
    num("compressibility", s.compressibility);
    num("relaxationCoefficientForPressure", s.relaxationCoefficientForPressure);
    num("soundSpeed", s.soundSpeed);
    num("coefficientOfRestitution", s.coefficientOfRestitution);
    double l0  = e.num["particleDistance"];
    auto ratio = [&](const char* k, double got) {
        REQUIRE(near(got, e.num[k] * l0), k << " times particleDistance is " << got << ", expected " << e.num[k] * l0);
    };
    ratio("collisionDistanceRatio", s.collisionDistance);
    ratio("radiusRatioForNumberDensity", s.re_forNumberDensity);
    ratio("radiusRatioForGradient", s.re_forGradient);
    ratio("radiusRatioForLaplacian", s.re_forLaplacian);
    double mx = std::max({s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian});
    REQUIRE(s.reMax == mx, "reMax is " << s.reMax << ", the largest radius is " << mx);
    for (int k = 0; k < 3; k++)
        REQUIRE(s.gravity[k] == e.vec["gravity"][k], "gravity[" << k << "] is " << s.gravity[k] << ", the file says " << e.vec["gravity"][k]);
    auto &lo = e.vec["domainMin"], &hi = e.vec["domainMax"];
    double gl[3] = {s.domain.xMin, s.domain.yMin, s.domain.zMin}, gh[3] = {s.domain.xMax, s.domain.yMax, s.domain.zMax},
           gx[3] = {s.domain.xLength, s.domain.yLength, s.domain.zLength};
    for (int k = 0; k < 3; k++)
        REQUIRE(
            gl[k] == lo[k] && gh[k] == hi[k] && std::fabs(gx[k] - (hi[k] - lo[k])) <= 4e-16 * (std::fabs(lo[k]) + std::fabs(hi[k])),
            "domain axis " << k << " is " << gl[k] << ".." << gh[k] << " length " << gx[k] << ", the file says " << lo[k] << ".." << hi[k]
        );
    REQUIRE(s.xyzInput == e.xyz, "xyz-input is " << s.xyzInput);
    REQUIRE(s.surfaceDetection_particleDistribution == e.dist, "surfaceDetection-particleDistribution is " << s.surfaceDetection_particleDistribution);
    REQUIRE(s.outputVtkInBinary == e.binary, "outputVtkInBinary is " << s.outputVtkInBinary);
    REQUIRE(s.pressureCalculationMethod == e.method, "pressureCalculationMethod is " << s.pressureCalculationMethod);
    REQUIRE(in.particles.size() == 1, in.particles.size() << " particles loaded");
    REQUIRE(
        in.particles[0].position.x() == 7 && in.particles[0].velocity.y() == -7,
        "particles are those of another file: x=" << in.particles[0].position.x() << "; particlesPath is " << s.particlesPath << ", meant is " << l.target
    );
    REQUIRE(in.particles[0].density == e.num["defaultDensity"], "density is " << in.particles[0].density << ", defaultDensity " << e.num["defaultDensity"]);
    REQUIRE(in.startTime == 0.5, "start time is " << in.startTime);
    REQUIRE(readFile(l.out + "/" + fs::path(l.target).filename().string()) == readFile(l.target), "the copy of the particle file differs");
    c.nontrivial(l.pathValue.find('/') != std::string::npos || l.cwd != l.settingsDir);
    c.label(l.pathValue[0] == '/' ? "absolute path" : l.pathValue.find("link/") != std::string::npos ? "through a linked directory" : l.pathValue.find("..") != std::string::npos ? "path with .." : "plain path");
    if (linked)
        c.label("settings file is a link");
    if (l.settingsArg.find('/') == std::string::npos)
        c.label("settings path without directory");
}

std::string resultFile(const std::string& out) {
    for (auto& f : tree(out))
        if (f.first.find("output_") != std::string::npos)
            return f.first;
    return "";
}

void faults(Src& g, Case& c) {
    Layout l = layout(g, 0.5);
    Expect e;
    std::string what = "none", path = l.pathValue;
    int kind = (int) g.weighted({2, 5, 5, 2, 2});
    if (kind == 4) { // same file under a name with another ending
        std::string ext = g.pick({".txt", ".PROF", "", ".Csv", ".vtk", ".prof.bak", ".yml", ".vtu "});
        auto p          = fs::path(l.target);
        std::string stem = p.stem().string();
        if (stem.find('.') != std::string::npos && ext.empty())
            stem = "plain";
        fs::copy_file(p, p.parent_path() / (stem + ext));
        auto q = fs::path(path);
        path   = (q.parent_path() / (stem + ext)).string();
        what   = "ending '" + ext + "'";
    }
    auto items = genItems(g, e, true, path);
    if (kind == 1 || kind == 2) {
        std::vector<size_t> req;
        for (size_t i = 0; i < items.size(); i++)
            if (items[i].required || kind == 2)
                req.push_back(i);
        size_t k = g.pick(req);
        auto& it = items[k];
        what     = it.key;
        if (kind == 1) {
            int how = (int) g.weighted({4, 1, 1});
            if (how == 0 && (it.kind == "list" || it.kind == "blocklist") && g.chance(0.4)) {
                it.value = g.pick({"[]", "[1]", "[1, 2]", "3"}); // elements missing
                it.kind  = "list";
                what += " = " + it.value;
            } else if (how == 0) {
                items.erase(items.begin() + (long) k);
                what += " left out";
            } else if (how == 1) {
                std::string wrong = it.key;
                wrong[0]          = (char) (std::isupper(wrong[0]) ? std::tolower(wrong[0]) : std::toupper(wrong[0]));
                it.key            = wrong;
                what += " written " + wrong;
            } else {
                it.key += g.pick({"s", "_", "2"});
                what += " written " + it.key;
            }
        } else if (it.kind == "path" || it.kind == "method") {
            it.value = g.pick({"[1, 2]", "{a: 1}"});
            what += " = " + it.value;
        } else if (it.kind == "bool") {
            it.value = g.pick({"maybe", "2", "[true]", "tru", "{a: true}"});
            what += " = " + it.value;
        } else if (it.kind == "list" || it.kind == "blocklist") {
            static const char* bad[] = {"abc", "1.0.0", "~", "[2]", "0.1m", "1;", "--1"};
            std::string b = bad[g.raw(7)];
            int pos       = (int) g.raw(3);
            it.value      = "[";
            for (int i = 0; i < 3; i++)
                it.value += std::string(i ? ", " : "") + (i == pos ? b : "1");
            it.value += "]";
            it.kind = "list";
            what += " = " + it.value;
        } else {
            it.value = g.pick({"abc", "1.0.0", "[2]", "0.1m", "~", "'1 2'", "{a: 1}", "1_000"});
            if (it.kind == "int" && g.chance(0.4))
                it.value = g.pick({"2.5", "2a", "99999999999"});
            what += " = " + it.value;
        }
    } else if (kind == 3) {
        for (auto& it : items)
            if (it.key == "pressureCalculationMethod") {
                it.value = g.pick({"implicit", "EXPLICIT", "''", "Implicitt", "'Implicit '", "EMPS", "Implicit Explicit", "1", "Expl"});
                what     = it.key + " = " + it.value;
            }
    }
    std::string text = print(g, items);
    bool linked      = writeSettings(g, l, text);
    c.note([&](std::ostream& o) { o << (linked ? "(link) " : "") << "fault: " << what << "\n-s " << l.settingsArg << " -o " << l.outArg << " in " << l.cwd << "\n" << text; });
    RunOpt o;
    o.cwd    = l.cwd;
    auto res = run({mpsPath(), "-s", l.settingsArg, "-o", l.outArg}, o);
    REQUIRE(!res.timeout, "mps does not end");
    REQUIRE(!crashed(res), "mps crashed with signal " << -res.status);
    std::string f = resultFile(l.out);
    if (kind == 0) {
        REQUIRE(res.status == 0, "mps ended with " << res.status << " on valid settings\n" << res.err.substr(0, 300));
        REQUIRE(!f.empty(), "no result was written");
        c.label("valid");
        return;
    }
    REQUIRE(res.status != 0, "mps reports success although: " << what);
    REQUIRE(f.empty(), "mps failed (" << what << ") after writing " << f);
    static const char* names[] = {"", "key missing", "wrong type", "unknown method", "unknown ending"};
    c.label(names[kind]);
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C20.load",
          "settings with random values, printed in random order, notation, quoting and layout, from several working directories, with other "
          "particle files of the same name around; every field of the loaded settings is compared; non-trivial: the particle path has a "
          "directory or the working directory is not that of the settings",
          12000, 300000, load},
         {"C20.faults",
          "runs of mps on settings with a required key missing or mistyped, an unknown pressure method or an unknown particle file ending, and "
          "valid ones; non-trivial: a fault is present",
          2500, 60000, faults}}
    );
}
