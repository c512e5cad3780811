// C24: generators overwrite nothing without consent and emit the documented case
#include "e2e.hpp"
#include "filebridge.hpp"
#include "pbt.hpp"

#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"

#include <set>

using namespace pbt;
using namespace e2e;

namespace {

struct CaseInfo {
    const char* name;
    const char* env;
    double l0;
    bool half;           ///< lattice points at half spacings
    double fx[2], fy[2]; ///< fluid
    double tx[2], ty[2]; ///< inside of the tank
    bool capped;         ///< the two uppermost rows of the outer layers are walls
};
const CaseInfo CASES[] = {
    {"dambreak", "PBT_GEN_DAMBREAK", 0.025, false, {0, 0.25}, {0, 0.5}, {0, 1.0}, {0, 0.6}, true},
    {"hydrostatic", "PBT_GEN_HYDROSTATIC", 0.012, true, {-0.18, 0.18}, {0, 0.48}, {-0.18, 0.18}, {0, 0.6}, false},
};

/// type by lattice point, from the description of the case
std::map<std::pair<long, long>, int> geometry(const CaseInfo& k) {
    std::map<std::pair<long, long>, int> m;
    double e = k.half ? 0.5 : 0.0;
    for (long i = -60; i < 60; i++)
        for (long j = -60; j < 60; j++) {
            double x = (i + e) * k.l0, y = (j + e) * k.l0, t = 0.01 * k.l0;
            auto in  = [&](const double* a, const double* b, double mx, double my) {
                return a[0] - mx - t < x && x < a[1] + mx + t && b[0] - my - t < y && y < b[1] + t;
            };
            if (in(k.fx, k.fy, 0, 0))
                m[{i, j}] = ref::Fluid;
            else if (in(k.tx, k.ty, 0, 0))
                continue;
            else if (in(k.tx, k.ty, 2 * k.l0, 2 * k.l0))
                m[{i, j}] = ref::Wall;
            else if (in(k.tx, k.ty, 4 * k.l0, 4 * k.l0))
                m[{i, j}] = k.capped && y > k.ty[1] - 2 * k.l0 - t ? ref::Wall : ref::Dummy;
        }
    return m;
}

void contents(Case& c, const CaseInfo& k, const std::string& dir) {
    Snap prof, vtu;
    try {
        prof = files::parseProf(readFile(dir + "/input.prof"));
        vtu  = files::parseVtu(readFile(dir + "/input.vtu")).snap;
    } catch (const files::Bad& e) {
        c.fail(std::string(k.name) + ": " + e.what());
    }
    static const auto want0 = geometry(CASES[0]), want1 = geometry(CASES[1]);
    auto& want = &k == &CASES[0] ? want0 : want1;
    REQUIRE(prof.time == 0 && vtu.time == 0, k.name << ": times " << prof.time << " and " << vtu.time);
    REQUIRE(prof.rows.size() == vtu.rows.size(), k.name << ": " << prof.rows.size() << " particles in the profile, " << vtu.rows.size() << " in the vtu file");
    std::set<std::pair<long, long>> seen;
    static const auto sample = [](const std::string& t, const char* key, int pos) {
        size_t p = t.find(key);
        if (p == std::string::npos)
            return 0.0;
        p = t.find('[', p);
        for (int i = 0; i < pos; i++)
            p = t.find(',', p + 1);
        return std::strtod(t.c_str() + p + 1, nullptr);
    };
    std::string settings = readFile(std::string(getenv("PBT_REPO")) + "/input/" + k.name + "/settings.yml");
    for (size_t i = 0; i < prof.rows.size(); i++) {
        auto &a = prof.rows[i], &b = vtu.rows[i];
        bool same = a.type == b.type;
        for (int d = 0; d < 3; d++)
            same = same && a.x[d] == b.x[d] && a.v[d] == b.v[d];
        REQUIRE(same, k.name << ": particle " << i << " is " << a << " in the profile, " << b << " in the vtu file");
        double e = k.half ? 0.5 : 0;
        long ix = std::lround(a.x[0] / k.l0 - e), iy = std::lround(a.x[1] / k.l0 - e);
        REQUIRE(std::fabs(a.x[0] - (ix + e) * k.l0) <= 1e-5 && std::fabs(a.x[1] - (iy + e) * k.l0) <= 1e-5 && a.x[2] == 0, k.name << ": particle " << i << " is off the lattice: " << a);
        REQUIRE(seen.insert({ix, iy}).second, k.name << ": two particles at " << a);
        auto it = want.find({ix, iy});
        REQUIRE(it != want.end(), k.name << ": no particle belongs at " << a);
        REQUIRE(it->second == a.type, k.name << ": particle " << i << " should have type " << it->second << ": " << a);
        REQUIRE(a.v[0] == 0 && a.v[1] == 0 && a.v[2] == 0, k.name << ": moving particle " << a);
        if (!settings.empty())
            for (int d = 0; d < 3; d++)
                REQUIRE(sample(settings, "domainMin", d) <= a.x[d] && a.x[d] <= sample(settings, "domainMax", d), k.name << ": outside the domain of the sample settings: " << a);
    }
    for (auto& w : want)
        REQUIRE(seen.count(w.first), k.name << ": no particle at lattice point " << w.first.first << "," << w.first.second << " (type " << w.second << ")");
    // accepted by the loaders
    std::pair<double, Particles> lp, lv;
    Guarded r;
    std::string err;
    {
        CaptureStderr cap;
        r = guarded([&] {
            ParticlesLoader::Prof p;
            ParticlesLoader::Vtu v;
            lp = p.load(dir + "/input.prof", 1000);
            lv = v.load(dir + "/input.vtu", 1000);
        });
        err = cap.take();
    }
    REQUIRE(r.ok(), k.name << ": a loader refuses the generated file: " << r.what << err);
    REQUIRE((size_t) lp.second.size() == want.size() && (size_t) lv.second.size() == want.size(), k.name << ": loaders give " << lp.second.size() << " and " << lv.second.size() << " particles");
}

void dialogue(Src& g, Case& c) {
    auto& k          = CASES[g.raw(2)];
    std::string root = freshDir("c24");
    std::string dir  = root + "/input/" + k.name;
    int there        = (int) g.weighted({1, 1, 6, 1});
    std::string in;
    bool ask = false, blocked = false;
    if (there == 1)
        fs::create_directories(root + "/input");
    if (there == 2) {
        fs::create_directories(dir);
        for (const char* n : {"input.prof", "input.vtu", "input.csv", "settings.yml", "input.prof.bak", "prof"})
            if (g.chance(0.45)) {
                writeFile(dir + "/" + n, g.pick({"", "my particles\n", "0\n0\n", "long long content ------------------------------------------------"}));
                ask = ask || std::string(n) == "input.prof" || std::string(n) == "input.vtu";
            }
    }
    if (there == 3) {
        blocked = true;
        if (g.chance(0.5)) {
            fs::create_directories(root + "/input");
            writeFile(dir, "a file");
        } else
            writeFile(root + "/input", "a file");
    }
    if (g.chance(0.3)) { // the other case's files
        std::string od = root + "/input/" + CASES[&k == &CASES[0] ? 1 : 0].name;
        if (!blocked) {
            fs::create_directories(od);
            writeFile(od + "/input.prof", "other case\n");
        }
    }
    // answers
    bool consent = false, decided = false;
    int m        = (int) g.range(0, 5);
    for (int i = 0; i < m; i++) {
        std::string t = g.pick({"y", "n", "Y", "N", "yes", "no", "yn", "", "YES", "j", "ny", "1", "yy", "\x01", "はい", "n.", "y/n", "-y", "\"y\"", "Ny"});
        if (t.empty() && g.chance(0.3))
            t = std::string((size_t) g.pick({100, 5000, 100000}), g.pick({'y', 'x'}));
        bool last = i == m - 1;
        in += t + (last && g.chance(0.3) ? "" : g.chance(0.1) ? "\n\n" : "\n");
        if (!decided) {
            if (t == "y" || t == "Y")
                consent = decided = true;
            if (t == "n" || t == "N")
                decided = true;
        }
    }
    RunOpt o;
    o.cwd       = root;
    o.stdinText = in;
    o.cpuSec    = 10;
    if (in.empty() && g.chance(0.3))
        o.stdinClosed = true;
    auto before = tree(root);
    c.note([&](std::ostream& os) {
        os << k.name << (o.stdinClosed ? ", standard input closed" : ", answers: ") << in.substr(0, 300) << "\n";
        for (auto& e : before)
            os << "  " << e.first << " (" << e.second.size() << " bytes)\n";
    });
    auto res = run({getenv(k.env)}, o);
    REQUIRE(!res.timeout, k.name << " does not end" << (decided ? "" : " at the end of standard input"));
    REQUIRE(!crashed(res), k.name << " crashed with signal " << -res.status);
    auto after  = tree(root);
    bool writes = !blocked && (!ask || consent);
    std::string base = std::string("input/") + k.name + "/";
    for (auto& e : before) {
        REQUIRE(after.count(e.first), e.first << " is gone");
        bool own = e.first == base + "input.prof" || e.first == base + "input.vtu";
        if (!(own && writes))
            REQUIRE(after[e.first] == e.second, e.first << " was overwritten" << (own ? " without consent" : ""));
    }
    for (auto& e : after)
        REQUIRE(before.count(e.first) || (writes && (e.first == base + "input.prof" || e.first == base + "input.vtu")), k.name << " created " << e.first << (writes ? "" : " although it was not to write"));
    if (writes) {
        REQUIRE(res.status == 0, k.name << " ended with " << res.status << ": " << res.err.substr(0, 200));
        contents(c, k, dir);
    }
    c.label(blocked ? "directory cannot be made" : !ask ? "nothing to overwrite" : consent ? "consent" : decided ? "refused" : "no answer");
    c.nontrivial(ask);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C24.dialogue",
          "both generators in a scratch directory holding any of their files, with any sequence of answers and end of input; all files are compared "
          "before and after, and what is written with the described geometry; non-trivial: a file would be overwritten",
          3000, 60000, dialogue}}
    );
}
