// C27: runs are deterministic and a state alone determines its future
#include "c26.hpp"
#include "e2e.hpp"
#include "scene.hpp"

using namespace pbt;
using namespace e2e;
using scene::dbl;
using scene::Opt;
using scene::P;
using scene::R;
using scene::Scene;

namespace {

Scene genScene(Src& g, int maxN) {
    Opt o;
    o.maxN    = maxN;
    o.outside = g.chance(0.3);
    o.overlap = g.chance(0.4);
    o.cfl     = g.pick({0.3, 0.1, 0.8});
    auto sc   = scene::gen(g, o, {6, 3, 1});
    if (g.chance(0.5)) { // compressed: pressures act
        double k = g.pick({0.95, 0.9, 0.98});
        for (auto& q : sc.s)
            q.x = {dbl(q.x.x * k), dbl(q.x.y * k), dbl(q.x.z * k)};
    }
    if (g.chance(0.25)) { // hardly any motion
        double k = g.logu(1e-8, 0.1);
        for (auto& q : sc.s)
            q.v = {dbl(q.v.x * k), dbl(q.v.y * k), dbl(q.v.z * k)};
        sc.p.g = {dbl(sc.p.g.x * k), dbl(sc.p.g.y * k), dbl(sc.p.g.z * k)};
        if (g.chance(0.7))
            sc.p.implicit = false; // pressure only where compressed
        if (g.chance(0.5))
            sc.p.c = 0;
    }
    return sc;
}

std::string difference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string s, t;
    for (int i = 0;; i++) {
        bool p = (bool) std::getline(x, s), q = (bool) std::getline(y, t);
        if (!p && !q)
            return "none";
        if (p != q || s != t) {
            auto show = [](const std::string& l) {
                std::istringstream w(l);
                std::string o, k;
                for (int j = 0; w >> k && j < 15; j++)
                    o += " " + (k.size() == 16 ? num(c26::unhex(k)) : k);
                return o;
            };
            return "particle " + std::to_string(i) + " (id type x v a pressure n pmin bc | neighbours)\n  " + show(s) + "\n  " + show(t);
        }
    }
}

Input resumeFrom(const Input& in, const Particles& state) {
    Input r     = in;
    r.particles = Particles();
    for (const auto& q : state)
        r.particles.add(Particle(q.id, q.type, q.position, q.velocity, q.density, q.fluidType));
    return r;
}

/// steps until one fails; states[0] is the initial one
void resume(Src& g, Case& c) {
    Scene sc = genScene(g, 60);
    Input in = scene::toInput(sc);
    int n    = (int) g.range(2, 5);
    bool interleave = g.chance(0.4);
    Scene other;
    if (interleave)
        other = genScene(g, 25);
    c.note([&](std::ostream& o) {
        o << n << " steps, ";
        scene::describe(o, sc);
        if (interleave) {
            o << "another simulation steps in between: ";
            scene::describe(o, other);
        }
    });
    CaptureStderr cap;
    std::vector<Particles> parts;
    std::vector<std::string> states;
    auto r = guarded([&] {
        MPS m = MPSFactory::create(in);
        parts.push_back(m.particles);
        states.push_back("");
        for (int k = 0; k < n; k++) {
            m.stepForward();
            parts.push_back(m.particles);
            states.push_back(c26::state(m));
        }
    });
    int done = (int) parts.size() - 1; // the solver may have given up in the step after
    if (done < 1)
        c.discard();
    std::unique_ptr<MPS> second;
    bool secondAlive = interleave;
    auto disturb     = [&] {
        if (!secondAlive)
            return;
        auto q = guarded([&] {
            if (!second)
                second.reset(new MPS(MPSFactory::create(scene::toInput(other))));
            second->stepForward();
        });
        secondAlive = q.ok();
    };
    for (int from = 0; from < done; from++) {
        std::vector<std::string> got;
        auto q = guarded([&] {
            disturb();
            MPS m = MPSFactory::create(resumeFrom(in, parts[from]));
            for (int k = from; k < n; k++) {
                disturb();
                m.stepForward();
                got.push_back(c26::state(m));
            }
        });
        REQUIRE((int) got.size() == done - from, "continued from step " << from << ", " << got.size() << " steps succeed; without interruption " << done - from);
        (void) q;
        for (size_t k = 0; k < got.size(); k++)
            REQUIRE(got[k] == states[from + 1 + k], "continued from step " << from << ", step " << from + 1 + k << " differs from the uninterrupted run: " << difference(states[from + 1 + k], got[k]));
    }
    c.label(sc.p.implicit ? "Implicit" : "Explicit");
    if (interleave)
        c.label("interleaved");
    bool ghost = false, moved = false;
    for (int i = 0; i < parts.back().size(); i++) {
        ghost = ghost || parts.back()[i].type != parts[0][i].type;
        moved = moved || parts.back()[i].position != parts[0][i].position;
    }
    if (ghost)
        c.label("particles leave");
    if (!r.ok())
        c.label("solver fails later");
    c.nontrivial(moved && done >= 2);
}

/// a process that has simulated other cases before gives the states of a process that has not
void alone(Src& g, Case& c) {
    Scene sc = genScene(g, 60), other = genScene(g, 25);
    Input in = scene::toInput(sc);
    int n    = (int) g.range(1, 4);
    c.note([&](std::ostream& o) {
        o << n << " steps, ";
        scene::describe(o, sc);
        o << "after another simulation: ";
        scene::describe(o, other);
    });
    std::string path = scratch() + "/case.txt";
    writeFile(path, c26::save(in, n));
    auto a = run({getenv("PBT_RUNNER"), path});
    if (a.timeout || a.status == 126 || a.status == 127)
        c.discard();
    std::string got;
    CaptureStderr cap;
    guarded([&] {
        MPS m = MPSFactory::create(scene::toInput(other));
        m.stepForward();
    });
    auto r = guarded([&] { got = c26::steps(in, n); });
    REQUIRE((a.status != 0) == !r.ok(), "alone, the simulation ends with " << a.status << " " << a.err.substr(0, 600) << "; after another simulation in the same process it " << (r.ok() ? "succeeds" : "fails"));
    if (!r.ok())
        c.discard();
    REQUIRE(a.out == got, "the states after another simulation in the same process differ from those of a process of its own: " << difference(a.out, got));
    c.label(sc.p.implicit ? "Implicit" : "Explicit");
    c.nontrivial(sc.s.size() > 4);
}

Config config(Src& g, Scene& sc) {
    Config f;
    auto& p = sc.p;
    f.rN    = dbl(p.reN / p.l0);
    f.rG    = dbl(p.reG / p.l0);
    f.rL    = dbl(p.reL / p.l0);
    f.rC    = dbl(p.colDist / p.l0);
    f.g3[0] = dbl(p.g.x);
    f.g3[1] = dbl(p.g.y);
    f.g3[2] = dbl(p.g.z);
    f.dt    = dbl(p.dt);
    f.p     = p;
    f.defaultDensity = sc.defaultDensity;
    (void) g;
    return f;
}
Snap toSnap(const Scene& sc, double time) {
    Snap in;
    in.time = time;
    for (auto& q : sc.s) {
        Row r;
        r.type = q.type;
        r.x[0] = dbl(q.x.x);
        r.x[1] = dbl(q.x.y);
        r.x[2] = dbl(q.x.z);
        r.v[0] = dbl(q.v.x);
        r.v[1] = dbl(q.v.y);
        r.v[2] = dbl(q.v.z);
        r.fluidType = q.fluidType;
        r.rho       = dbl(q.rho);
        in.rows.push_back(r);
    }
    return in;
}
std::map<std::string, std::string> results(const std::string& out) {
    std::map<std::string, std::string> m;
    for (auto& e : tree(out))
        if (e.first.compare(0, 4, "vtu/") == 0 || e.first.compare(0, 5, "prof/") == 0 || e.first.compare(0, 4, "csv/") == 0)
            m[e.first] = e.second;
    return m;
}

void twice(Src& g, Case& c) {
    Scene sc = genScene(g, 50);
    Config f = config(g, sc);
    int n    = (int) g.range(1, 6);
    Snap in  = toSnap(sc, g.pick({0.0, 1.0, 0.5}));
    f.end    = in.time + (n - 0.5) * f.dt;
    f.period = g.pick({0.5, 1.0, 2.0}) * f.dt;
    f.binary = g.chance(0.5);
    std::string dir = freshDir("c27");
    f.particlesPath = "in.csv";
    writeFile(dir + "/in.csv", csvText(in));
    writeFile(dir + "/s.yml", yaml(f));
    c.note([&](std::ostream& o) {
        o << yaml(f);
        scene::describe(o, sc);
    });
    // different heap contents, working directories, environments
    RunOpt a, b;
    a.cwd = dir;
    b.cwd = "/";
    b.env = {"MALLOC_PERTURB_=" + std::to_string(g.range(1, 255)), "OMP_NUM_THREADS=3", "LC_ALL=C"};
    std::string o1 = dir + "/one", o2 = dir + "/another directory";
    fs::create_directories(o1);
    fs::create_directories(o2);
    auto r1 = run({mpsPath(), "-s", dir + "/s.yml", "-o", o1}, a);
    auto r2 = run({mpsPath(), "-s", dir + "/s.yml", "-o", o2}, b);
    if (r1.timeout || r2.timeout || r1.status == 127 || r2.status == 127)
        c.discard();
    REQUIRE(r1.status == r2.status, "the first run ended with " << r1.status << ", the second with " << r2.status << ": " << r2.err.substr(0, 200));
    auto t1 = results(o1), t2 = results(o2);
    for (auto& e : t1) {
        REQUIRE(t2.count(e.first), "the second run did not write " << e.first);
        if (t2[e.first] != e.second) {
            size_t k = 0;
            while (k < e.second.size() && k < t2[e.first].size() && e.second[k] == t2[e.first][k])
                k++;
            c.fail(e.first + " differs between two runs on the same input, at byte " + std::to_string(k));
        }
    }
    REQUIRE(t1.size() == t2.size(), "the runs wrote " << t1.size() << " and " << t2.size() << " files");
    c.label(r1.status ? "run fails" : f.binary ? "binary" : "ASCII");
    c.nontrivial(sc.s.size() > 2 && t1.size() > 3);
}

/// stop at a recorded state, continue from a file that holds it
void restart(Src& g, Case& c) {
    Scene sc = genScene(g, 40);
    Config f = config(g, sc);
    int n    = (int) g.range(2, 6);
    Snap in  = toSnap(sc, 0);
    f.end    = (n - 0.5) * f.dt;
    f.period = 0.5 * f.dt;
    std::string dir = freshDir("c27r");
    f.particlesPath = "in.csv";
    writeFile(dir + "/in.csv", csvText(in));
    writeFile(dir + "/s.yml", yaml(f));
    c.note([&](std::ostream& o) {
        o << yaml(f) << n << " steps\n";
        scene::describe(o, sc);
    });
    fs::create_directories(dir + "/out");
    auto r1 = run({mpsPath(), "-s", dir + "/s.yml", "-o", dir + "/out"});
    if (r1.timeout || r1.status == 127)
        c.discard();
    if (r1.status != 0)
        c.discard();
    auto load = [&](const std::string& d, size_t k) {
        try {
            return files::parseVtu(readFile(d + "/" + outName(k, "vtu"))).snap;
        } catch (const files::Bad& e) {
            c.fail("record " + std::to_string(k) + ": " + e.what());
        }
    };
    size_t count = 0;
    while (fs::exists(dir + "/out/" + outName(count, "vtu")))
        count++;
    if (count < 3)
        c.discard(); // C15's business
    size_t k  = 1 + g.raw(count - 2);
    Snap mid  = load(dir + "/out", k);
    for (size_t i = 0; i < mid.rows.size() && i < in.rows.size(); i++) {
        mid.rows[i].rho = in.rows[i].rho; // not part of the record
        for (int d = 0; d < 3; d++)
            if (!std::isfinite(mid.rows[i].x[d]) || !std::isfinite(mid.rows[i].v[d]))
                c.discard();
    }
    bool shift = g.chance(0.3); // the clock has no influence on the motion
    if (shift)
        mid.time = g.pick({0.0, 3.0, 7.5});
    f.end = mid.time + ((double) (count - 1 - k) - 0.5) * f.dt;
    f.particlesPath = g.chance(0.5) ? "mid.csv" : "mid2.csv";
    writeFile(dir + "/" + f.particlesPath, csvText(mid));
    writeFile(dir + "/s2.yml", yaml(f));
    fs::create_directories(dir + "/out2");
    auto r2 = run({mpsPath(), "-s", dir + "/s2.yml", "-o", dir + "/out2"});
    if (r2.timeout || r2.status == 127)
        c.discard();
    REQUIRE(r2.status == 0, "the run from record " << k << " ended with " << r2.status << ": " << r2.err.substr(0, 300));
    bool moved = false;
    for (size_t j = 1; k + j < count; j++) {
        REQUIRE(fs::exists(dir + "/out2/" + outName(j, "vtu")), "the run from record " << k << " has no record " << j);
        Snap a = load(dir + "/out", k + j), b = load(dir + "/out2", j);
        REQUIRE(a.rows.size() == b.rows.size(), "records " << k + j << " and " << j << " hold " << a.rows.size() << " and " << b.rows.size() << " particles");
        for (size_t i = 0; i < a.rows.size(); i++) {
            auto &x = a.rows[i], &y = b.rows[i];
            bool same = x.type == y.type && x.fluidType == y.fluidType && x.bc == y.bc && files::sameBits(x.p, y.p) && files::sameBits(x.n, y.n);
            for (int d = 0; d < 3; d++)
                same = same && files::sameBits(x.x[d], y.x[d]) && files::sameBits(x.v[d], y.v[d]);
            REQUIRE(same, "record " << k + j << ", particle " << i << ": " << x << "; continued from record " << k << ": " << y);
            moved = moved || (i < in.rows.size() && x.x[0] != in.rows[i].x[0]);
        }
    }
    c.label(shift ? "other start time" : "same clock");
    c.nontrivial(moved);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C27.resume",
          "2-5 steps in process; from every intermediate state a newly constructed simulation (sometimes with another one stepping in between) is compared "
          "bitwise with the uninterrupted one; non-trivial: at least 2 steps and a particle moved",
          4000, 120000, resume},
         {"C27.alone", "a case simulated after another one in the same process, compared bitwise with a process of its own; non-trivial: more than 4 particles", 1500, 40000, alone},
         {"C27.twice", "mps run twice on one input with different heap contents, working and output directories; result files compared byte by byte; "
                       "non-trivial: more than 2 particles",
          1200, 30000, twice},
         {"C27.restart", "mps continued from a recorded state through a particle file, records compared bitwise; non-trivial: a particle moved", 1200, 30000, restart}}
    );
}
