// C31: the console log tells the true progress of the run
#include "e2e.hpp"

#include <chrono>

using namespace pbt;
using namespace e2e;
using ref::R;

namespace {

/// the number after `key` in a line, up to the unit
bool field(const std::string& l, const std::string& key, std::string& v) {
    size_t a = 0;
    while ((a = l.find(key, a)) != std::string::npos && a > 0 && l[a - 1] != ' ')
        a++;
    if (a == std::string::npos)
        return false;
    a += key.size();
    size_t e = l.find_first_not_of("0123456789+-.einfa", a);
    v        = l.substr(a, e == std::string::npos ? e : e - a);
    return !v.empty();
}
double dbl(const std::string& s) {
    return std::strtod(s.c_str(), nullptr);
}
long hms(const std::string& l, const std::string& key) { // seconds, or -1
    size_t a = l.find(key);
    if (a == std::string::npos)
        return -1;
    long h, m, s;
    return sscanf(l.c_str() + a + key.size(), "%ldh %ldm %lds", &h, &m, &s) == 3 && m < 60 && s < 60 ? h * 3600 + m * 60 + s : -1;
}

void console(Src& g, Case& c) {
    Config f;
    auto& p    = f.p;
    p.dim      = g.chance(0.3) ? 3 : 2;
    p.l0       = g.pick({0.1, 0.025, 1.0});
    p.nu       = 0;
    p.implicit = g.chance(0.3);
    f.dt       = g.chance(0.4) ? g.pick({0.001, 0.01, 0.0025, 0.1, 0.00025, 0.125}) : g.logu(1e-5, 2);
    double start = g.chance(0.5) ? g.pick({0.0, 1.0, 0.3, -0.5}) : g.sym(100);
    bool fast    = p.dim == 2 && g.chance(0.1); // Courant numbers of many digits
    int n        = fast ? (int) g.range(1, 12) : (int) (g.chance(0.1) ? g.range(41, 1100) : g.chance(0.003) ? g.range(32760, 40000) : g.range(0, 40));
    if (n > 2000)
        p.dim = 2;
    f.end        = start + (n - 0.5) * f.dt;
    f.period     = f.dt * g.pick({0.5, 1.4142136, 2.7182818, 3.1415927, 0.6180340, 7.3890561, 1000.5});
    if (n > 40 && (n > 2000 || !g.chance(0.3)))
        f.period = f.dt * (n / 5.0 + 0.5123457);
    double l0 = (double) p.l0, cu = g.pick({0.3, 1.0, 20.0, 0.05});
    if (p.dim == 3)
        cu = std::min(cu, 1.0);
    if (n > 40)
        cu = n > 2000 ? 0.0005 : 0.05;
    if (fast)
        cu = g.pick({60.0, 150.0, 1000.0, 3000.0});
    p.cfl     = g.pick({0.3, 1.0, 1e9, 0.0});
    double gr = g.pick({0.0, 1.0, 0.3}) * cu * l0 / f.dt / f.dt / std::max(n, 1);
    f.g3[0]   = g.sym(gr);
    f.g3[1]   = g.sym(gr);
    // particles in free flight, far from each other; one wall particle whose velocity does not count
    int m                 = (int) g.range(1, fast ? 2 : 5);
    bool wall             = g.chance(0.3);
    f.rN = f.rG = f.rL    = p.dim == 3 ? 8 : fast || n > 2000 ? 300 : 30; // coarse search grid
    f.rC                  = 0.5;
    p.reN = p.reG = p.reL = f.rN * l0;
    double reach = (2 * cu + (n > 2000 ? 0.0005 : 0.02)) * (n + 2) * l0, gap = 2.5 * reach + (f.rN + 1) * l0;
    Snap in;
    in.time = start;
    for (int i = 0; i < m; i++) {
        Row r;
        r.type = ref::Fluid;
        r.x[0] = gap * i;
        double v = cu * l0 / f.dt;
        for (int d = 0; d < p.dim; d++)
            r.v[d] = g.sym(v);
        r.rho = 1000;
        in.rows.push_back(r);
    }
    if (wall) {
        Row r;
        r.type = g.pick({(int) ref::Wall, (int) ref::Dummy, (int) ref::Ghost});
        r.x[0] = gap * m;
        r.v[0] = 1e3 * l0 / f.dt;
        r.rho  = 1000;
        in.rows.push_back(r);
        if (g.chance(0.5))
            std::rotate(in.rows.begin(), in.rows.end() - 1, in.rows.end());
    }
    p.lo = {-gap, -1.1 * reach - l0, p.dim == 3 ? -1.1 * reach - l0 : 0};
    p.hi = {gap * (m + 1), 1.1 * reach + l0, p.dim == 3 ? 1.1 * reach + l0 : 0};
    std::string dir = freshDir("c31");
    fs::create_directories(dir + "/out");
    f.particlesPath = "p.csv";
    writeFile(dir + "/p.csv", csvText(in));
    writeFile(dir + "/s.yml", yaml(f));
    c.note([&](std::ostream& o) { o << n << " steps\n" << yaml(f) << csvText(in); });
    RunOpt o;
    auto t0  = std::chrono::steady_clock::now();
    auto res = run({mpsPath(), "-s", dir + "/s.yml", "-o", dir + "/out"}, o);
    double wall_s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (res.timeout)
        c.discard();
    REQUIRE(res.status == 0, "mps ended with " << res.status << "\n" << res.err.substr(0, 400));
    auto lines = files::splitLines(res.out);
    // expected values
    std::vector<std::vector<R>> v;
    for (auto& r : in.rows)
        if (r.type == ref::Fluid)
            v.push_back({r.v[0], r.v[1], r.v[2]});
    int step = 0, ended = 0, begun = 0;
    long outputs = 1, last = 0;
    R time = start;
    auto check = [&](const std::string& key, const std::string& got, R want, R tol, const std::string& l) {
        REQUIRE(std::fabs(dbl(got) - (double) want) <= (double) tol, "step " << step << ": " << key << got << " is reported, it is " << (double) want << "\n" << l);
    };
    for (auto& l : lines) {
        if (l.find("START SIMULATION") != std::string::npos) {
            begun++;
            REQUIRE(step == 0, "the simulation is announced after a step");
        }
        if (l.find("END SIMULATION") != std::string::npos)
            ended++;
        if (l.empty() || !isdigit((unsigned char) l[0]) || l.find("Courant=") == std::string::npos)
            continue;
        REQUIRE(!ended, "a step is reported after the end: " << l);
        step++;
        time += f.dt;
        REQUIRE(std::atol(l.c_str()) == step, "the report of step " << step << " is\n" << l);
        R cour = 0;
        for (auto& w : v) {
            for (int d = 0; d < 3; d++)
                w[d] += (R) f.g3[d] * f.dt;
            cour = std::max(cour, std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) * f.dt / p.l0);
        }
        std::string s;
        R rt = 1e-13L * (std::fabs((R) start) + std::fabs((R) f.end)) * 10;
        REQUIRE(field(l, "dt=", s), "no dt: " << l);
        check("dt=", s, f.dt, 6e-6L * f.dt, l);
        REQUIRE(field(l, "t=", s), "no time: " << l);
        check("t=", s, time, 0.0005001L + rt, l);
        REQUIRE(field(l, "fin=", s), "no end time: " << l);
        check("fin=", s, f.end, 0.05001L + rt, l);
        REQUIRE(field(l, "Courant=", s), "no Courant number: " << l);
        check("Courant=", s, cour, 0.005001L + 1e-9L * cour, l);
        REQUIRE(field(l, "out=", s), "no number of outputs: " << l);
        REQUIRE(std::atol(s.c_str()) == outputs, "step " << step << ": out=" << s << " is reported, " << outputs << " are written\n" << l);
        long e = hms(l, "elapsed=");
        REQUIRE(e >= last && e <= wall_s + 1, "step " << step << ": wrong elapsed time (the run took " << wall_s << " s)\n" << l);
        last = e;
        if ((R) step * f.dt >= (R) f.period * outputs)
            outputs++;
    }
    REQUIRE(begun == 1 && ended == 1, "START SIMULATION is announced " << begun << " times, END SIMULATION " << ended << " times");
    REQUIRE(step == std::max(n, 0), step << " steps are reported, the run has " << n);
    long total = hms(res.out, "Total Simulation time = ");
    REQUIRE(total >= last && total <= wall_s + 1, "wrong total time: " << total << " s, the run took " << wall_s << " s");
    long have = 0;
    while (fs::exists(dir + "/out/" + outName((size_t) have, "vtu")))
        have++;
    REQUIRE(have == outputs, have << " outputs exist, " << outputs << " are due by the reports");
    // standard error: one line for each step
    int k = 0;
    for (auto& l : files::splitLines(res.err)) {
        long s;
        double t;
        if (l.find("ERROR") != std::string::npos || l.find("WARNING") != std::string::npos || sscanf(l.c_str(), " %ld: t=%lf", &s, &t) != 2)
            continue;
        k++;
        REQUIRE(s == k && std::fabs(t - (start + k * f.dt)) <= 0.0005001 + 1e-9, "standard error reports step " << k << " as '" << l << "'");
    }
    REQUIRE(k == step, k << " steps are reported on standard error, " << step << " on standard output");
    c.label(n == 0 ? "no step" : n > 2000 ? "> 32760 steps" : n > 40 ? "> 40 steps" : "1-40 steps");
    if (wall)
        c.label("wall");
    if (outputs > 100)
        c.label("> 100 outputs");
    if (fast)
        c.label("Courant number of 60 and more");
    c.nontrivial(n >= 2);
}

/// a run that fails must not announce its end
void failing(Src& g, Case& c) {
    Config f;
    auto& p  = f.p;
    p.dim    = 2;
    p.l0     = 0.1;
    f.dt     = 0.001;
    f.end    = 0.0105;
    f.period = 0.0005;
    p.lo     = {-1, -1, 0};
    p.hi     = {1, 1, 0};
    p.reN = p.reG = p.reL = 0.31;
    p.cfl           = 1e9;
    f.particlesPath = "p.prof";
    int k           = (int) g.raw(3), at = (int) g.range(0, 9);
    std::string dir = freshDir("c31f"), prof = "0\n1\n1 0 0 0 1 0 0\n";
    fs::create_directories(dir + "/out");
    if (k == 0) // results cannot be written
        fs::create_directories(dir + "/out/" + outName((size_t) at, g.pick({"prof", "vtu", "csv"})));
    else if (k == 1)
        prof = g.pick<std::string>({"0\n2\n1 0 0 0 1 0 0\n", "0\n1\n1 0 0 x 1 0 0\n", ""});
    std::string y = yaml(f);
    if (k == 2)
        y += g.pick<std::string>({"dim: [1\n", "}: {\n", "a: b: c\n"});
    writeFile(dir + "/p.prof", prof);
    writeFile(dir + "/s.yml", y);
    c.note([&](std::ostream& o) { o << (k == 0 ? "output " + std::to_string(at) + " is a directory" : k == 1 ? "broken particle file" : "broken settings file"); });
    auto res = run({mpsPath(), "-s", dir + "/s.yml", "-o", dir + "/out"});
    if (res.timeout)
        c.discard();
    REQUIRE(res.status != 0, "the run ends with success");
    REQUIRE(res.out.find("END SIMULATION") == std::string::npos, "the run fails but announces its end");
    REQUIRE(!res.err.empty(), "no message on standard error");
    c.label(k == 0 ? "output" : k == 1 ? "particles" : "settings");
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C31.console",
          "runs of mps with up to 5 particles in free flight and 0-1100 steps; every line of the log against the closed-form trajectory and the output schedule; "
          "non-trivial: at least 2 steps",
          2500, 50000, console},
         {"C31.failing", "runs that fail at an output, the particle file or the settings file; non-trivial: all", 150, 2000, failing}}
    );
}
