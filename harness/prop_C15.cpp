// C15: time loop and output schedule follow start, end, dt and output period
#include "e2e.hpp"

using namespace pbt;
using namespace e2e;
using ref::R;

namespace {

/// exact: all times are multiples of a power of two, so that they are computed without rounding and ties are decided
void schedule(Src& g, Case& c, bool many, bool exact, bool lng = false) {
    Config f;
    auto& p = f.p;
    p.dim   = 2;
    p.l0    = 0.1;
    p.nu    = 0;
    p.implicit = g.chance(0.5);
    f.dt       = many ? 0.001 : g.pick({0.001, 0.1, 0.01, 0.25, 0.0});
    if (f.dt == 0)
        f.dt = g.logu(1e-4, 2);
    double start = g.pick({0.0, 0.0, 1.0, 0.3, -0.5});
    if (g.chance(0.2))
        start = g.sym(100);
    bool late = !many && !exact && g.chance(0.15); // as late as the time step can still be told from rounding
    if (late)
        start = g.pick({1.0, -1.0}) * std::min(g.logu(1e3, 1e10), 1e10 * f.dt);
    int n = lng ? g.pick({17000, 33000, 66000, 132000}) + (int) g.raw(1000) : many ? 10003 + (int) g.raw(3) : (int) g.range(0, 40);
    switch (many ? 0 : g.weighted({5, 4, 1, 1})) {
    case 0: f.end = start + n * f.dt; break;                    // ties up to rounding
    case 1: f.end = start + (n + g.real(0.05, 0.95)) * f.dt; break;
    case 2: f.end = start - g.real(0, 3) * f.dt; break;          // over already
    default: f.end = std::round((start + n * f.dt) * 1000) / 1000;
    }
    switch (many ? 2 : g.weighted({4, 4, 2, 1, 1})) {
    case 0: f.period = f.dt * (double) g.range(1, 8); break;
    case 1: f.period = f.dt * g.real(0.3, 9); break;
    case 2: f.period = f.dt * g.pick({1.0, 0.5, 0.1}); break;
    case 3: f.period = f.dt * 1000; break;
    default: f.period = std::max(1e-9, (f.end - start) / (double) g.range(1, 7)); break;
    }
    if (many)
        f.period = f.dt * 0.5;
    bool tie = false;
    if (exact) {
        f.dt        = std::ldexp((double) g.range(1, 9), -(int) g.range(2, 10));
        start       = f.dt * (double) g.pick({0, 0, 1, 7, -5, 1000}) + g.pick({0.0, 0.0, 0.5, 64.0});
        double part = g.pick({0.0, 0.0, 0.5, -0.125, 1.0 / 1024});
        f.end       = start + f.dt * (n + part);
        f.period    = f.dt * (g.chance(0.5) ? (double) g.range(1, 8) : (double) g.range(1, 40) / g.pick({2, 4, 8}));
        tie         = part == 0;
        if (lng)
            f.period = f.dt * (g.chance(0.5) ? std::ldexp(1.0, (int) g.range(10, 15)) : g.pick({1000.0, 5000.0, 10000.0, 2500.5, n - 1.0, n + 0.0, n / 2.0}));
        f.binary    = true;
    }
    f.binary = late || g.chance(0.7); // the labels of an ASCII output would be too coarse
    // one particle in free flight: its position tells the step
    double vx = g.pick({1.0, -0.5, 3.0}), gx = many || lng ? 0.0 : g.pick({0.0, 0.01, -2.0});
    if (lng)
        vx = std::ldexp(vx, -(int) std::ceil(std::log2(n * f.dt))); // a small grid
    f.g3[0] = gx;
    p.reN = p.reG = p.reL = 0.31;
    double T = (n + 3) * f.dt, span = std::fabs(vx) * T + std::fabs(gx) * T * T + 1;
    p.lo = {-span, -1, 0};
    p.hi = {span, 1, 0};
    if (2 * span / 0.31 * 8 > 2e5) { // keep the grid small
        f.rN = f.rG = f.rL = 3.1 * (double) std::ceil(2 * span / 0.31 * 8 / 2e5);
    }
    p.cfl = 1e9;
    Snap in;
    in.time = start;
    Row r;
    r.type = ref::Fluid;
    r.x[0] = 0;
    r.v[0] = vx;
    r.rho  = 1000;
    in.rows.push_back(r);
    std::string dir = freshDir("c15");
    fs::create_directories(dir + "/out");
    int kind = (int) g.raw(3);
    f.particlesPath = kind == 0 ? "p.prof" : kind == 1 ? "p.csv" : "p.vtu";
    writeFile(dir + "/" + f.particlesPath, kind == 0 ? profText(in) : kind == 1 ? csvText(in) : vtuText(in, false));
    writeFile(dir + "/s.yml", yaml(f));
    c.note([&](std::ostream& o) { o << "start=" << start << "\n" << yaml(f); });
    RunOpt o;
    o.cpuSec   = many || lng ? 60 : 15;
    auto res   = run({mpsPath(), "-s", dir + "/s.yml", "-o", dir + "/out"}, o);
    REQUIRE(!res.timeout && res.status == 0, "mps ended with " << res.status << (res.timeout ? " (time limit)" : "") << "\n" << res.err.substr(0, 400));
    // the outputs
    size_t count = 0;
    while (fs::exists(dir + "/out/" + outName(count, "vtu")))
        count++;
    REQUIRE(count >= 1, "no output 0000");
    for (const char* d : {"prof", "vtu", "csv"}) {
        size_t have = 0;
        for (auto& e : fs::directory_iterator(dir + "/out/" + d)) {
            (void) e;
            have++;
        }
        REQUIRE(have == count, d << " holds " << have << " files, vtu has outputs 0.." << count - 1);
        for (size_t k = 0; k < count; k++)
            REQUIRE(fs::exists(dir + "/out/" + outName(k, d)), "no " << outName(k, d));
    }
    double tol = 4.0 * (n + 10) * 2.3e-16 * (std::fabs(start) + std::fabs(f.end) + f.period) + 1e-12 * f.dt;
    double eps = 1e-9;
    if (exact)
        tol = eps = 0;
    R x = 0, v = vx;
    long step = 0;
    long prev = -1;
    for (size_t k = 0; k < count; k++) {
        if (many && k > 20 && k + 20 < count && k % 97)
            continue;
        Snap a, b, d;
        bool bin = false;
        try {
            auto vt = files::parseVtu(readFile(dir + "/out/" + outName(k, "vtu")));
            a       = vt.snap;
            bin     = vt.binary;
            b       = files::parseProf(readFile(dir + "/out/" + outName(k, "prof")));
            d       = files::parseCsv(readFile(dir + "/out/" + outName(k, "csv")));
        } catch (const files::Bad& e) {
            c.fail("output " + std::to_string(k) + ": " + e.what());
        }
        REQUIRE(bin == f.binary, "output " << k << " is " << (bin ? "binary" : "ASCII"));
        REQUIRE(a.rows.size() == 1 && b.rows.size() == 1 && d.rows.size() == 1, "output " << k << ": " << a.rows.size() << "/" << b.rows.size() << "/" << d.rows.size() << " particles");
        auto agree = [&](double u, double w) { return files::printed(u, w) || files::printed(w, u); };
        for (auto* s : {&b, &d}) {
            REQUIRE(agree(a.time, s->time), "output " << k << ": vtu has time " << a.time << ", " << (s == &b ? "prof " : "csv ") << s->time);
            for (int i = 0; i < 3; i++)
                REQUIRE(agree(a.rows[0].x[i], s->rows[0].x[i]) && agree(a.rows[0].v[i], s->rows[0].v[i]), "output " << k << ": vtu and " << (s == &b ? "prof" : "csv") << " hold different states");
        }
        // which step: the one whose time is nearest to the label
        double lt = f.binary ? tol : tol + 6e-6 * std::fabs(a.time);
        long s0   = std::lround((a.time - start) / f.dt);
        if (!f.binary && lt > 0.4 * f.dt) { // the label is too coarse: take the state
            long best = step;
            R bx = x, bv = v, err = 1e300L, X = x, V = v;
            for (long t = step; t < n + 10; t++) {
                if (std::fabs(X - a.rows[0].x[0]) < err) {
                    err  = std::fabs(X - a.rows[0].x[0]);
                    best = t;
                }
                V += (R) gx * f.dt;
                X += V * f.dt;
            }
            (void) bx;
            (void) bv;
            s0 = best;
        }
        REQUIRE(s0 > prev, "output " << k << " has time " << a.time << ", not later than the one before");
        REQUIRE(std::fabs(a.time - (start + s0 * f.dt)) <= lt, "output " << k << " has time " << a.time << ", no multiple of dt after the start");
        while (step < s0) {
            v += (R) gx * f.dt;
            x += v * f.dt;
            step++;
        }
        double sx = f.binary ? (lng ? 1e-9 : 1e-11) : 1e-5, sc = std::fabs(vx) * (s0 + 1) * f.dt + std::fabs(gx) * T * T;
        REQUIRE(
            std::fabs(a.rows[0].x[0] - (double) x) <= sx * sc && std::fabs(a.rows[0].v[0] - (double) v) <= sx * (std::fabs(vx) + std::fabs(gx) * T),
            "output " << k << " is labelled as step " << s0 << " but holds x=" << a.rows[0].x[0] << ", v=" << a.rows[0].v[0] << "; at that step x=" << (double) x << ", v=" << (double) v
        );
        if (k == 0)
            REQUIRE(s0 == 0, "output 0000 is the state of step " << s0);
        else if (prev >= 0) {
            double due = f.period * (double) k;
            REQUIRE(s0 * f.dt >= due - tol, "output " << k << " at step " << s0 << " (elapsed " << s0 * f.dt << ") is before " << due);
            bool first = s0 - 1 <= prev || (s0 - 1) * f.dt < due + tol;
            REQUIRE(first || many, "output " << k << " at step " << s0 << " (elapsed " << s0 * f.dt << ") is late: due at " << due << ", previous output at step " << prev);
        }
        prev = s0;
    }
    // the end: number of steps N with t_N >= end and t_(N-1) < end
    double need = (f.end - start) / f.dt;
    long nLo = need <= 0 ? 0 : (long) std::ceil(need - tol / f.dt - eps), nHi = need + tol / f.dt < 0 ? 0 : (long) std::ceil(need + tol / f.dt + eps);
    if (nLo < 0)
        nLo = 0;
    REQUIRE(prev <= nHi, "last output is of step " << prev << ", the run ends after " << nHi);
    double due = f.period * (double) count;
    long next  = std::max(prev + 1, (long) std::ceil((due + tol) / f.dt - eps / 1000));
    REQUIRE(next > nLo || next * f.dt < due - tol, "output " << count << " is missing: due at step " << next << ", the run takes " << nLo << " steps");
    if (f.period <= f.dt * 0.999)
        REQUIRE(prev >= nLo, "the run ends after step " << prev << " instead of " << nLo);
    c.label(nHi == 0 ? "no step" : count > 2 ? "> 2 outputs" : "1-2 outputs");
    if (nLo != nHi || tie)
        c.label("end at a tie");
    c.nontrivial(count >= 2);
}

void runs(Src& g, Case& c) {
    schedule(g, c, false, false);
}
void manyOutputs(Src& g, Case& c) {
    schedule(g, c, true, false);
}
void longRuns(Src& g, Case& c) {
    schedule(g, c, false, true, true);
}
void exactTimes(Src& g, Case& c) {
    schedule(g, c, false, true);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C15.runs", "runs of mps with one particle in free flight: start, end and output period at, between and beyond multiples of dt, 0-40 steps; "
                      "non-trivial: at least 2 outputs",
          4000, 60000, runs},
         {"C15.exact", "the same with times that are computed without rounding: ends and outputs due exactly at a step; non-trivial: at least 2 outputs",
          3000, 40000, exactTimes},
         {"C15.long", "runs of 17000 to 133000 steps with outputs due at round numbers and powers of two of steps; non-trivial: at least 2 outputs", 24, 400, longRuns, 90},
         {"C15.many", "runs with more than 10000 outputs; non-trivial: all", 2, 16, manyOutputs, 60}}
    );
}
