// C26: results do not depend on the number of threads
#include "c26.hpp"
#include "e2e.hpp"
#include "scene.hpp"

using namespace pbt;
using scene::Scene;

void stubConfig(int threads, uint64_t seed);

namespace {

struct Out {
    std::string text; ///< states
    bool failed = false;
};

Out inProcess(const Input& in, int n, int threads, uint64_t seed) {
    Out o;
    CaptureStderr cap;
    stubConfig(threads, seed);
    auto r   = guarded([&] { o.text = c26::steps(in, n); });
    o.failed = !r.ok();
    stubConfig(1, 0);
    return o;
}

std::string firstDifference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string s, t;
    int line = 0;
    for (;;) {
        bool p = (bool) std::getline(x, s), q = (bool) std::getline(y, t);
        if (!p && !q)
            return "none";
        line++;
        if (p != q || s != t)
            return "line " + std::to_string(line) + "\n  " + (p ? s.substr(0, 400) : "(end)") + "\n  " + (q ? t.substr(0, 400) : "(end)");
    }
}

Scene genScene(Src& g, int& n, int maxN) {
    scene::Opt o;
    o.maxN    = maxN;
    o.outside = g.chance(0.3);
    o.overlap = g.chance(0.4);
    auto sc   = scene::gen(g, o);
    n         = (int) g.range(1, 3);
    return sc;
}

void orders(Src& g, Case& c) {
    int n;
    Scene sc = genScene(g, n, 60);
    Input in = scene::toInput(sc);
    c.note([&](std::ostream& o) {
        o << n << " steps, ";
        scene::describe(o, sc);
    });
    Out want = inProcess(in, n, 1, 0);
    int reps = (int) g.range(1, 3);
    for (int k = 0; k < reps; k++) {
        int threads   = g.pick({2, 3, 4, 7, 8, 16, 64});
        uint64_t seed = g.raw(1000);
        Out got       = inProcess(in, n, threads, seed);
        REQUIRE(want.failed == got.failed, "with 1 thread the steps " << (want.failed ? "fail" : "succeed") << ", with " << threads << " threads in order " << seed << " they do not");
        REQUIRE(want.text == got.text, threads << " threads in order " << seed << " differ from 1 thread: " << firstDifference(want.text, got.text));
    }
    c.label(want.failed ? "solver fails" : sc.p.implicit ? "Implicit" : "Explicit");
    c.nontrivial(sc.s.size() > 4);
}

void compare(Case& c, const RunResult& a, const RunResult& b, const char* what) {
    REQUIRE(a.status == b.status, what << " ends with " << b.status << ", the serial build with " << a.status << " " << b.err.substr(0, 300));
    REQUIRE(a.out == b.out, what << " differs from the serial build: " << firstDifference(a.out, b.out));
}

void serial(Src& g, Case& c) {
    int n;
    bool large = g.chance(0.05);
    Scene sc   = genScene(g, n, large ? 250 : 60);
    Input in   = scene::toInput(sc);
    c.note([&](std::ostream& o) {
        o << n << " steps, ";
        scene::describe(o, sc);
    });
    std::string path = scratch() + "/case.txt";
    writeFile(path, c26::save(in, n));
    auto a = run({getenv("PBT_SERIAL"), path});
    if (a.timeout || a.status == 126 || a.status == 127)
        c.discard();
    int threads   = g.pick({4, 1, 2, 8, 32});
    uint64_t seed = g.raw(1000);
    Out b         = inProcess(in, n, threads, seed);
    REQUIRE((a.status != 0) == b.failed, "the serial build ends with " << a.status << ", the OpenMP build " << (b.failed ? "fails" : "succeeds"));
    if (!b.failed)
        REQUIRE(a.out == b.text, threads << " threads in order " << seed << " differ from the serial build: " << firstDifference(a.out, b.text));
    c.label(b.failed ? "solver fails" : "compared");
    c.nontrivial(sc.s.size() > 4);
}

void races(Src& g, Case& c) {
    int n;
    bool large = g.chance(0.1);
    Scene sc   = genScene(g, n, large ? 300 : 60);
    Input in   = scene::toInput(sc);
    c.note([&](std::ostream& o) {
        o << n << " steps, ";
        scene::describe(o, sc);
    });
    int threads      = g.pick({4, 2, 3, 8});
    std::string path = scratch() + "/case.txt";
    writeFile(path, c26::save(in, n));
    RunOpt ro;
    ro.cpuSec = 120;
    auto a    = run({getenv("PBT_SERIAL"), path}, ro);
    ro.env    = {"TSAN_OPTIONS=exitcode=66:halt_on_error=1:report_signal_unsafe=0:abort_on_error=0:die_after_fork=0"};
    auto b    = run({getenv("PBT_TSAN"), path, std::to_string(threads)}, ro);
    if (a.timeout || b.timeout || b.status == 71 || b.status == 126 || b.status == 127 || b.err.find("FATAL: ThreadSanitizer") != std::string::npos)
        c.discard();
    if (b.status == 66 || b.err.find("WARNING: ThreadSanitizer") != std::string::npos) {
        size_t p = b.err.find("WARNING: ThreadSanitizer");
        c.fail("with " + std::to_string(threads) + " threads: " + b.err.substr(p == std::string::npos ? 0 : p, 2500));
    }
    compare(c, a, b, ("the build with " + std::to_string(threads) + " threads").c_str());
    c.label(a.status ? "solver fails" : "compared");
    c.label(std::to_string(threads) + " threads");
    c.nontrivial(sc.s.size() > 4);
}

} // namespace

int main(int argc, char** argv) {
    const char* what = "scenes of all layouts (outside particles and overlaps included), 1-3 steps; non-trivial: more than 4 particles";
    return engineMain(
        argc,
        argv,
        {{"C26.orders", std::string("the OpenMP build under a runtime that runs the threads in a chosen order, 2-64 threads, bitwise against 1 thread; ") + what, 15000, 400000, orders},
         {"C26.serial", std::string("the same, bitwise against the build without OpenMP; ") + what, 3000, 60000, serial},
         {"C26.races", std::string("the OpenMP build under ThreadSanitizer with 2-8 threads, which nothing but the regions' start and end orders, and bitwise against "
                                   "the build without OpenMP; ") + what,
          1200, 30000, races, 120}}
    );
}
