// Small property-based-testing engine.
//
// A case is a sequence of recorded choices.  Random cases draw the choices from a PRNG that is a pure
// function of (seed, property name, case index); a replay or a shrink attempt supplies them.  Cases run in
// forked workers, so crashes, exits, sanitizer reports and CPU-time overruns belong to one case.
#pragma once

#include <cstdint>
#include <cstdio>
#include <csignal>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct DiscardCase {};
struct FailCase {
    std::string msg;
};

/// Source of choices.
class Src {
public:
    explicit Src(uint64_t seed) : replay_(false), s_(seed) {}
    explicit Src(std::vector<uint64_t> c) : replay_(true), in_(std::move(c)) {}

    /// one choice in [0, bound); bound 0 means the full 64 bits.  0 is the simplest choice.
    uint64_t raw(uint64_t bound);
    int64_t range(int64_t lo, int64_t hi); ///< inclusive, simplest: lo
    bool chance(double p);                 ///< true with probability p, simplest: false
    double unit();                         ///< [0,1)
    /// real in [lo,hi]: sometimes on a coarse grid or an end point, mostly full precision; simplest: lo
    double real(double lo, double hi);
    /// real in [-m,m], sometimes exactly 0; simplest: 0
    double sym(double m);
    /// positive real, log-uniform in [lo,hi]
    double logu(double lo, double hi);
    size_t weighted(std::initializer_list<double> w);
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + raw(l.size()));
    }
    template <class T> const T& pick(const std::vector<T>& l) {
        return l[raw(l.size())];
    }
    /// list-length control: true with probability n/(n+1) (mean length n); simplest: false
    bool more(double n) {
        return chance(n / (n + 1.0));
    }
    uint64_t bits() {
        return raw(0);
    }
    const std::vector<uint64_t>& used() const {
        return used_;
    }

private:
    bool replay_;
    uint64_t s_ = 0;
    std::vector<uint64_t> in_, used_;
    size_t pos_ = 0;
    uint64_t next64();
};

/// What a property reports about one case.
class Case {
public:
    bool verbose = false; ///< true: notes are kept (replay, samples)
    bool isNontrivial = false;
    std::vector<std::string> labels;
    std::string text;

    void label(const std::string& l) {
        labels.push_back(l);
    }
    void nontrivial(bool b = true) {
        isNontrivial = isNontrivial || b;
    }
    template <class F> void note(F&& f) { // f(std::ostream&)
        if (!verbose)
            return;
        std::ostringstream o;
        o.precision(17);
        f(o);
        text += o.str();
        text += "\n";
    }
    [[noreturn]] void discard() {
        throw DiscardCase{};
    }
    [[noreturn]] void fail(const std::string& m) {
        throw FailCase{m};
    }
    template <class F> void require(bool ok, F&& f) {
        if (ok)
            return;
        std::ostringstream o;
        o.precision(17);
        f(o);
        throw FailCase{o.str()};
    }
};

struct Prop {
    std::string name; ///< "C02.history"
    std::string rule; ///< what is generated and when a case is non-trivial
    int quick, thorough;
    std::function<void(Src&, Case&)> fn;
    double cpuLimit = 20; ///< seconds of CPU time for one case
};

/// Result of running code that may call exit() or throw.
struct Guarded {
    enum Kind { Ok, Exited, Threw } kind = Ok;
    int code = 0;
    std::string what;
    bool ok() const {
        return kind == Ok;
    }
};
Guarded guarded(const std::function<void()>& f);

/// Captures file descriptor 2 (and std::cerr) while alive.
class CaptureStderr {
public:
    CaptureStderr();
    ~CaptureStderr();
    std::string take(); ///< text so far, and empties the buffer
private:
    int saved_, fd_;
};

/// Scratch directory of the current worker (exists, private); removed at the end of the run.
const std::string& scratch();

/// Runs a program: argv[0] is the path. Returns wait status; out/err captured (bounded).
struct RunResult {
    int status = 0;      ///< exit code, or -signal
    bool timeout = false;///< CPU or wall limit
    std::string out, err;
};
struct RunOpt {
    std::string cwd;
    std::string stdinText;
    bool stdinClosed = false;
    long cpuSec = 20;
    long wallSec = 240;
    long fsizeLimit = -1; ///< RLIMIT_FSIZE, SIGXFSZ ignored
    long nofile     = -1;
    std::vector<std::string> env;
    bool asNobody = false; ///< drop to an unprivileged user
};
RunResult run(const std::vector<std::string>& argv, const RunOpt& o = {});

std::string readFile(const std::string& p);
void writeFile(const std::string& p, const std::string& s);

int engineMain(int argc, char** argv, const std::vector<Prop>& props);

} // namespace pbt

#define REQUIRE(cond, streamexpr)                                                                                      \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            c.require(false, [&](std::ostream& o_) { o_ << streamexpr; });                                             \
    } while (0)
