#include "pbt.hpp"

#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <exception>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t Src::next64() {
    return splitmix(s_);
}
static void (*g_live)(size_t, uint64_t) = nullptr; // records choices as they are drawn (survives a crash)
uint64_t Src::raw(uint64_t bound) {
    uint64_t v;
    if (replay_)
        v = pos_ < in_.size() ? in_[pos_] : 0;
    else
        v = next64();
    pos_++;
    if (bound)
        v %= bound;
    used_.push_back(v);
    if (g_live)
        g_live(used_.size() - 1, v);
    if (used_.size() > 4000000)
        throw DiscardCase{};
    return v;
}
int64_t Src::range(int64_t lo, int64_t hi) {
    return lo + (int64_t) raw((uint64_t) (hi - lo) + 1);
}
bool Src::chance(double p) {
    // choices 0..9999; the upper part is "true" so that 0 is false
    uint64_t n = (uint64_t) std::llround(p * 10000);
    return raw(10000) >= 10000 - std::min<uint64_t>(n, 10000);
}
double Src::unit() {
    return (double) (raw(1ull << 53)) * 0x1p-53;
}
double Src::real(double lo, double hi) {
    uint64_t k = raw(8);
    if (k == 0)
        return lo + (hi - lo) * ((double) raw(17) / 16.0);
    if (k == 1)
        return raw(2) ? hi : lo;
    double v = lo + (hi - lo) * unit();
    return std::min(std::max(v, lo), hi);
}
double Src::sym(double m) {
    uint64_t k = raw(8);
    if (k == 0)
        return 0.0;
    if (k == 1)
        return m * ((double) raw(9) - 4.0) / 4.0;
    return m * (2.0 * unit() - 1.0);
}
double Src::logu(double lo, double hi) {
    return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
}
size_t Src::weighted(std::initializer_list<double> w) {
    double t = 0;
    for (double x : w)
        t += x;
    double u = (double) raw(1 << 20) / (double) (1 << 20) * t;
    size_t i = 0;
    for (double x : w) {
        if (u < x)
            return i;
        u -= x;
        i++;
    }
    return w.size() - 1;
}

// ---------------------------------------------------------------- guarded execution
// exit() of the code under test becomes an exception, so that its objects are released.  Where the compiler
// relied on exit() not throwing, the exception cannot pass and ends in std::terminate; then a jump does it.
struct ExitCalled {};
static thread_local sigjmp_buf* g_jmp = nullptr;
static thread_local int g_exitCode    = 0;
static thread_local bool g_exiting    = false;
static std::terminate_handler g_prevTerminate = nullptr;
static void onTerminate() {
    if (g_jmp && g_exiting)
        siglongjmp(*g_jmp, 1);
    if (g_prevTerminate)
        g_prevTerminate();
    abort();
}
} // namespace pbt

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void vp_exit_hook(int code) { // see exit_hook.hpp
    if (pbt::g_jmp) {
        pbt::g_exitCode = code;
        pbt::g_exiting  = true;
        throw pbt::ExitCalled{};
    }
}
void __wrap_exit(int code) {
    if (pbt::g_jmp) {
        pbt::g_exitCode = code;
        pbt::g_exiting  = true;
        throw pbt::ExitCalled{};
    }
    __real_exit(code);
}
}

namespace pbt {
Guarded guarded(const std::function<void()>& f) {
    static bool installed = [] {
        g_prevTerminate = std::set_terminate(onTerminate);
        return true;
    }();
    (void) installed;
    Guarded g;
    sigjmp_buf jb;
    sigjmp_buf* volatile prev = g_jmp;
    g_exiting                 = false;
    if (sigsetjmp(jb, 0) == 0) {
        g_jmp = &jb;
        try {
            f();
        } catch (const DiscardCase&) {
            g_jmp = prev;
            throw;
        } catch (const FailCase&) {
            g_jmp = prev;
            throw;
        } catch (const ExitCalled&) {
            g.kind = Guarded::Exited;
            g.code = g_exitCode;
        } catch (const std::exception& e) {
            g.kind = Guarded::Threw;
            g.what = e.what();
        } catch (...) {
            g.kind = Guarded::Threw;
            g.what = "unknown exception";
        }
    } else {
        g.kind = Guarded::Exited;
        g.code = g_exitCode;
    }
    g_exiting = false;
    g_jmp     = prev;
    return g;
}

CaptureStderr::CaptureStderr() {
    std::cerr.flush();
    fflush(stderr);
    saved_ = dup(2);
    fd_    = memfd_create("err", 0);
    dup2(fd_, 2);
}
std::string CaptureStderr::take() {
    std::cerr.flush();
    fflush(stderr);
    off_t n = lseek(fd_, 0, SEEK_CUR);
    std::string s((size_t) n, '\0');
    size_t got = 0;
    while (got < s.size()) {
        ssize_t k = pread(fd_, &s[got], s.size() - got, got);
        if (k <= 0)
            break;
        got += k;
    }
    s.resize(got);
    if (ftruncate(fd_, 0)) {
    }
    lseek(fd_, 0, SEEK_SET);
    return s;
}
CaptureStderr::~CaptureStderr() {
    std::cerr.flush();
    fflush(stderr);
    dup2(saved_, 2);
    close(saved_);
    close(fd_);
}

static std::string g_scratch;
const std::string& scratch() {
    return g_scratch;
}

std::string readFile(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
void writeFile(const std::string& p, const std::string& s) {
    std::ofstream f(p, std::ios::binary);
    f.write(s.data(), (std::streamsize) s.size());
}

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

RunResult run(const std::vector<std::string>& argv, const RunOpt& o) {
    RunResult r;
    int po[2], pe[2];
    if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC))
        throw std::runtime_error("pipe");
    int in = memfd_create("in", MFD_CLOEXEC);
    if (write(in, o.stdinText.data(), o.stdinText.size()) < 0) {
    }
    lseek(in, 0, SEEK_SET);
    std::vector<char*> av;
    for (auto& a : argv)
        av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        itimerval z{};
        setitimer(ITIMER_PROF, &z, nullptr);
        setpgid(0, 0);
        dup2(in, 0);
        if (o.stdinClosed)
            close(0);
        dup2(po[1], 1);
        dup2(pe[1], 2);
        if (!o.cwd.empty() && chdir(o.cwd.c_str()))
            _exit(126);
        rlimit rl{(rlim_t) o.cpuSec, (rlim_t) o.cpuSec + 2};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (o.fsizeLimit >= 0) {
            signal(SIGXFSZ, SIG_IGN);
            rlimit fl{(rlim_t) o.fsizeLimit, (rlim_t) o.fsizeLimit};
            setrlimit(RLIMIT_FSIZE, &fl);
        }
        if (o.nofile >= 0) {
            rlimit fl{(rlim_t) o.nofile, (rlim_t) o.nofile};
            setrlimit(RLIMIT_NOFILE, &fl);
        }
        for (auto& e : o.env)
            putenv(const_cast<char*>(e.c_str()));
        if (o.asNobody) {
            if (setgid(65534) || setuid(65534))
                _exit(125);
        }
        execv(av[0], av.data());
        _exit(127);
    }
    close(po[1]);
    close(pe[1]);
    close(in);
    bool a = true, b = true;
    double t0 = now();
    char buf[65536];
    const size_t cap = 24u << 20;
    bool killed = false;
    while (a || b) {
        pollfd f[2] = {{a ? po[0] : -1, POLLIN, 0}, {b ? pe[0] : -1, POLLIN, 0}};
        int k       = poll(f, 2, 500);
        if (k > 0) {
            for (int i = 0; i < 2; i++) {
                if (f[i].revents) {
                    ssize_t n = read(i ? pe[0] : po[0], buf, sizeof buf);
                    if (n <= 0)
                        (i ? b : a) = false;
                    else {
                        auto& s = i ? r.err : r.out;
                        if (s.size() < cap)
                            s.append(buf, n);
                        else if (!killed && s.size() >= cap) { // endless output
                            kill(-pid, SIGKILL);
                            killed = true;
                        }
                    }
                }
            }
        }
        if (!killed && now() - t0 > o.wallSec) {
            kill(-pid, SIGKILL);
            killed = true;
        }
    }
    close(po[0]);
    close(pe[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st))
        r.status = WEXITSTATUS(st);
    else
        r.status = -WTERMSIG(st);
    r.timeout = killed || r.status == -SIGXCPU || (r.status == -SIGKILL);
    return r;
}

// ---------------------------------------------------------------- engine
namespace {
const size_t MAXCH = 400000;
struct Slot { // shared memory, one per worker
    volatile int64_t caseIdx;
    volatile int propIdx;
    volatile int done;
    volatile int status; // 0 running, 1 pass, 2 fail
    volatile int64_t evals, discards, nontriv;
    volatile double longest;
    volatile int64_t firstNon[4];
    volatile int nFirst;
    char msg[8192];
    char text[60000];
    volatile int labelsLen;
    volatile uint64_t nchoices;
    uint64_t choices[MAXCH];
};
struct Shared {
    volatile int64_t minFail;
    volatile double deadline;
};

uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h ^= ch;
        h *= 1099511628211ull;
    }
    return h;
}
uint64_t caseSeed(uint64_t seed, const std::string& prop, int64_t i) {
    uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ hashStr(prop);
    splitmix(s);
    s ^= (uint64_t) i * 0xD1342543DE82EF95ull;
    splitmix(s);
    return s;
}

enum Verdict { PASS, DISCARD, FAIL };

Verdict runOne(const Prop& p, Src& s, Case& c, std::string& msg) {
    try {
        p.fn(s, c);
        return PASS;
    } catch (const DiscardCase&) {
        return DISCARD;
    } catch (const FailCase& f) {
        msg = f.msg;
        return FAIL;
    }
}

Slot* g_slot = nullptr;
void onProf(int) {
    if (g_slot)
        strncpy(g_slot->msg, "CPU-time limit for one case exceeded (hang)", sizeof(g_slot->msg) - 1);
    _exit(97);
}
void armCpu(double sec) {
    signal(SIGPROF, onProf);
    itimerval it{};
    it.it_value.tv_sec  = (time_t) sec;
    it.it_value.tv_usec = (suseconds_t) ((sec - (time_t) sec) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
std::string g_tmpRoot;
void enterWorker(int w) {
    g_scratch = g_tmpRoot + "/w" + std::to_string(w);
    std::filesystem::create_directories(g_scratch);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    dup2(n, 2);
    setpgid(0, 0);
    std::set_terminate([] {
        if (g_slot && !g_slot->msg[0]) {
            try {
                std::rethrow_exception(std::current_exception());
            } catch (const std::exception& e) {
                snprintf(g_slot->msg, sizeof g_slot->msg, "uncaught exception: %s", e.what());
            } catch (...) {
            }
        }
        abort();
    });
}
void clearScratch() {
    std::error_code ec;
    for (auto& e : std::filesystem::directory_iterator(g_scratch, ec))
        std::filesystem::remove_all(e.path(), ec);
}

std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += (char) ch;
        } else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += (char) ch;
    }
    return o + "\"";
}

std::string sanitizerLog() {
    // newest sanitizer report in the scratch root
    const char* lp = getenv("PBT_SANLOG");
    if (!lp)
        return "";
    std::string dir = std::filesystem::path(lp).parent_path(), best;
    std::string base = std::filesystem::path(lp).filename();
    std::filesystem::file_time_type bt{};
    std::error_code ec;
    for (auto& e : std::filesystem::directory_iterator(dir, ec)) {
        if (e.path().filename().string().rfind(base, 0) == 0) {
            auto t = e.last_write_time(ec);
            if (best.empty() || t > bt) {
                bt   = t;
                best = e.path();
            }
        }
    }
    if (best.empty())
        return "";
    std::string s = readFile(best);
    return s.substr(0, 3000);
}

struct Attempt {
    Verdict v;
    std::string msg, text;
    std::vector<uint64_t> used;
};

void live(size_t i, uint64_t v) {
    if (i < MAXCH) {
        g_slot->choices[i] = v;
        g_slot->nchoices   = i + 1;
    }
}

Attempt collect(pid_t pid, Slot* slot) {
    int st = 0;
    waitpid(pid, &st, 0);
    kill(-pid, SIGKILL);
    Attempt a;
    a.text = std::string(slot->text, strnlen(slot->text, sizeof slot->text));
    if (slot->status == 1)
        a.v = PASS;
    else if (slot->status == 3)
        a.v = DISCARD;
    else {
        a.v   = FAIL;
        a.msg = std::string(slot->msg, strnlen(slot->msg, sizeof slot->msg));
        if (slot->status == 0) {
            std::ostringstream o;
            o << "process ended abnormally ("
              << (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                  : "exit code " + std::to_string(WEXITSTATUS(st)))
              << ") " << a.msg << "\n"
              << sanitizerLog();
            a.msg = o.str();
        }
    }
    a.used.assign(slot->choices, slot->choices + slot->nchoices);
    return a;
}
void resetSlot(Slot* slot) {
    slot->msg[0] = slot->text[0] = 0;
    slot->status   = 0;
    slot->nchoices = 0;
}

// One run of a case in a fresh process.
Attempt runIsolated(const Prop& p, const std::vector<uint64_t>* choices, uint64_t seed, bool verbose, Slot* slot) {
    resetSlot(slot);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = slot;
        g_live = live;
        enterWorker(900);
        armCpu(p.cpuLimit);
        Case c;
        c.verbose = verbose;
        Src s     = choices ? Src(*choices) : Src(seed);
        std::string msg;
        Verdict v = FAIL;
        try {
            v = runOne(p, s, c, msg);
        } catch (const std::exception& e) {
            msg = std::string("unexpected exception: ") + e.what();
        }
        strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
        strncpy(slot->text, c.text.c_str(), sizeof(slot->text) - 1);
        slot->status = v == PASS ? 1 : v == DISCARD ? 3 : 2;
        _exit(0);
    }
    return collect(pid, slot);
}

// Several cases one after the other in one fresh process, until one fails: for failures which depend on what the
// process did before (state kept between calls).  slot->caseIdx is the case that was run last.
Attempt runHistory(const Prop& p, const std::vector<int64_t>& idx, uint64_t seed, bool verbose, Slot* slot) {
    resetSlot(slot);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = slot;
        enterWorker(900);
        std::string text;
        for (size_t k = 0; k < idx.size(); k++) {
            slot->caseIdx = idx[k];
            armCpu(p.cpuLimit);
            Case c;
            c.verbose = verbose && (k + 3 >= idx.size());
            Src s(caseSeed(seed, p.name, idx[k]));
            std::string msg;
            Verdict v = FAIL;
            try {
                v = runOne(p, s, c, msg);
            } catch (const std::exception& e) {
                msg = std::string("unexpected exception: ") + e.what();
            }
            clearScratch();
            if (c.verbose)
                text += "case " + std::to_string(idx[k]) + ":\n" + c.text;
            if (v == FAIL) {
                strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
                strncpy(slot->text, text.c_str(), sizeof(slot->text) - 1);
                slot->status = 2;
                _exit(0);
            }
        }
        slot->status = 1;
        _exit(0);
    }
    return collect(pid, slot);
}

// Fewer cases before the failing one, as long as it keeps failing.
std::vector<int64_t> shrinkHistory(const Prop& p, std::vector<int64_t> cur, uint64_t seed, Slot* slot, double budget, int& attempts) {
    double end = now() + budget;
    attempts   = 0;
    auto fails = [&](std::vector<int64_t>& t) {
        attempts++;
        if (runHistory(p, t, seed, false, slot).v != FAIL)
            return false;
        while (t.back() != slot->caseIdx) // an earlier case fails already
            t.pop_back();
        return true;
    };
    for (size_t k = 2; k < cur.size() && now() < end; k *= 2) { // only the last k
        std::vector<int64_t> t(cur.end() - (long) k, cur.end());
        if (fails(t)) {
            cur = t;
            break;
        }
    }
    for (size_t k = cur.size() / 2; k >= 1 && now() < end; k /= 2)
        for (size_t i = 0; i + k < cur.size() && now() < end;) {
            std::vector<int64_t> t(cur);
            t.erase(t.begin() + (long) i, t.begin() + (long) (i + k));
            if (fails(t))
                cur = t;
            else
                i += k;
        }
    return cur;
}

std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> cur, Slot* slot, double budget, int& attempts) {
    double end = now() + budget;
    attempts   = 0;
    auto fails = [&](const std::vector<uint64_t>& t) {
        attempts++;
        return runIsolated(p, &t, 0, false, slot).v == FAIL;
    };
    bool improved = true;
    while (improved && now() < end) {
        improved = false;
        // drop the tail
        for (size_t k = cur.size() / 2; k >= 1 && now() < end; k /= 2) {
            while (cur.size() > k && now() < end) {
                std::vector<uint64_t> t(cur.begin(), cur.end() - k);
                if (!fails(t))
                    break;
                cur      = t;
                improved = true;
            }
        }
        // delete blocks
        for (size_t k : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {
            for (size_t i = cur.size(); i-- > 0 && now() < end;) {
                if (i + k > cur.size())
                    continue;
                std::vector<uint64_t> t(cur);
                t.erase(t.begin() + i, t.begin() + i + k);
                if (fails(t)) {
                    cur      = t;
                    improved = true;
                }
                if (cur.size() > 3000)
                    i -= std::min<size_t>(i, cur.size() / 500); // sparse sampling on long cases
            }
        }
        // zero blocks, then single reductions
        for (size_t k : {16, 4, 1}) {
            for (size_t i = 0; i + k <= cur.size() && now() < end; i += k) {
                bool any = false;
                for (size_t j = i; j < i + k; j++)
                    any = any || cur[j];
                if (!any)
                    continue;
                std::vector<uint64_t> t(cur);
                std::fill_n(t.begin() + i, k, 0);
                if (fails(t)) {
                    cur      = t;
                    improved = true;
                }
            }
        }
        for (size_t i = 0; i < cur.size() && now() < end; i++) {
            if (!cur[i])
                continue;
            uint64_t lo = 0, hi = cur[i]; // hi fails
            for (int k = 0; k < 20 && lo + 1 < hi && now() < end; k++) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> t(cur);
                t[i] = mid;
                if (fails(t)) {
                    hi       = mid;
                    improved = true;
                } else
                    lo = mid;
            }
            cur[i] = hi;
        }
        if (cur.size() > 3000)
            break;
    }
    return cur;
}

template <class T> T* shm(size_t n = 1) {
    void* m = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (T*) m;
}
} // namespace

int engineMain(int argc, char** argv, const std::vector<Prop>& props) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2)
        opt[argv[i]] = argv[i + 1];
    uint64_t seed    = opt.count("--seed") ? strtoull(opt["--seed"].c_str(), 0, 10) : 1;
    bool thorough    = opt["--tier"] == "thorough";
    int jobs         = opt.count("--jobs") ? atoi(opt["--jobs"].c_str()) : 8;
    double scale     = opt.count("--scale") ? atof(opt["--scale"].c_str()) : 1;
    double budget    = opt.count("--budget") ? atof(opt["--budget"].c_str()) : (thorough ? 3000 : 400);
    std::string only = opt["--only"];
    std::string out = opt["--out"], replayOut = opt["--replay-out"], replayIn = opt["--replay"];
    {
        std::string t = opt.count("--tmp") ? opt["--tmp"] : "/tmp";
        std::string tmpl = t + "/pbtXXXXXX";
        std::vector<char> b(tmpl.begin(), tmpl.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            fprintf(stderr, "mkdtemp failed\n");
            return 3;
        }
        g_tmpRoot = b.data();
        chmod(g_tmpRoot.c_str(), 0755);
    }
    struct Cleanup {
        ~Cleanup() {
            std::error_code ec;
            std::filesystem::remove_all(g_tmpRoot, ec);
        }
    } cleanup;
    auto* sh    = shm<Shared>();
    auto* slots = shm<Slot>(jobs + 1);
    Slot* iso   = &slots[jobs];

    if (!replayIn.empty()) {
        std::ifstream f(replayIn);
        std::string line, name;
        std::vector<uint64_t> ch;
        std::vector<int64_t> hist;
        uint64_t hseed = 0;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "prop")
                is >> name;
            if (k == "seed")
                is >> hseed;
            if (k == "choices") {
                uint64_t v;
                while (is >> v)
                    ch.push_back(v);
            }
            if (k == "history") {
                int64_t v;
                while (is >> v)
                    hist.push_back(v);
            }
        }
        for (auto& p : props)
            if (p.name == name) {
                Attempt a = hist.empty() ? runIsolated(p, &ch, 0, true, iso) : runHistory(p, hist, hseed, true, iso);
                printf("%s\n%s\n%s\n", a.text.c_str(), a.v == FAIL ? "FAIL" : a.v == PASS ? "PASS" : "DISCARD", a.msg.c_str());
                return a.v == FAIL ? 1 : 0;
            }
        fprintf(stderr, "no property %s\n", name.c_str());
        return 3;
    }

    std::ostringstream js;
    js << "{\"subs\":[";
    bool firstSub = true, violation = false;
    double T0 = now();
    for (size_t pi = 0; pi < props.size() && !violation; pi++) {
        const Prop& p = props[pi];
        if (!only.empty() && p.name != only)
            continue;
        int64_t N = (int64_t) std::max(1.0, (thorough ? p.thorough : p.quick) * scale);
        double t0 = now();
        sh->minFail  = INT64_MAX;
        std::vector<pid_t> pids(jobs, 0);
        std::vector<int> restarts(jobs, 0);
        for (int w = 0; w < jobs; w++)
            memset((void*) &slots[w], 0, offsetof(Slot, choices));
        for (int w = 0; w < jobs; w++) {
            pid_t pid = fork();
            if (pid == 0) {
                Slot* sl = &slots[w];
                g_slot   = sl;
                enterWorker(w);
                std::map<std::string, int64_t> labels;
                std::unordered_set<uint64_t> hashes;
                for (int64_t i = w; i < N; i += jobs) {
                    if (i > sh->minFail || now() - T0 > budget)
                        break;
                    sl->caseIdx = i;
                    sl->msg[0]  = 0;
                    Src s(caseSeed(seed, p.name, i));
                    Case c;
                    std::string msg;
                    timespec ta, tb;
                    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ta);
                    armCpu(p.cpuLimit);
                    Verdict v = FAIL;
                    try {
                        v = runOne(p, s, c, msg);
                    } catch (const std::exception& e) {
                        msg = std::string("unexpected exception: ") + e.what();
                    }
                    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &tb);
                    double dt   = (tb.tv_sec - ta.tv_sec) + 1e-9 * (tb.tv_nsec - ta.tv_nsec);
                    sl->longest = std::max((double) sl->longest, dt);
                    clearScratch();
                    sl->evals++;
                    if (v == DISCARD) {
                        sl->discards++;
                        continue;
                    }
                    if (v == FAIL) {
                        strncpy(sl->msg, msg.c_str(), sizeof(sl->msg) - 1);
                        sl->status = 2;
                        int64_t m  = sh->minFail;
                        while (i < m && !__sync_bool_compare_and_swap(&sh->minFail, m, i))
                            m = sh->minFail;
                        break;
                    }
                    for (auto& l : c.labels)
                        labels[l]++;
                    if (c.isNontrivial) {
                        uint64_t h = 1469598103934665603ull;
                        for (auto x : s.used()) {
                            h ^= x;
                            h *= 1099511628211ull;
                            h ^= h >> 29;
                        }
                        if (hashes.insert(h).second)
                            sl->nontriv++;
                        if (sl->nFirst < 4) {
                            sl->firstNon[sl->nFirst] = i;
                            sl->nFirst               = sl->nFirst + 1;
                        }
                    }
                }
                std::string t;
                for (auto& [k, v] : labels)
                    t += k + "\t" + std::to_string(v) + "\n";
                strncpy(sl->text, t.c_str(), sizeof(sl->text) - 1);
                sl->done = 1;
                _exit(0);
            }
            pids[w] = pid;
        }
        for (int w = 0; w < jobs; w++) {
            int st = 0;
            waitpid(pids[w], &st, 0);
            kill(-pids[w], SIGKILL);
            if (!slots[w].done) {
                int64_t m = sh->minFail;
                if (slots[w].caseIdx < m)
                    sh->minFail = slots[w].caseIdx;
            }
        }
        int64_t ev = 0, dis = 0, non = 0;
        double longest = 0;
        std::map<std::string, int64_t> labels;
        std::vector<int64_t> firsts;
        for (int w = 0; w < jobs; w++) {
            ev += slots[w].evals;
            dis += slots[w].discards;
            non += slots[w].nontriv;
            longest = std::max(longest, (double) slots[w].longest);
            for (int k = 0; k < slots[w].nFirst; k++)
                firsts.push_back((int64_t) slots[w].firstNon[k]);
            std::istringstream is(std::string(slots[w].text, strnlen(slots[w].text, sizeof slots[w].text)));
            std::string line;
            if (slots[w].done)
                while (std::getline(is, line)) {
                    auto t = line.find('\t');
                    labels[line.substr(0, t)] += atoll(line.c_str() + t + 1);
                }
        }
        std::sort(firsts.begin(), firsts.end());
        std::vector<std::string> samples;
        for (size_t k = 0; k < firsts.size() && k < 3; k++) {
            Attempt a = runIsolated(p, nullptr, caseSeed(seed, p.name, firsts[k]), true, iso);
            samples.push_back("case " + std::to_string(firsts[k]) + ": " + a.text.substr(0, 1500));
        }
        std::string unreproduced, vmsg, vtext;
        if (sh->minFail != INT64_MAX) {
            int64_t i    = sh->minFail;
            uint64_t sd  = caseSeed(seed, p.name, i);
            Attempt base = runIsolated(p, nullptr, sd, false, iso);
            std::vector<uint64_t> ch = base.used;
            int reps                 = base.v == FAIL;
            for (int k = 0; k < 2; k++)
                reps += runIsolated(p, nullptr, sd, false, iso).v == FAIL;
            // not by itself: with the cases which the same process had run before?
            std::vector<int64_t> hist;
            int attempts = 0;
            if (reps < 3) {
                for (int64_t k = i % jobs; k <= i; k += jobs)
                    hist.push_back(k);
                int hreps = 0;
                for (int k = 0; k < 3 && hreps == k; k++)
                    hreps += runHistory(p, hist, seed, false, iso).v == FAIL && iso->caseIdx == i;
                if (hreps < 3)
                    hist.clear();
            }
            if (!hist.empty()) {
                auto small = shrinkHistory(p, hist, seed, iso, thorough ? 120 : 40, attempts);
                Attempt fin;
                int ok = 0;
                for (int k = 0; k < 3; k++) {
                    fin = runHistory(p, small, seed, true, iso);
                    ok += fin.v == FAIL;
                }
                if (ok < 3) {
                    small = hist;
                    fin   = runHistory(p, small, seed, true, iso);
                }
                violation = true;
                vmsg      = "after other cases in the same process (state is kept between them): " + fin.msg;
                vtext     = fin.text;
                std::ofstream f(replayOut);
                f << "prop " << p.name << "\nseed " << seed << " case " << i << " shrink-attempts " << attempts << "\nhistory";
                for (auto v : small)
                    f << " " << v;
                f << "\n# ---- what failed\n" << fin.msg << "\n# ---- the last cases\n" << fin.text << "\n";
            } else if (reps < 3) {
                unreproduced = "case " + std::to_string(i) + " failed once, " + std::to_string(reps) +
                               "/3 on replay: " + std::string(slots[i % jobs].msg).substr(0, 500);
            } else {
                auto small   = shrink(p, ch, iso, thorough ? 120 : 25, attempts);
                int ok       = 0;
                Attempt fin;
                for (int k = 0; k < 3; k++) {
                    fin = runIsolated(p, &small, 0, true, iso);
                    ok += fin.v == FAIL;
                }
                if (ok < 3) {
                    small = ch;
                    fin   = runIsolated(p, &small, 0, true, iso);
                }
                violation = true;
                vmsg      = fin.msg;
                vtext     = fin.text;
                std::ofstream f(replayOut);
                f << "prop " << p.name << "\nseed " << seed << " case " << i << " shrink-attempts " << attempts
                  << "\nchoices";
                for (auto v : small)
                    f << " " << v;
                f << "\n# ---- what failed\n" << fin.msg << "\n# ---- the case\n" << fin.text << "\n";
            }
        }
        if (!firstSub)
            js << ",";
        firstSub = false;
        js << "{\"name\":" << jsonStr(p.name) << ",\"rule\":" << jsonStr(p.rule) << ",\"planned\":" << N
           << ",\"evaluations\":" << ev << ",\"discarded\":" << dis << ",\"distinct_nontrivial\":" << non
           << ",\"longest_case_cpu_s\":" << longest << ",\"wall_s\":" << now() - t0 << ",\"labels\":{";
        bool fl = true;
        for (auto& [k, v] : labels) {
            js << (fl ? "" : ",") << jsonStr(k) << ":" << v;
            fl = false;
        }
        js << "},\"samples\":[";
        for (size_t k = 0; k < samples.size(); k++)
            js << (k ? "," : "") << jsonStr(samples[k]);
        js << "],\"unreproduced\":" << jsonStr(unreproduced) << ",\"violation\":" << (vmsg.empty() && !violation ? "null" : jsonStr(vmsg))
           << "}";
        fprintf(
            stderr,
            "[%s] %lld cases, %lld discarded, %lld distinct non-trivial, longest %.2fs, %.1fs wall%s\n",
            p.name.c_str(),
            (long long) ev,
            (long long) dis,
            (long long) non,
            longest,
            now() - t0,
            violation ? "  ** VIOLATION" : ""
        );
        if (violation)
            fprintf(stderr, "%s\n%s\n", vmsg.substr(0, 3000).c_str(), vtext.substr(0, 3000).c_str());
        if (!unreproduced.empty())
            fprintf(stderr, "UNREPRODUCED %s\n", unreproduced.c_str());
    }
    js << "],\"violation\":" << (violation ? "true" : "false") << "}\n";
    if (!out.empty())
        writeFile(out, js.str());
    std::error_code ec;
    std::filesystem::remove_all(g_tmpRoot, ec);
    return violation ? 1 : 0;
}

} // namespace pbt
