// C23: a write failure is reported, never passed off as a complete result
#include "e2e.hpp"
#include "filebridge.hpp"
#include "pbt.hpp"

#include "particles_exporter.hpp"

#include <fcntl.h>
#include <iostream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace e2e;

namespace {

struct Child {
    int code = 0; ///< 0 returned, 1 exit with failure, 2 exit(0), 3 exception, -signal
    std::string err;
};
/// runs f in a child with a file size limit; standard error goes through a pipe
Child inChild(const std::function<void()>& f, long limit) {
    int p[2];
    if (pipe2(p, O_CLOEXEC))
        throw std::runtime_error("pipe");
    std::cerr.flush();
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 2);
        if (limit >= 0) {
            signal(SIGXFSZ, SIG_IGN);
            rlimit l{(rlim_t) limit, (rlim_t) limit};
            setrlimit(RLIMIT_FSIZE, &l);
        }
        auto r = guarded(f);
        std::cerr.flush();
        fflush(stderr);
        _exit(r.ok() ? 0 : r.kind == Guarded::Threw ? 3 : r.code == 0 ? 2 : 1);
    }
    close(p[1]);
    Child c;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;)
        c.err.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    c.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    return c;
}

void exporters(Src& g, Case& c) {
    Snap s = files::genSnap(g, 300, true, true);
    if (g.chance(0.1)) // beyond any stream buffer
        for (int i = 0; i < 700; i++) {
            Row r;
            r.type = 1;
            r.x[0] = i * 0.12345;
            r.v[1] = -i * 0.777;
            s.rows.push_back(r);
        }
    Particles ps = toParticles(s);
    int kind        = (int) g.raw(4);
    static const char* fmt[] = {"prof", "csv", "vtu ascii", "vtu binary"};
    std::string dir = freshDir("c23");
    auto write      = [&](const std::string& p) {
        ParticlesExporter e;
        e.setParticles(ps);
        switch (kind) {
        case 0: e.toProf(p, s.time); break;
        case 1: e.toCsv(p, s.time); break;
        case 2: e.toVtu(p, s.time, 6.5, false); break;
        default: e.toVtu(p, s.time, 6.5, true);
        }
    };
    write(dir + "/ref");
    std::string want = readFile(dir + "/ref");
    std::string path = dir + "/file";
    long limit       = -1;
    enum { Limit, Full, NoDir, IsDir, Longer, Plain, LimitLonger } fault = (decltype(fault)) g.weighted({6, 2, 1, 1, 1, 1, 1});
    bool hit = true;
    switch (fault) {
    case LimitLonger: writeFile(path, want + want + "tail"); [[fallthrough]];
    case Limit:
        switch (g.weighted({4, 1, 1, 1, 1})) {
        case 0: limit = (long) g.raw(want.size() + 2); break;
        case 1: limit = (long) want.size(); break;
        case 2: limit = (long) want.size() - 1; break;
        case 3: limit = 0; break;
        default: limit = (long) want.size() + 4096; break;
        }
        hit = limit < (long) want.size();
        break;
    case Full: fs::create_symlink("/dev/full", path); break;
    case NoDir: path = dir + "/missing/file"; break;
    case IsDir: fs::create_directories(path); break;
    case Longer:
        writeFile(path, want + want + "tail");
        hit = false;
        break;
    case Plain: hit = false; break;
    }
    static const char* names[] = {"size limit", "full device", "no such directory", "is a directory", "longer file there", "no fault", "size limit, longer file there"};
    c.label(std::string(names[fault]) + (hit ? "" : " (not reached)"));
    c.note([&](std::ostream& o) { o << fmt[kind] << ", " << ps.size() << " particles, " << want.size() << " bytes; " << names[fault] << " " << limit << "\n"; });
    auto r = inChild([&] { write(path); }, limit);
    REQUIRE(r.code >= 0, "the export crashed with signal " << -r.code);
    if (!hit) {
        REQUIRE(r.code == 0, "the export of " << fmt[kind] << " failed without a reason: " << r.err);
        REQUIRE(readFile(path) == want, fmt[kind] << ": the file holds " << readFile(path).size() << " bytes, expected " << want.size());
        return;
    }
    REQUIRE(r.code != 0, fmt[kind] << ": the export reports success; " << names[fault] << " (limit " << limit << " of " << want.size() << " bytes), written "
                                   << (fault == Limit || fault == LimitLonger ? readFile(path).size() : 0));
    REQUIRE(r.code != 2, fmt[kind] << ": " << names[fault] << " ends in exit(0)");
    REQUIRE(r.code == 3 || !r.err.empty(), fmt[kind] << ": " << names[fault] << " without a message on standard error");
    c.nontrivial();
}

/// anything on standard error but the progress lines
bool message(const std::string& err) {
    for (auto& l : files::splitLines(err)) {
        int k;
        double t;
        char ch = 0;
        if (l.empty() || (sscanf(l.c_str(), "%d: t=%lf%c", &k, &t, &ch) == 3 && ch == 's'))
            continue;
        return true;
    }
    return false;
}

void runs(Src& g, Case& c) {
    std::string root = freshDir("c23m");
    fs::create_directories(root + "/good");
    fs::create_directories(root + "/bad");
    Config conf;
    conf.p.lo = {-100, -100, 0};
    conf.p.hi = {100, 100, 0};
    conf.rN = conf.rG = conf.rL = 21;
    conf.p.cfl      = 1e9;
    conf.dt         = 0.001;
    int outputs     = (int) g.range(1, 5); // beyond output 0
    conf.end        = (outputs - 0.5) * conf.dt;
    conf.period     = conf.dt;
    conf.binary     = g.chance(0.5);
    conf.p.implicit = g.chance(0.3);
    conf.g3[1]      = -9.8;
    Snap in;
    int n = g.chance(0.1) ? 400 : (int) g.range(0, 30);
    for (int i = 0; i < n; i++) {
        Row r;
        r.type = 1;
        r.x[0] = (i % 20) * 0.1;
        r.x[1] = (double) (i / 20) * 0.1;
        r.v[0] = g.sym(0.5);
        in.rows.push_back(r);
    }
    writeFile(root + "/input.prof", profText(in));
    writeFile(root + "/s.yml", yaml(conf));
    auto res0 = run({mpsPath(), "-s", root + "/s.yml", "-o", root + "/good"});
    REQUIRE(res0.status == 0, "a run without faults ended with " << res0.status << " " << res0.err.substr(0, 300));
    auto want = tree(root + "/good");
    int count = 0;
    while (want.count(outName(count, "prof")))
        count++;
    REQUIRE(want.size() == 3 * (size_t) count + 2, "a run without faults wrote " << want.size() << " files, " << count << " profiles");
    std::vector<std::string> outs;
    size_t biggest = 0;
    for (auto& e : want) {
        biggest = std::max(biggest, e.second.size());
        if (e.first.find("output_") != std::string::npos)
            outs.push_back(e.first);
    }
    RunOpt o;
    bool hit = true, known = true;
    enum { Limit, Full, IsDir, SubIsFile, Nofile, Plain } fault = (decltype(fault)) g.weighted({5, 4, 2, 1, 1, 1});
    std::string what;
    switch (fault) {
    case Limit:
        o.fsizeLimit = g.chance(0.2) ? (long) biggest - 1 + (long) g.raw(3) : (long) g.raw(biggest + biggest / 8 + 2);
        hit          = o.fsizeLimit < (long) biggest;
        what         = "file size limit " + std::to_string(o.fsizeLimit);
        break;
    case Full: {
        std::string f = g.pick(outs);
        fs::create_directories(fs::path(root + "/bad/" + f).parent_path());
        fs::create_symlink("/dev/full", root + "/bad/" + f);
        what = f + " is on a full device";
        break;
    }
    case IsDir: {
        std::string f = g.pick(outs);
        fs::create_directories(root + "/bad/" + f);
        what = f + " is a directory";
        break;
    }
    case SubIsFile:
        what = g.pick({"prof", "vtu", "csv"});
        writeFile(root + "/bad/" + what, "x");
        what += " is a regular file";
        break;
    case Nofile:
        o.nofile = (long) g.range(3, 9);
        known    = false;
        what     = "at most " + std::to_string(o.nofile) + " open files";
        break;
    case Plain: hit = false; what = "no fault"; break;
    }
    c.note([&](std::ostream& os) { os << what << "; biggest file " << biggest << " bytes, " << count << " outputs, " << n << " particles, " << (conf.binary ? "binary" : "ascii") << "\n"; });
    auto res = run({mpsPath(), "-s", root + "/s.yml", "-o", root + "/bad"}, o);
    REQUIRE(!res.timeout && !crashed(res), "mps ended with " << res.status << (res.timeout ? " (time limit)" : ""));
    static const char* names[] = {"size limit", "full device", "output is a directory", "subdirectory is a file", "few open files", "no fault"};
    c.label(std::string(names[fault]) + (known && hit ? "" : res.status ? " (failed)" : " (no failure)"));
    if (known && !hit)
        REQUIRE(res.status == 0, "mps failed without a reason: " << res.err.substr(0, 300));
    if (res.status == 0) {
        REQUIRE(!(known && hit), "mps reports success although " << what);
        auto got = tree(root + "/bad");
        for (auto& e : want) {
            REQUIRE(got.count(e.first), "mps reports success (" << what << ") without " << e.first);
            REQUIRE(got[e.first] == e.second, "mps reports success (" << what << ") but " << e.first << " has " << got[e.first].size() << " bytes instead of " << e.second.size());
        }
        return;
    }
    REQUIRE(message(res.err), "mps failed (" << what << ") without a message on standard error");
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C23.exporters",
          "exports of any particles in the four formats, to a full device, with a file size limit at any byte, to a directory or a missing directory, "
          "over a longer file, or without fault; on success the file must equal the unlimited export; non-trivial: the fault is hit",
          6000, 120000, exporters},
         {"C23.runs",
          "runs of mps with the same faults on any one of its output files; on success every file must equal that of a run without fault; "
          "non-trivial: the run fails",
          2500, 60000, runs}}
    );
}
