// C30: the runner scripts run the case they name, keep its logs and touch nothing else
//
// The scripts delete files. They run as an unprivileged user, on a copy below the scratch directory, with a stand-in
// for rm first in PATH that deletes only below that directory and records everything else.
#include "e2e.hpp"

#include <ctime>
#include <set>

#include <sys/stat.h>

using namespace pbt;
using namespace e2e;

namespace {

std::string shq(const std::string& s) {
    std::string o = "'";
    for (char ch : s)
        o += ch == '\'' ? std::string("'\\''") : std::string(1, ch);
    return o + "'";
}

/// a name a directory may have
std::string name(Src& g, bool plain) {
    static const std::vector<std::string> plainNames = {"MPS-Basic", "mps", "work", "a.b", "x_1"};
    static const std::vector<std::string> odd        = {"my work", "a  b", " lead", "MPS (copy)", "a*", "[ab]", "it's", "a;b", "$HOME", "a&b", "t\tb", "ü", "?", "{a,b}", "~", "#1", "-n"};
    return plain || g.chance(0.3) ? g.pick(plainNames) : g.pick(odd);
}

struct Place {
    std::string base, root, bin, rec; ///< scratch of the case, repository, tools first in PATH, records of the stand-ins
};

/// a repository with the script and a stand-in for mps
Place setUp(Src& g, const std::string& scriptName, bool plain) {
    Place p;
    std::string b = freshDir("c30");
    p.base        = b + "/" + name(g, plain);
    p.root        = p.base + (g.chance(0.5) ? "/" + name(g, plain) : "") + "/repo";
    p.bin         = b + "/bin";
    p.rec         = b + "/rec";
    for (auto& d : {p.root + "/scripts", p.root + "/build", p.root + "/input", p.bin, p.rec})
        fs::create_directories(d);
    writeFile(p.root + "/scripts/" + scriptName, readFile(std::string(getenv("PBT_REPO")) + "/scripts/" + scriptName));
    // the stand-in for rm
    writeFile(p.bin + "/rm", "#!/bin/bash\n"
                             "opts=() ; paths=()\n"
                             "for a in \"$@\"; do case \"$a\" in -*) opts+=(\"$a\");; *) paths+=(\"$a\");; esac; done\n"
                             "for a in \"${paths[@]}\"; do\n"
                             "  r=$(/usr/bin/realpath -ms -- \"$a\")\n"
                             "  case \"$r\" in\n"
                             "    " + shq(p.base) + "/*) /bin/rm \"${opts[@]}\" -- \"$a\";;\n"
                             "    *) printf '%s\\n' \"$r\" >> " + shq(p.rec + "/outside") + ";;\n"
                             "  esac\n"
                             "done\n"
                             "exit 0\n");
    // a clock: the runs of a case may fall into one second or into different ones
    writeFile(p.bin + "/date", "#!/bin/bash\nexec /usr/bin/date -u -d \"@$(cat " + shq(p.rec + "/now") + ")\" \"$@\"\n");
    writeFile(p.rec + "/now", "1700000000\n");
    for (const char* t : {"/rm", "/date"})
        fs::permissions(p.bin + t, fs::perms(0755));
    return p;
}

struct Fake {
    std::string out, err;
    int status = 0;
    std::vector<std::pair<std::string, std::string>> files; ///< written below the output directory
    bool missing = false;                                   ///< no mps at all
};
std::string text(Src& g) {
    std::string t;
    int n = (int) g.pick({0, 1, 3, 40, 2000});
    for (int i = 0; i < n; i++)
        t += std::to_string(i) + g.pick<std::string>({": t=0.1s", " 100% \\n $x", "", "\t*", "WARNING: \"q\""}) + "\n";
    if (g.chance(0.2))
        t += "no newline";
    return t;
}
Fake genFake(Src& g) {
    Fake f;
    f.out    = text(g);
    f.err    = text(g);
    f.status = g.pick({0, 0, 1, 255, 3, 139});
    if (g.chance(0.7))
        f.files = {{"prof/output_0000.prof", "0\n0\n"}, {"vtu/output_0000.vtu", "<x/>"}, {"csv/output_0000.csv", text(g)}};
    if (g.chance(0.5))
        f.files.push_back({"settings.yml", "dim: 2\n"});
    f.missing = g.chance(0.05);
    return f;
}
void install(const Place& p, const Fake& f, const std::string& call) {
    std::string m = p.root + "/build/mps", r = p.rec + "/" + call;
    fs::create_directories(r);
    writeFile(r + ".out", f.out);
    writeFile(r + ".err", f.err);
    std::string s = "#!/bin/bash\n"
                    "pwd -P > " + shq(r + "/cwd") + "\n"
                    "printf '%s\\0' \"$@\" > " + shq(r + "/args") + "\n"
                    "o=; c=0; while [ $# -gt 0 ]; do case \"$1\" in --output|-o) o=$2; shift;; --output=*) o=${1#*=};; esac; shift; done\n"
                    "[ -d \"$o\" ] || { echo \"no output directory\" >&2; exit 254; }\n"
                    "/bin/ls -A -- \"$o\" > " + shq(r + "/found") + "\n";
    int k = 0;
    for (auto& e : f.files) {
        writeFile(r + "." + std::to_string(k), e.second);
        s += "mkdir -p \"$o/" + std::string(fs::path(e.first).parent_path()) + "\" && cp " + shq(r + "." + std::to_string(k)) + " \"$o/" + e.first + "\"\n";
        k++;
    }
    s += "cat " + shq(r + ".out") + "\ncat " + shq(r + ".err") + " >&2\nexit " + std::to_string(f.status) + "\n";
    writeFile(m, s);
    fs::permissions(m, fs::perms(0755));
    if (f.missing)
        fs::remove(m);
}
void openUp(const std::string& d) { // for the unprivileged user
    fs::permissions(d, fs::perms(0777));
    for (auto& e : fs::recursive_directory_iterator(d))
        if (!e.is_symlink())
            fs::permissions(e.path(), e.is_directory() || e.path().filename() == "mps" || e.path().parent_path().filename() == "bin" ? fs::perms(0777) : fs::perms(0666));
}
std::vector<std::string> args(const std::string& s) {
    std::vector<std::string> o;
    for (size_t i = 0; i < s.size();) {
        size_t e = s.find('\0', i);
        o.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return o;
}
std::string option(const std::vector<std::string>& a, const std::string& lng, const std::string& shrt) {
    for (size_t i = 0; i < a.size(); i++) {
        if ((a[i] == lng || a[i] == shrt) && i + 1 < a.size())
            return a[i + 1];
        if (a[i].compare(0, lng.size() + 1, lng + "=") == 0)
            return a[i].substr(lng.size() + 1);
    }
    return "";
}

/// how the script is called
struct Call {
    std::string cwd, script;
};
Call genCall(Src& g, const Place& p, const std::string& scriptName, const std::string& elsewhere) {
    Call c;
    switch (g.raw(5)) {
    case 0: c = {p.root, "scripts/" + scriptName}; break;
    case 1: c = {p.root, "./scripts/" + scriptName}; break;
    case 2: c = {p.root + "/scripts", "./" + scriptName}; break;
    case 3: c = {p.root + "/scripts", scriptName}; break;
    default: c = {elsewhere, p.root + "/scripts/" + scriptName};
    }
    return c;
}
RunResult call(const Place& p, const Call& k, const std::vector<std::string>& more) {
    std::vector<std::string> argv = {"/bin/bash", k.script};
    for (auto& m : more)
        argv.push_back(m);
    RunOpt o;
    o.cwd      = k.cwd;
    o.asNobody = true;
    o.env      = {"PATH=" + p.bin + ":/usr/bin:/bin", "HOME=" + p.base};
    return run(argv, o);
}
/// the common demands on a call that was to run mps
void judge(Case& c, const Place& p, const Fake& f, const std::string& id, const RunResult& res, const std::string& project, const std::string& outDir) {
    std::string r = p.rec + "/" + id;
    REQUIRE(!fs::exists(p.rec + "/outside"), "the script removes files outside the repository: " << readFile(p.rec + "/outside"));
    if (f.missing) {
        REQUIRE(res.status != 0, "there is no build/mps, the script ends with success");
        return;
    }
    REQUIRE(fs::exists(r + "/args"), "build/mps was not run; status " << res.status << ", stderr: " << res.err.substr(0, 300));
    auto a = args(readFile(r + "/args"));
    std::string cwd = readFile(r + "/cwd");
    if (!cwd.empty())
        cwd.pop_back();
    auto full = [&](const std::string& x) { return fs::weakly_canonical(fs::path(cwd) / x).string(); };
    REQUIRE(
        full(option(a, "--setting", "-s")) == fs::weakly_canonical(p.root + "/input/" + project + "/settings.yml").string(),
        "mps is run with the settings '" << option(a, "--setting", "-s") << "' in " << cwd
    );
    REQUIRE(full(option(a, "--output", "-o")) == fs::weakly_canonical(outDir).string(), "mps is run with the output directory '" << option(a, "--output", "-o") << "' in " << cwd << " instead of " << outDir);
    REQUIRE(res.out == f.out, "the standard output of mps (" << f.out.size() << " bytes) is shown as " << res.out.size() << " bytes: " << res.out.substr(0, 200));
    REQUIRE(readFile(outDir + "/console.log") == f.out, "console.log does not hold the standard output of mps");
    REQUIRE(readFile(outDir + "/error.log") == f.err, "error.log does not hold the standard error of mps");
    REQUIRE((res.status == 0) == (f.status == 0), "mps ended with " << f.status << ", the script with " << res.status);
    for (auto& e : f.files)
        REQUIRE(fs::exists(outDir + "/" + e.first) && readFile(outDir + "/" + e.first) == e.second, e.first << " written by mps is missing or changed");
}

void scatter(Src& g, const std::string& dir, int depth) {
    fs::create_directories(dir);
    int n = (int) g.range(0, 4);
    for (int i = 0; i < n; i++)
        writeFile(dir + "/" + g.pick<std::string>({"console.log", "error.log", "settings.yml", "input.prof", "my file", "a", "-rf", "*"}), "old " + std::to_string(g.raw(100)) + "\n");
    if (depth > 0)
        for (const char* s : {"prof", "vtu", "csv"})
            if (g.chance(0.6)) {
                fs::create_directories(dir + "/" + s);
                writeFile(dir + "/" + s + "/output_000" + std::to_string(g.raw(5)) + "." + s, "old\n");
            }
}

void runner(Src& g, Case& c) {
    bool plain = g.chance(0.3);
    Place p    = setUp(g, "runner.sh", plain);
    fs::create_directories(p.root + "/input/dambreak");
    writeFile(p.root + "/input/dambreak/settings.yml", "dim: 2\n");
    std::string other = p.base + "/" + name(g, plain) + "/elsewhere";
    // a directory with a result of its own from which the script may be called
    scatter(g, other + "/result/dambreak", 1);
    scatter(g, other, 0);
    bool before = g.chance(0.8);
    if (before) {
        scatter(g, p.root + "/result/dambreak", 1);
        scatter(g, p.root + "/result/hydrostatic", 1);
        scatter(g, p.root + "/result", 0);
    }
    scatter(g, p.root + "/build/sub", 0);
    Call k = genCall(g, p, "runner.sh", other);
    Fake f = genFake(g);
    install(p, f, "one");
    openUp(scratch());
    auto was = tree(p.base);
    c.note([&](std::ostream& o) {
        o << "repository " << p.root << ", called as " << k.script << " in " << k.cwd << "; mps " << (f.missing ? "missing" : "ends with " + std::to_string(f.status)) << "\nfiles before:\n";
        for (auto& e : was)
            o << "  " << e.first << "\n";
    });
    auto res = call(p, k, {});
    if (res.timeout || (res.status >= 125 && res.status <= 126))
        c.discard();
    std::string out = p.root + "/result/dambreak";
    judge(c, p, f, "one", res, "dambreak", out);
    // what is there now
    auto is          = tree(p.base);
    std::string rel  = fs::relative(out, p.base).string() + "/";
    for (auto& e : was) {
        if (e.first.compare(0, rel.size(), rel) == 0)
            continue;
        REQUIRE(is.count(e.first), "the script removed " << e.first);
        REQUIRE(is[e.first] == e.second, "the script changed " << e.first);
    }
    std::map<std::string, bool> mine = {{"console.log", true}, {"error.log", true}};
    if (!f.missing)
        for (auto& e : f.files)
            mine[e.first] = true;
    for (auto& e : is) {
        if (was.count(e.first) && e.first.compare(0, rel.size(), rel) != 0)
            continue;
        REQUIRE(e.first.compare(0, rel.size(), rel) == 0, "the script wrote " << e.first);
        REQUIRE(mine.count(e.first.substr(rel.size())), "a file of the former run is left: " << e.first);
    }
    if (!f.missing)
        for (auto& l : files::splitLines(readFile(p.rec + "/one/found")))
            REQUIRE(l == "console.log" || l == "error.log" || l.empty(), "mps starts with '" << l << "' in the result directory");
    c.label(plain ? "plain path" : "odd path");
    c.label(f.status ? "mps fails" : "mps succeeds");
    if (before)
        c.label("old result");
    c.nontrivial(!f.missing);
}

void safe(Src& g, Case& c) {
    bool plain = g.chance(0.3);
    Place p    = setUp(g, "safe_runner.sh", plain);
    std::string other = p.base + "/" + name(g, plain) + "/elsewhere";
    scatter(g, other, 0);
    std::vector<std::string> projects;
    for (int i = 0; i < 2; i++) {
        projects.push_back(g.chance(0.4) ? g.pick<std::string>({"dambreak", "hydrostatic"}) : name(g, plain));
        fs::create_directories(p.root + "/input/" + projects.back());
        writeFile(p.root + "/input/" + projects.back() + "/settings.yml", "dim: 2\n");
    }
    if (g.chance(0.7)) {
        scatter(g, p.root + "/result/20240101000000-dambreak-", 1);
        scatter(g, p.root + "/result", 0);
    }
    int n    = (int) g.range(1, 3);
    long now = 1700000000 + (long) g.raw(100000000);
    std::set<std::pair<long, std::string>> seconds; // directories already made
    bool otherClock = false;                        // the script does not ask date
    for (int i = 0; i < n; i++) {
        now += g.pick({0, 0, 1, 7, 60, 3600, 43200, 86400, 7 * 86400, 30 * 86400, 31536000});
        writeFile(p.rec + "/now", std::to_string(now) + "\n");
        std::string id = "call" + std::to_string(i), project = g.pick(projects), note;
        std::vector<std::string> more = {project};
        int kind                      = (int) g.weighted({4, 4, 1, 1});
        if (kind == 1) {
            note = g.pick<std::string>({"note", "first try", "re=3.1", "a*b", "x"});
            more.push_back("--note");
            more.push_back(note);
        } else if (kind == 2)
            more.push_back("--note");
        else if (kind == 3)
            more = g.chance(0.5) ? std::vector<std::string>{} : std::vector<std::string>{""};
        Call k = genCall(g, p, "safe_runner.sh", other);
        Fake f = genFake(g);
        install(p, f, id);
        openUp(scratch());
        auto was = tree(p.base);
        std::map<std::string, bool> dirs;
        if (fs::exists(p.root + "/result"))
            for (auto& e : fs::directory_iterator(p.root + "/result"))
                dirs[e.path().filename()] = true;
        c.note([&](std::ostream& o) {
            o << "repository " << p.root << ", called as " << k.script;
            for (auto& m : more)
                o << " '" << m << "'";
            o << " in " << k.cwd << " at " << now << "; mps " << (f.missing ? "missing" : "ends with " + std::to_string(f.status));
        });
        time_t begin = std::time(nullptr);
        auto res = call(p, k, more);
        if (res.timeout || (res.status >= 125 && res.status <= 126))
            c.discard();
        auto is = tree(p.base);
        for (auto& e : was) {
            REQUIRE(is.count(e.first), "call " << i << " removed " << e.first);
            REQUIRE(is[e.first] == e.second, "call " << i << " changed " << e.first);
        }
        std::vector<std::string> fresh;
        if (fs::exists(p.root + "/result"))
            for (auto& e : fs::directory_iterator(p.root + "/result"))
                if (e.is_directory() && !dirs.count(e.path().filename()))
                    fresh.push_back(e.path().filename());
        if (kind == 3) {
            REQUIRE(res.status != 0, "success without a project name");
            REQUIRE(is == was && fresh.empty(), "files or directories were made without a project name");
            c.label("no project");
            continue;
        }
        if (fresh.empty() && !fs::exists(p.rec + "/" + id + "/args")) {
            // a call in the same second as the one before may refuse
            bool same = seconds.count({now, project + "-" + note});
            if (otherClock) // the calls of a case are within a second of it
                for (auto& d : dirs)
                    same = same || (d.first.size() > 14 && d.first.compare(14, std::string::npos, "-" + project + "-" + note) == 0);
            REQUIRE(res.status != 0 && same && i > 0, "call " << i << " runs nothing; status " << res.status << ", stderr: " << res.err.substr(0, 300));
            c.label("same second");
            continue;
        }
        seconds.insert({now, project + "-" + note});
        REQUIRE(fresh.size() == 1, "call " << i << " makes " << fresh.size() << " directories in result; status " << res.status << ", stderr: " << res.err.substr(0, 300));
        std::string d = fresh[0], tailWant = "-" + project + "-" + note;
        REQUIRE(d.size() == 14 + tailWant.size() && d.find_first_not_of("0123456789") == 14 && d.substr(14) == tailWant, "the result directory is called " << d << " instead of <timestamp>" << tailWant);
        time_t end = std::time(nullptr);
        auto stamp = [](time_t t, bool utc) {
            char b[32];
            std::strftime(b, sizeof b, "%Y%m%d%H%M%S", utc ? std::gmtime(&t) : std::localtime(&t));
            return std::string(b);
        };
        bool timed = false;
        for (bool utc : {true, false}) {
            timed = timed || d.substr(0, 14) == stamp(now, utc);
            for (time_t t = begin; t <= end; t++) // a script that asks another clock
                timed = timed || d.substr(0, 14) == stamp(t, utc);
        }
        otherClock = otherClock || (d.substr(0, 14) != stamp(now, true) && d.substr(0, 14) != stamp(now, false));
        REQUIRE(timed, "the timestamp of " << d << " is not the time of the call, " << stamp(now, true));
        judge(c, p, f, id, res, project, p.root + "/result/" + d);
        std::string rel = fs::relative(p.root + "/result/" + d, p.base).string() + "/";
        for (auto& e : is)
            REQUIRE(was.count(e.first) || e.first.compare(0, rel.size(), rel) == 0, "the script wrote " << e.first);
        c.label(note.empty() ? "no note" : "note");
        c.nontrivial(!f.missing);
    }
    c.label(plain ? "plain path" : "odd path");
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C30.runner",
          "runner.sh called in five ways from repositories with plain and odd paths, with former results in several places and a stand-in for mps with generated "
          "output, files and exit status; non-trivial: mps exists",
          600, 12000, runner},
         {"C30.safe", "1-3 calls of safe_runner.sh with generated project names and notes, also within one second; non-trivial: mps exists and is run", 500, 10000, safe}}
    );
}
