// C25: prof_to_csv.sh converts every particle of a profile
#include "e2e.hpp"
#include "filebridge.hpp"

using namespace pbt;
using namespace e2e;

namespace {

std::string script() {
    return std::string(getenv("PBT_REPO")) + "/scripts/prof_to_csv.sh";
}

void convert(Src& g, Case& c) {
    std::string root = freshDir("c25");
    Snap s           = files::genSnap(g, 40, true, g.chance(0.6));
    bool blankLines = g.chance(0.3), layout = g.chance(0.3), finalNewline = g.chance(0.7);
    std::string nl = g.chance(0.1) ? "\r\n" : "\n";
    auto gap       = [&]() -> std::string { return layout ? g.pick({" ", "  ", "\t", "   ", " \t "}) : " "; };
    auto edge      = [&]() -> std::string { return layout ? g.pick({"", "", " ", "\t", "  "}) : ""; };
    auto blank     = [&] {
        std::string t;
        while (blankLines && g.more(0.4))
            t += edge() + nl;
        return t;
    };
    std::string t = files::notation(g, s.time) + nl + std::to_string(s.rows.size());
    for (auto& r : s.rows) {
        t += nl + blank() + edge() + std::to_string(r.type);
        for (double d : r.x)
            t += gap() + files::notation(g, d);
        for (double d : r.v)
            t += gap() + files::notation(g, d);
        t += edge();
    }
    std::string tail = finalNewline ? nl + blank() : "";
    t += tail;
    c.note([&](std::ostream& o) {
        o << "profile (" << t.size() << " bytes" << (finalNewline ? "" : ", no final newline") << (nl.size() > 1 ? ", CRLF" : "") << "):\n" << t.substr(0, 1500);
    });
    std::string in  = g.pick({"in.prof", "my input.prof", "sub/a b.prof", "in"});
    std::string out = g.pick({"out.csv", "my output.csv", "sub/o.csv"});
    fs::create_directories(root + "/sub");
    writeFile(root + "/" + in, t);
    if (g.chance(0.3))
        writeFile(root + "/" + out, "old content that has to go,1,2,3\n1,2,3,4,5,6,7\n");
    RunOpt o;
    o.cwd    = root;
    bool abs = g.chance(0.3);
    auto res = run({"/bin/bash", script(), (abs ? root + "/" : "") + in, (abs ? root + "/" : "") + out}, o);
    if (res.timeout || res.status == 126 || res.status == 127)
        c.discard();
    REQUIRE(res.status == 0, "the script ended with " << res.status << ": " << res.err.substr(0, 300));
    REQUIRE(readFile(root + "/" + in) == t, "the script changed the profile");
    std::pair<double, Particles> a, b;
    std::string err;
    Guarded r;
    {
        CaptureStderr cap;
        r   = guarded([&] { a = ParticlesLoader::Prof().load(root + "/" + in, 1000); });
        err = cap.take();
    }
    if (!r.ok()) // C16's business
        c.discard();
    std::string csv = readFile(root + "/" + out);
    {
        CaptureStderr cap;
        r   = guarded([&] { b = ParticlesLoader::Csv().load(root + "/" + out, 1000); });
        err = cap.take();
    }
    REQUIRE(r.ok(), "the csv loader refuses the output: " << r.what << err << "\n" << csv.substr(0, 1500));
    auto cmp = [&](double want, double got, const char* what, int i) {
        REQUIRE(files::close(want, got), what << " of particle " << i << " is " << got << " in the csv file, " << want << " in the profile");
    };
    cmp(a.first, b.first, "time", -1);
    REQUIRE(a.second.size() == b.second.size(), b.second.size() << " particles in the csv file, " << a.second.size() << " in the profile");
    REQUIRE((size_t) a.second.size() == s.rows.size(), a.second.size() << " particles loaded, " << s.rows.size() << " in the profile");
    for (int i = 0; i < a.second.size(); i++) {
        auto &p = a.second[i], &q = b.second[i];
        REQUIRE(p.type == q.type, "type of particle " << i << " is " << (int) q.type << " in the csv file, " << (int) p.type << " in the profile");
        for (int d = 0; d < 3; d++) {
            cmp(p.position[d], q.position[d], "position", i);
            cmp(p.velocity[d], q.velocity[d], "velocity", i);
        }
    }
    auto lines = files::splitLines(csv);
    REQUIRE(lines.size() >= 3 && std::atol(lines[1].c_str()) == (long) s.rows.size(), "declared number of particles is " << (lines.size() > 1 ? lines[1] : "missing"));
    c.label(s.rows.empty() ? "empty" : finalNewline ? "final newline" : "no final newline");
    if (tail.size() > nl.size())
        c.label("trailing blank lines");
    if (layout)
        c.label("free layout");
    if (nl.size() > 1)
        c.label("CRLF");
    c.nontrivial(s.rows.size() >= 2);
}

void arguments(Src& g, Case& c) {
    std::string root = freshDir("c25a");
    int n            = g.pick({0, 1, 3, 4, 7});
    writeFile(root + "/in.prof", "0\n1\n1 0 0 0 0 0 0\n");
    if (g.chance(0.5))
        writeFile(root + "/out.csv", "mine\n");
    std::vector<std::string> argv = {"/bin/bash", script()};
    for (int i = 0; i < n; i++)
        argv.push_back(g.pick({"in.prof", "out.csv", "", "new.csv", "-h", "a b"}));
    auto before = tree(root);
    c.note([&](std::ostream& o) {
        for (size_t i = 2; i < argv.size(); i++)
            o << "'" << argv[i] << "' ";
    });
    RunOpt o;
    o.cwd    = root;
    auto res = run(argv, o);
    if (res.timeout || res.status == 126 || res.status == 127)
        c.discard();
    REQUIRE(res.status != 0, "success with " << n << " arguments");
    REQUIRE(tree(root) == before, "files changed with " << n << " arguments");
    c.label(std::to_string(n) + " arguments");
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C25.convert", "0-40 particles with any finite values in several notations, spacing, blank lines, line ends, with or without a final newline; the csv "
                         "loader on the output against the profile loader on the input; non-trivial: at least 2 particles",
          6000, 150000, convert},
         {"C25.arguments", "0, 1 or more than 2 arguments in a directory with an input and sometimes an output; non-trivial: all", 400, 5000, arguments}}
    );
}
