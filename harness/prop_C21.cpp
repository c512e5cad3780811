// C21: a run never overwrites inputs and records them next to its results
#include <fstream>
#include "e2e.hpp"

#include <unistd.h>

using namespace pbt;
using namespace e2e;

namespace {

Snap someParticles(Src& g, bool big) {
    Snap s;
    s.time = 0;
    int n  = big ? 900 : (int) g.range(0, 12);
    for (int i = 0; i < n; i++) {
        Row r;
        r.type = i % 5 == 4 ? ref::Wall : ref::Fluid;
        r.x[0] = (i % 30) * 0.1 + 0.01 * g.unit();
        r.x[1] = (double) (i / 30) * 0.1;
        r.v[0] = g.sym(0.5);
        s.rows.push_back(r);
    }
    return s;
}

std::string odd(Src& g, std::string t, bool yamlFile, bool blanks = true) {
    switch (g.weighted({3, 1, 1, 1, 1})) {
    case 1: // CRLF
        if (yamlFile)
            for (size_t p = 0; (p = t.find('\n', p)) != std::string::npos; p += 2)
                t.replace(p, 1, "\r\n");
        break;
    case 2: // no newline at the end
        if (yamlFile)
            t.resize(t.size() - 1);
        break;
    case 3:
        if (yamlFile)
            t = "# 設定 \xc3\xa9\n" + t + "\n\n# end\n";
        else if (blanks)
            t += "\n\n";
        break;
    case 4:
        if (yamlFile)
            for (int i = 0; i < 300; i++)
                t += "# filler line " + std::to_string(i) + " ------------------------------------------------------\n";
        break;
    }
    return t;
}

/// a directory, link or file: what it is and its bytes
std::map<std::string, std::string> snapshot(const fs::path& root) {
    std::map<std::string, std::string> m;
    for (auto& e : fs::recursive_directory_iterator(root)) {
        std::string k = fs::relative(e.path(), root).string();
        if (e.is_symlink())
            m[k] = "link " + fs::read_symlink(e.path()).string();
        else if (e.is_directory())
            m[k] = "dir";
        else
            m[k] = "file " + readFile(e.path().string());
    }
    return m;
}

void runs(Src& g, Case& c) {
    std::string root = freshDir("c21");
    std::string dirs[] = {"case", "data dir", "out", "other"};
    for (auto& d : dirs)
        fs::create_directories(root + "/" + d);
    std::string ext   = g.pick({".prof", ".csv", ".vtu"});
    std::string sname = g.pick({"settings.yml", "my settings.yaml", "s", "input.d.yml", "設定.yml"});
    std::string pname = std::string(g.pick({"input", "in put", "x.y", "粒子"})) + ext;
    std::string pdir  = g.pick({"case", "data dir", "other"});
    enum Fault {
        None,
        SettingsThere,
        ParticlesThere,
        BothThere,
        SameDir,
        ParticleDir,
        NoSettingsFile,
        NoParticleFile,
        NoOutDir,
        NoS,
        NoO,
        OutIsFile,
        DirThere,
        SameNames,
        SettingsIsDir,
        NoValue,
        LinkThere,
        NFaults
    };
    Fault f = g.chance(0.4) ? None : (Fault) g.range(1, NFaults - 1);
    if (f == SameNames) {
        sname = pname;
        pdir  = "data dir";
    }
    if (f == ParticleDir)
        pdir = "other";
    std::string settings = "case/" + sname, particles = pdir + "/" + pname, out = g.pick({"out", "out/run 1", "other/o"});
    if (f == SameDir)
        out = "case";
    if (f == ParticleDir)
        out = pdir;
    fs::create_directories(root + "/" + out);
    Config conf;
    conf.p.lo   = {-10, -10, 0};
    conf.p.hi   = {10, 10, 0};
    conf.p.dim  = 2;
    conf.p.l0   = 0.1;
    conf.dt     = 0.001;
    int steps   = (int) g.range(0, 2);
    conf.end    = steps ? (steps - 0.5) * conf.dt : 0;
    conf.period = conf.dt * 0.5;
    conf.binary = g.chance(0.5);
    conf.p.implicit = g.chance(0.5);
    std::string rel = fs::path(particles).lexically_relative("case").string();
    conf.particlesPath = "'" + (g.chance(0.3) ? root + "/" + particles : rel) + "'";
    Snap in = someParticles(g, g.chance(0.1));
    std::string ptext = ext == ".csv" ? csvText(in) : ext == ".vtu" ? vtuText(in, false) : profText(in);
    if (f != NoSettingsFile)
        writeFile(root + "/" + settings, odd(g, yaml(conf), true));
    if (f == SettingsIsDir) {
        fs::remove(root + "/" + settings);
        fs::create_directories(root + "/" + settings);
    }
    if (f != NoParticleFile)
        writeFile(root + "/" + particles, odd(g, ptext, false, ext != ".csv"));
    // the files may be given through links, relative or absolute, also through several
    bool linked = false;
    auto link   = [&](const std::string& path) {
        std::string p = root + "/" + path, store = root + "/store/" + (g.chance(0.5) ? "a" : "b c");
        std::string target = store + "/" + fs::path(p).filename().string();
        fs::create_directories(store);
        if (fs::exists(target))
            return;
        fs::rename(p, target);
        bool relative = g.chance(0.6);
        if (g.chance(0.2)) {
            std::string hop = target + ".hop";
            fs::create_symlink(target, hop);
            target = hop;
        }
        fs::create_symlink(relative ? fs::path(target).lexically_relative(fs::path(p).parent_path()).string() : target, p);
        linked = true;
    };
    if (f != NoSettingsFile && f != SettingsIsDir && g.chance(0.15))
        link(settings);
    if (f != NoParticleFile && g.chance(0.1))
        link(particles);
    // unrelated files
    int extra = (int) g.range(0, 4);
    for (int i = 0; i < extra; i++) {
        std::string d = g.pick({out, out + "/prof", out + "/vtu", std::string("case"), std::string("other"), out + "/keep"});
        fs::create_directories(root + "/" + d);
        std::string p = root + "/" + d + "/" + g.pick({"notes.txt", "old.prof", "readme", "settings.yml.bak", ".hidden", "output.log"});
        if (!fs::exists(p))
            writeFile(p, g.pick({"keep me\n", "", "\0\1\2binary"}));
    }
    std::string there = g.pick({std::string("old content\n"), std::string(), std::string("same")});
    auto put = [&](const std::string& name, const std::string& like) { writeFile(root + "/" + out + "/" + name, there == "same" && fs::is_regular_file(like) ? readFile(like) : there); };
    if (f == SettingsThere || f == BothThere)
        put(sname, root + "/" + settings);
    if (f == ParticlesThere || f == BothThere)
        put(pname, root + "/" + particles);
    if (f == DirThere)
        fs::create_directories(root + "/" + out + "/" + (g.chance(0.5) ? sname : pname));
    if (f == LinkThere) {
        writeFile(root + "/other/precious", "precious\n");
        fs::create_symlink(root + "/other/precious", root + "/" + out + "/" + (g.chance(0.5) ? sname : pname));
    }
    if (f == NoOutDir)
        fs::remove_all(root + "/" + out);
    if (f == OutIsFile) {
        fs::remove_all(root + "/" + out);
        writeFile(root + "/" + out, "a file\n");
    }
    // command line
    std::string cwd = root + g.pick({"", "/case", "/other"});
    fs::create_directories(cwd);
    auto arg = [&](const std::string& p) {
        std::string a = root + "/" + p;
        return g.chance(0.5) ? a : fs::path(a).lexically_relative(cwd).string();
    };
    std::vector<std::string> argv{mpsPath()};
    std::string sa = arg(settings), oa = arg(out) + (g.chance(0.2) && f != OutIsFile ? "/" : "");
    auto s = [&] {
        if (f == NoS)
            return;
        argv.push_back(g.pick({"-s", "--setting"}));
        if (!(f == NoValue && g.chance(0.5)))
            argv.push_back(sa);
    };
    auto o = [&] {
        if (f == NoO)
            return;
        argv.push_back(g.pick({"-o", "--output"}));
        if (f != NoValue)
            argv.push_back(oa);
    };
    if (g.chance(0.5) && f != NoValue) {
        o();
        s();
    } else {
        s();
        o();
    }
    auto before = snapshot(root);
    static const char* names[] = {"success", "settings already there", "particles already there", "both already there", "output is the settings directory", "output is the particle directory", "no settings file", "no particle file", "no output directory", "no -s", "no -o", "output is a file", "directory of that name there", "settings and particles have one name", "settings is a directory", "option without value", "link of that name there"};
    c.label(names[f]);
    c.note([&](std::ostream& os) {
        os << names[f] << "\nin " << cwd << ":";
        for (auto& a : argv)
            os << " '" << a << "'";
        os << "\n";
        for (auto& e : before)
            os << "  " << e.first << (e.second == "dir" ? "/" : "") << "\n";
        os << yaml(conf);
    });
    RunOpt ro;
    ro.cwd   = cwd;
    auto res = run(argv, ro);
    REQUIRE(!res.timeout, "mps does not end");
    REQUIRE(!crashed(res), "mps crashed with signal " << -res.status);
    auto after = snapshot(root);
    for (auto& e : before) {
        auto it = after.find(e.first);
        REQUIRE(it != after.end(), e.first << " is gone (mps ended with " << res.status << ")");
        REQUIRE(it->second == e.second, e.first << " was changed (mps ended with " << res.status << ")");
    }
    std::string result;
    for (auto& e : after)
        if (!before.count(e.first) && e.first.find("output_") != std::string::npos)
            result = e.first;
    if (f != None) {
        REQUIRE(res.status != 0, "mps reports success although: " << names[f]);
        REQUIRE(!res.err.empty(), "no message on standard error, case: " << names[f]);
        REQUIRE(result.empty(), "mps failed (" << names[f] << ") and wrote " << result);
        c.nontrivial();
        return;
    }
    REQUIRE(res.status == 0, "mps ended with " << res.status << "\n" << res.err.substr(0, 300));
    for (auto& p : {std::make_pair(settings, sname), std::make_pair(particles, pname)}) {
        auto it = after.find(out + "/" + p.second);
        REQUIRE(it != after.end(), "no copy of " << p.first << " in the output directory");
        REQUIRE(it->second == "file " + readFile(root + "/" + p.first), "the copy of " << p.first << " differs from it");
    }
    // the copies must stay what they are when the originals change later
    if (g.chance(0.5))
        for (auto& p : {std::make_pair(settings, sname), std::make_pair(particles, pname)}) {
            std::string was = after[out + "/" + p.second];
            std::error_code ec;
            auto file = fs::canonical(root + "/" + p.first, ec);
            if (g.chance(0.5))
                std::ofstream(file, std::ios::app) << "changed later\n";
            else
                fs::remove(file, ec);
            std::string copy = root + "/" + out + "/" + p.second;
            REQUIRE(fs::is_regular_file(copy) && "file " + readFile(copy) == was, "the copy of " << p.first << " changes with the original");
        }
    if (linked)
        c.label("given through links");
    REQUIRE(!result.empty(), "no result was written");
    for (auto& e : after) // everything new belongs to the run
        if (!before.count(e.first))
            REQUIRE(e.first.rfind(out + "/", 0) == 0, "mps wrote " << e.first << " outside the output directory");
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C21.runs",
          "runs of mps in generated directory trees (names with spaces and UTF-8, CRLF, large files, relative and absolute arguments, unrelated files), "
          "with one of 16 obstacles or none; every file of the tree is compared before and after; non-trivial: all",
          6000, 150000, runs}}
    );
}
