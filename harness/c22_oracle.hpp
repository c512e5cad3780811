// Independent verdict on a particle file, shared by the property-based check and the fuzz target of C22.
//
// Valid:  the loader has to return exactly the particles found here
// Broken: the loader has to end in an error
// Grey:   either; but whatever is returned has to consist of values that stand in the file, or documented defaults
#pragma once
#include "filebridge.hpp"

#include <set>

namespace c22 {

using namespace files;

enum Verdict { Valid, Broken, Grey };
struct Judgement {
    Verdict v = Grey;
    std::string why;
    Snap snap; ///< if Valid
    bool rowsKnown = false; ///< Grey only in the declared number: rows are as in snap if accepted
    static Judgement broken(const std::string& w) {
        Judgement j;
        j.v   = Broken;
        j.why = w;
        return j;
    }
    static Judgement grey(const std::string& w) {
        Judgement j;
        j.why = w;
        return j;
    }
};

enum Num { NumOk, NumBad, NumGrey };
inline bool plainNumber(const std::string& t) { // [+-]digits[.digits][e[+-]digits]
    size_t i = 0, dig = 0;
    auto d   = [&] { size_t n = 0; while (i < t.size() && isdigit((unsigned char) t[i])) i++, n++; return n; };
    if (i < t.size() && (t[i] == '+' || t[i] == '-'))
        i++;
    dig += d();
    if (i < t.size() && t[i] == '.') {
        i++;
        dig += d();
    }
    if (!dig)
        return false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        i++;
        if (i < t.size() && (t[i] == '+' || t[i] == '-'))
            i++;
        if (!d())
            return false;
    }
    return i == t.size();
}
inline std::string withoutLeadingSpace(const std::string& t) {
    size_t i = 0;
    while (i < t.size() && isspace((unsigned char) t[i]))
        i++;
    return t.substr(i);
}
inline Num realToken(const std::string& t, double& d) {
    if (!t.empty() && isspace((unsigned char) t[0])) // \r, \v, \f before a number: harmless, but nothing requires it
        return realToken(withoutLeadingSpace(t), d) == NumBad ? NumBad : NumGrey;
    if (plainNumber(t)) {
        parseDouble(t, d);
        if (!std::isfinite(d) || (d != 0 && std::fabs(d) < 1e-300) || (d == 0 && t.find_first_of("123456789") < t.find_first_of("eE")))
            return NumGrey; // overflow, underflow
        return NumOk;
    }
    if (t.find('\0') != std::string::npos)
        return NumGrey;
    if (parseDouble(t, d))
        return NumGrey; // nan, inf, hexadecimal
    std::string u;
    for (char k : t)
        u += (char) tolower((unsigned char) k);
    if (u.find("nan") != std::string::npos)
        return NumGrey;
    return NumBad;
}
inline Num intToken(const std::string& t, int& v) {
    if (!t.empty() && isspace((unsigned char) t[0]))
        return intToken(withoutLeadingSpace(t), v) == NumBad ? NumBad : NumGrey;
    size_t i = !t.empty() && (t[0] == '+' || t[0] == '-') ? 1 : 0;
    bool dig = i < t.size();
    for (size_t k = i; k < t.size(); k++)
        dig = dig && isdigit((unsigned char) t[k]);
    if (dig) {
        long long l;
        if (t.size() > 12 || !parseInt(t, l) || l != (int) l)
            return NumGrey;
        v = (int) l;
        return NumOk;
    }
    if (t.find('\0') != std::string::npos)
        return NumGrey;
    return NumBad;
}
/// time and count lines: a number, possibly with a comment after it
inline Num prefixToken(const std::string& l, double& d) {
    char* e = nullptr;
    std::string s(l.c_str());
    d = std::strtod(s.c_str(), &e);
    if (e == s.c_str())
        return l.find('\0') != std::string::npos ? NumGrey : NumBad;
    return plainNumber(s) && s.size() == l.size() ? realToken(s, d) : NumGrey;
}

inline Judgement judgeProf(const std::string& text) {
    std::istringstream in(text);
    std::vector<std::string> tok;
    std::string t;
    while (in >> t)
        tok.push_back(t);
    Judgement j;
    if (tok.size() < 2)
        return Judgement::broken("no time or no count");
    bool grey = false;
    int n     = 0;
    switch (realToken(tok[0], j.snap.time)) {
    case NumBad: return Judgement::broken("time '" + tok[0] + "'");
    case NumGrey: grey = true; break;
    default: break;
    }
    switch (intToken(tok[1], n)) {
    case NumBad: {
        double d; // 3.0 or 1e1
        return realToken(tok[1], d) == NumBad ? Judgement::broken("count '" + tok[1] + "'") : Judgement::grey("count " + tok[1]);
    }
    case NumGrey: return Judgement::grey("count " + tok[1]);
    default: break;
    }
    if (n < 0)
        return Judgement::grey("negative count");
    if (tok.size() < 2 + 7 * (size_t) n)
        return Judgement::broken("declares " + tok[1] + " particles but ends before they are complete");
    size_t k = 2;
    for (int i = 0; i < n; i++) {
        Row r;
        auto bad = [&](size_t at) { return "particle " + std::to_string(i) + ": '" + tok[at] + "'"; };
        switch (intToken(tok[k], r.type)) {
        case NumBad: {
            double d;
            if (realToken(tok[k], d) == NumBad)
                return Judgement::broken(bad(k));
            grey = true;
            break;
        }
        case NumGrey: grey = true; break;
        default: break;
        }
        k++;
        for (int c = 0; c < 6; c++, k++)
            switch (realToken(tok[k], c < 3 ? r.x[c] : r.v[c - 3])) {
            case NumBad: return Judgement::broken(bad(k));
            case NumGrey: grey = true; break;
            default: break;
            }
        j.snap.rows.push_back(r);
    }
    j.v = grey ? Grey : Valid;
    return j;
}

inline std::string trimmed(std::string s) {
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t'))
        s.pop_back();
    size_t i = s.find_first_not_of(" \t");
    return i == std::string::npos ? "" : s.substr(i);
}

inline Judgement judgeCsv(const std::string& text) {
    if (text.find('\0') != std::string::npos || text.size() > (1u << 20))
        return Judgement::grey("NUL or very long");
    if (text.compare(0, 3, "\xEF\xBB\xBF") == 0)
        return Judgement::grey("byte order mark");
    auto l = splitLines(text);
    Judgement j;
    bool grey = false;
    if (l.size() < 3)
        return Judgement::broken("no header");
    double cnt = 0;
    switch (prefixToken(l[0], j.snap.time)) {
    case NumBad: return Judgement::broken("time '" + l[0] + "'");
    case NumGrey: grey = true; break;
    default: break;
    }
    switch (prefixToken(l[1], cnt)) {
    case NumBad: return Judgement::broken("count '" + l[1] + "'");
    case NumGrey: grey = true; break;
    default: break;
    }
    auto head = splitOn(l[2], ',');
    std::set<std::string> names;
    static const std::set<std::string> known = {"type", "x", "y", "z", "vx", "vy", "vz", "fluidType", "density"};
    for (auto& h : head) {
        if (trimmed(h) != h)
            grey = true;
        h = trimmed(h);
        if (!names.insert(h).second || !known.count(h))
            grey = true; // repeated or unknown column
    }
    if (names.size() != head.size() && !names.empty())
        return Judgement::grey("repeated column");
    for (const char* n : {"type", "x", "y", "z", "vx", "vy", "vz"})
        if (!names.count(n))
            return Judgement::broken(std::string("no column ") + n);
    for (size_t k = 3; k < l.size(); k++) {
        if (trimmed(l[k]).empty()) {
            grey = true;
            continue;
        }
        auto cell = splitOn(l[k], ',');
        if (cell.size() != head.size())
            return Judgement::broken("row with " + std::to_string(cell.size()) + " cells, header has " + std::to_string(head.size()));
        Row r;
        for (size_t i = 0; i < cell.size(); i++) {
            const std::string& n = head[i];
            std::string v        = trimmed(cell[i]);
            if (v != cell[i])
                grey = true;
            Num q = NumOk;
            if (n == "type" || n == "fluidType") {
                if (n == "fluidType" && v.empty()) {
                    grey = true;
                    continue;
                }
                q = intToken(v, n == "type" ? r.type : r.fluidType);
            } else if (n == "density") {
                if (v.empty())
                    continue;
                q = realToken(v, r.rho);
            } else if (known.count(n))
                q = realToken(v, n[0] == 'v' ? r.v[n[1] - 'x'] : r.x[n[0] - 'x']);
            if (q == NumBad)
                return Judgement::broken("row " + std::to_string(k - 3) + ": " + n + " is '" + cell[i] + "'");
            if (q == NumGrey)
                grey = true;
        }
        j.snap.rows.push_back(r);
    }
    if (cnt != (double) j.snap.rows.size()) { // the declared number is not binding
        j.rowsKnown = !grey;
        grey        = true;
    }
    j.v = grey ? Grey : Valid;
    return j;
}

/// a VTU file: broken if a line of an array that is read does not hold what it has to.  Only files in the
/// exporter's line layout (one tag per line) are judged.
inline Judgement judgeVtu(const std::string& text) {
    if (text.find("<AppendedData") != std::string::npos)
        return Judgement::broken("binary data");
    if (text.find('\0') != std::string::npos)
        return Judgement::grey("NUL");
    auto l = splitLines(text);
    static const std::map<std::string, std::pair<int, bool>> arr = {{"Position", {3, true}}, {"Velocity", {3, true}}, {"Particle Type", {1, false}},
        {"Fluid Type", {1, false}}, {"Density", {1, true}}};
    for (size_t i = 0; i < l.size(); i++) {
        size_t a = l[i].find("<DataArray ");
        if (a != 0 || l[i].back() != '>' || l[i].find('<', 1) != std::string::npos)
            continue;
        size_t n = l[i].find("Name=\"");
        if (n == std::string::npos)
            continue;
        std::string name = l[i].substr(n + 6, l[i].find('"', n + 6) - n - 6);
        auto it          = arr.find(name);
        if (it == arr.end())
            continue;
        // another keyword in the same tag makes the reading ambiguous
        int hits = 0;
        for (const char* k : {"Position", "Velocity", "Particle Type", "Fluid Type", "Density", "Time"})
            hits += l[i].find(k) != std::string::npos;
        if (hits != 1)
            continue;
        size_t k = i + 1;
        std::string broken;
        for (; k < l.size() && l[k].find("</DataArray>") == std::string::npos; k++) {
            if (l[k].find('<') != std::string::npos)
                break; // array not closed: no verdict
            std::istringstream in(l[k]);
            std::string t;
            int c = 0;
            while (in >> t) {
                double d;
                int v;
                Num q = it->second.second ? realToken(t, d) : intToken(t, v);
                if (q == NumBad)
                    broken = name + " line '" + l[k] + "'";
                c++;
            }
            if (c < it->second.first)
                broken = name + " line '" + l[k] + "' has " + std::to_string(c) + " values";
        }
        if (k < l.size() && l[k] == "</DataArray>") {
            if (!broken.empty() && i + 1 < l.size()) {
                // only if the parser certainly gets here: no unclosed array before
                return Judgement::broken(broken);
            }
            i = k;
        } else
            return Judgement::grey("structure");
    }
    return Judgement::grey("vtu");
}

/// every number that stands in the file
inline void numbersOf(const std::string& text, std::multiset<double>& vals, bool& nan) {
    std::string t;
    nan      = false;
    if (text.compare(0, 3, "\xEF\xBB\xBF") == 0) { // byte order mark
        numbersOf(text.substr(3), vals, nan);
        return;
    }
    auto put = [&](const std::string& s) {
        double d;
        if (s.size() && parseDouble(s, d)) {
            if (std::isnan(d))
                nan = true;
            else
                vals.insert(d);
        }
    };
    for (size_t i = 0; i <= text.size(); i++) {
        char k = i < text.size() ? text[i] : ' ';
        if (isspace((unsigned char) k) || k == ',' || k == '<' || k == '>' || k == 0) {
            put(t);
            t.clear();
        } else
            t += k;
    }
    for (auto& l : splitLines(text)) { // time: leading number of a line
        char* e  = nullptr;
        double d = std::strtod(l.c_str(), &e);
        if (e != l.c_str()) {
            if (std::isnan(d))
                nan = true;
            else
                vals.insert(d);
        }
    }
}

enum Format { Prof, Csv, VtuF };

struct Outcome {
    bool accepted = false;
    std::pair<double, Particles> got;
    std::string error;
};

/// returns an empty string if the outcome is allowed, otherwise what is wrong
inline std::string check(Format f, const std::string& text, const Outcome& o, double dens) {
    Judgement j = f == Prof ? judgeProf(text) : f == Csv ? judgeCsv(text) : judgeVtu(text);
    std::ostringstream m;
    m.precision(17);
    if (j.v == Broken && o.accepted) {
        m << "broken file accepted (" << j.why << ") as " << o.got.second.size() << " particles";
        return m.str();
    }
    if (j.v == Valid && !o.accepted)
        return "valid file refused: " + o.error;
    if (!o.accepted)
        return "";
    auto& ps = o.got.second;
    if (j.v == Valid || j.rowsKnown) {
        if (j.v == Valid && !files::close(j.snap.time, o.got.first)) {
            m << "time " << o.got.first << ", the file says " << j.snap.time;
            return m.str();
        }
        // with a wrong declared number of csv rows: a prefix or all of them
        size_t want = j.snap.rows.size();
        if (j.v == Valid ? (size_t) ps.size() != want : (size_t) ps.size() > want) {
            m << ps.size() << " particles, the file has " << want;
            return m.str();
        }
        for (int i = 0; i < ps.size(); i++) {
            auto& r       = j.snap.rows[i];
            const auto& p = ps[i];
            double rho    = r.rho >= 0 ? r.rho : dens;
            bool ok       = p.id == i && static_cast<int>(p.type) == r.type && files::close(rho, p.density) && p.fluidType == (f == Csv ? r.fluidType : 0);
            for (int k = 0; k < 3; k++)
                ok = ok && files::close(r.x[k], p.position[k]) && files::close(r.v[k], p.velocity[k]);
            if (!ok) {
                m << "particle " << i << " is not what the file says: type " << static_cast<int>(p.type) << " ft " << p.fluidType << " x "
                  << p.position.transpose() << " v " << p.velocity.transpose() << " rho " << p.density << "; expected " << r;
                return m.str();
            }
        }
        return "";
    }
    // every value stands in the file or is a default
    std::multiset<double> vals;
    bool nan;
    numbersOf(text, vals, nan);
    auto known = [&](double d) {
        if (std::isnan(d))
            return nan;
        if (std::isinf(d) || d == 0 || std::fabs(d) < 1e-300) // overflow and underflow are the reader's business
            return true;
        for (auto it = vals.lower_bound(d - 1e-11 * std::fabs(d)); it != vals.end() && *it <= d + 1e-11 * std::fabs(d); ++it)
            if (files::close(*it, d))
                return true;
        return false;
    };
    if (!std::isnan(o.got.first) && !known(o.got.first)) {
        m << "time " << o.got.first << " does not stand in the file";
        return m.str();
    }
    for (int i = 0; i < ps.size(); i++) {
        const auto& p = ps[i];
        bool ok       = known((double) static_cast<int>(p.type)) && known((double) p.fluidType) && (p.density == dens || known(p.density));
        for (int k = 0; k < 3; k++)
            ok = ok && known(p.position[k]) && known(p.velocity[k]);
        if (!ok) {
            m << "particle " << i << " has a value that does not stand in the file: type " << static_cast<int>(p.type) << " ft " << p.fluidType << " x "
              << p.position.transpose() << " v " << p.velocity.transpose() << " rho " << p.density;
            return m.str();
        }
    }
    return "";
}

} // namespace c22
