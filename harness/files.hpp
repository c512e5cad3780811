// Independent readers and writers for MPS-Basic's file formats, and a generator of particle data.
// Nothing of MPS-Basic is used here.
#pragma once

#include "pbt.hpp"

#include <cctype>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace files {

struct Row {
    int type = 0, fluidType = 0;
    double x[3] = {0, 0, 0}, v[3] = {0, 0, 0};
    double rho = -1; ///< negative: none given
    double p = 0, n = 0, ratio = 0;
    int bc = 0;
};
struct Snap {
    double time = 0;
    std::vector<Row> rows;
};
struct Bad : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// ------------------------------------------------------------ numbers
inline bool parseDouble(const std::string& t, double& d) {
    if (t.empty() || std::isspace((unsigned char) t[0]))
        return false;
    char* e = nullptr;
    d       = std::strtod(t.c_str(), &e);
    return *e == 0 && e == t.c_str() + t.size();
}
inline bool parseInt(const std::string& t, long long& d) {
    if (t.empty() || std::isspace((unsigned char) t[0]))
        return false;
    char* e = nullptr;
    errno   = 0;
    d       = std::strtoll(t.c_str(), &e, 10);
    return errno == 0 && *e == 0 && e == t.c_str() + t.size();
}
inline std::string fmt(const char* f, double d) {
    char b[512];
    snprintf(b, sizeof b, f, d);
    return b;
}
inline bool sameBits(double a, double b) {
    return std::memcmp(&a, &b, sizeof a) == 0;
}
/// equal to 6 significant digits
inline bool printed(double want, double got) {
    if (std::isnan(want))
        return std::isnan(got);
    if (std::isinf(want))
        return want == got;
    return std::fabs(want - got) <= 5.00001e-6 * std::fabs(want) + 5e-324;
}
inline bool close(double want, double got) {
    return want == got || std::fabs(want - got) <= 1e-12 * std::fabs(want) + 1e-307;
}

// ------------------------------------------------------------ text formats
inline std::vector<std::string> splitLines(const std::string& s) {
    std::vector<std::string> o;
    size_t a = 0;
    while (a < s.size()) {
        size_t b = s.find('\n', a);
        if (b == std::string::npos)
            b = s.size();
        std::string l = s.substr(a, b - a);
        if (!l.empty() && l.back() == '\r')
            l.pop_back();
        o.push_back(l);
        a = b + 1;
    }
    return o;
}
inline std::vector<std::string> splitOn(const std::string& s, char c) {
    std::vector<std::string> o(1);
    for (char k : s)
        if (k == c)
            o.emplace_back();
        else
            o.back() += k;
    return o;
}
inline double needDouble(const std::string& t, const char* what) {
    double d;
    if (!parseDouble(t, d))
        throw Bad(std::string("not a number for ") + what + ": '" + t + "'");
    return d;
}
inline long long needInt(const std::string& t, const char* what) {
    long long d;
    if (!parseInt(t, d))
        throw Bad(std::string("not an integer for ") + what + ": '" + t + "'");
    return d;
}

/// strict: exactly the declared number of particles and nothing after them
inline Snap parseProf(const std::string& text) {
    std::istringstream in(text);
    auto tok = [&](const char* what) {
        std::string t;
        if (!(in >> t))
            throw Bad(std::string("profile ends before ") + what);
        return t;
    };
    Snap s;
    s.time      = needDouble(tok("time"), "time");
    long long n = needInt(tok("count"), "count");
    for (long long i = 0; i < n; i++) {
        Row r;
        r.type = (int) needInt(tok("type"), "type");
        for (double& d : r.x)
            d = needDouble(tok("position"), "position");
        for (double& d : r.v)
            d = needDouble(tok("velocity"), "velocity");
        s.rows.push_back(r);
    }
    std::string rest;
    if (in >> rest)
        throw Bad("data after the last particle: " + rest);
    return s;
}

/// strict: header by name, exactly the declared number of rows
inline Snap parseCsv(const std::string& text) {
    auto l = splitLines(text);
    if (l.size() < 3)
        throw Bad("csv file has fewer than 3 lines");
    Snap s;
    s.time      = needDouble(l[0], "time");
    long long n = needInt(l[1], "count");
    auto head   = splitOn(l[2], ',');
    if ((long long) l.size() - 3 != n)
        throw Bad("csv file declares " + l[1] + " particles and has " + std::to_string(l.size() - 3) + " rows");
    for (size_t k = 3; k < l.size(); k++) {
        auto cell = splitOn(l[k], ',');
        if (cell.size() != head.size())
            throw Bad("row with " + std::to_string(cell.size()) + " cells: " + l[k]);
        Row r;
        std::map<std::string, double*> dst = {
            {"x", &r.x[0]}, {"y", &r.x[1]}, {"z", &r.x[2]}, {"vx", &r.v[0]}, {"vy", &r.v[1]}, {"vz", &r.v[2]}, {"density", &r.rho}};
        size_t seen = 0;
        for (size_t i = 0; i < head.size(); i++) {
            if (head[i] == "type")
                r.type = (int) needInt(cell[i], "type"), seen++;
            else if (head[i] == "fluidType")
                r.fluidType = (int) needInt(cell[i], "fluidType");
            else if (dst.count(head[i]))
                *dst[head[i]] = needDouble(cell[i], head[i].c_str()), seen += head[i] != "density";
            // other columns are not our business
        }
        if (seen != 7)
            throw Bad("missing column in header " + l[2]);
        s.rows.push_back(r);
    }
    return s;
}

// ------------------------------------------------------------ XML / VTK
struct Xml {
    std::string name;
    std::map<std::string, std::string> attr;
    std::vector<Xml> kids;
    std::string text;
    const Xml* child(const std::string& n) const {
        for (auto& k : kids)
            if (k.name == n)
                return &k;
        return nullptr;
    }
    std::string get(const std::string& a) const {
        auto it = attr.find(a);
        return it == attr.end() ? "" : it->second;
    }
};

class XmlParser {
public:
    XmlParser(const std::string& s) : s_(s) {}
    size_t rawBegin = std::string::npos; ///< first byte after the '_' of raw appended data
    size_t rawEnd   = 0;                 ///< set by the caller through `rawLength`
    std::function<size_t(const std::vector<Xml>&, size_t)> rawLength; ///< length of the raw section

    Xml parse() {
        ws();
        if (s_.compare(i_, 5, "<?xml") == 0) {
            size_t e = s_.find("?>", i_);
            if (e == std::string::npos)
                throw Bad("unterminated XML declaration");
            i_ = e + 2;
        }
        ws();
        Xml root = element();
        ws();
        if (i_ != s_.size())
            throw Bad("data after the root element at byte " + std::to_string(i_));
        return root;
    }

private:
    const std::string& s_;
    size_t i_ = 0;
    std::vector<Xml> open_;

    void ws() {
        while (i_ < s_.size() && std::isspace((unsigned char) s_[i_]))
            i_++;
    }
    std::string nameTok() {
        size_t b = i_;
        while (i_ < s_.size() && (std::isalnum((unsigned char) s_[i_]) || strchr("_-.:", s_[i_])))
            i_++;
        if (b == i_ || std::isdigit((unsigned char) s_[b]))
            throw Bad("bad XML name at byte " + std::to_string(b));
        return s_.substr(b, i_ - b);
    }
    Xml element() {
        if (i_ >= s_.size() || s_[i_] != '<')
            throw Bad("expected '<' at byte " + std::to_string(i_));
        i_++;
        Xml e;
        e.name = nameTok();
        for (;;) {
            size_t b = i_;
            ws();
            if (i_ >= s_.size())
                throw Bad("file ends inside a tag");
            if (s_[i_] == '/' || s_[i_] == '>')
                break;
            if (b == i_)
                throw Bad("attributes not separated at byte " + std::to_string(i_));
            std::string a = nameTok();
            ws();
            if (i_ >= s_.size() || s_[i_++] != '=')
                throw Bad("attribute without value: " + a);
            ws();
            char q = i_ < s_.size() ? s_[i_] : 0;
            if (q != '"' && q != '\'')
                throw Bad("attribute value not quoted: " + a);
            size_t z = s_.find(q, ++i_);
            if (z == std::string::npos)
                throw Bad("unterminated attribute " + a);
            std::string v = s_.substr(i_, z - i_);
            if (v.find('<') != std::string::npos)
                throw Bad("'<' in attribute " + a);
            if (!e.attr.emplace(a, v).second)
                throw Bad("attribute twice: " + a);
            i_ = z + 1;
        }
        if (s_[i_] == '/') {
            if (s_.compare(i_, 2, "/>") != 0)
                throw Bad("bad empty tag at byte " + std::to_string(i_));
            i_ += 2;
            return e;
        }
        i_++;
        open_.push_back(e);
        if (e.name == "AppendedData" && e.get("encoding") == "raw") {
            ws();
            if (i_ >= s_.size() || s_[i_] != '_')
                throw Bad("raw appended data does not start with '_'");
            rawBegin  = ++i_;
            size_t n  = rawLength ? rawLength(open_, rawBegin) : 0;
            if (rawBegin + n > s_.size())
                throw Bad("raw appended data is shorter than its arrays");
            i_ += n;
            rawEnd = i_;
            ws();
        }
        for (;;) {
            size_t b = i_;
            while (i_ < s_.size() && s_[i_] != '<') {
                if (s_[i_] == '&')
                    throw Bad("entity in text");
                if ((unsigned char) s_[i_] < 32 && !std::isspace((unsigned char) s_[i_]))
                    throw Bad("control character in text at byte " + std::to_string(i_));
                i_++;
            }
            open_.back().text += s_.substr(b, i_ - b);
            if (i_ >= s_.size())
                throw Bad("file ends inside <" + e.name + ">");
            if (s_.compare(i_, 2, "</") == 0) {
                i_ += 2;
                std::string n = nameTok();
                ws();
                if (i_ >= s_.size() || s_[i_] != '>')
                    throw Bad("bad closing tag " + n);
                i_++;
                if (n != e.name)
                    throw Bad("<" + e.name + "> closed by </" + n + ">");
                Xml r = open_.back();
                open_.pop_back();
                return r;
            }
            Xml k = element();
            open_.back().kids.push_back(k);
        }
    }
};

struct Array {
    std::string name, type, format;
    size_t comps = 1, tuples = 0;
    std::vector<double> d;          ///< every value (integers are exact)
    size_t offset = 0, bytes = 0;   ///< appended
};
inline size_t typeSize(const std::string& t) {
    static const std::map<std::string, size_t> m = {{"Int8", 1}, {"UInt8", 1}, {"Int16", 2}, {"UInt16", 2}, {"Int32", 4},
        {"UInt32", 4}, {"Int64", 8}, {"UInt64", 8}, {"Float32", 4}, {"Float64", 8}};
    auto it = m.find(t);
    if (it == m.end())
        throw Bad("unknown VTK type " + t);
    return it->second;
}
struct Vtu {
    Snap snap;
    bool binary = false;
    std::map<std::string, Array> point, cells, field;
    Array points;
};

/// reads a .vtu file (ascii or appended raw) by the rules of the VTK file format documentation
inline Vtu parseVtu(const std::string& s) {
    XmlParser xp(s);
    Vtu out;
    auto intAttr = [](const Xml& x, const char* a) {
        std::string v = x.get(a);
        long long k;
        if (!parseInt(v, k) || k < 0)
            throw Bad(std::string("attribute ") + a + " of <" + x.name + "> is '" + v + "'");
        return (size_t) k;
    };
    bool big = false, h64 = false;
    auto rd  = [&](size_t at, size_t n) { // unsigned integer of n bytes in declared byte order
        if (at + n > s.size() || at + n < at)
            throw Bad("appended data: read past the end of the file");
        uint64_t v = 0;
        for (size_t k = 0; k < n; k++)
            v |= (uint64_t) (unsigned char) s[at + (big ? n - 1 - k : k)] << (8 * k);
        return v;
    };
    auto header = [&](const Xml& root) {
        if (root.name != "VTKFile" || root.get("type") != "UnstructuredGrid")
            throw Bad("not an UnstructuredGrid VTKFile");
        std::string bo = root.get("byte_order");
        if (bo != "LittleEndian" && bo != "BigEndian")
            throw Bad("byte_order is '" + bo + "'");
        big            = bo == "BigEndian";
        std::string ht = root.get("header_type");
        if (ht != "" && ht != "UInt32" && ht != "UInt64")
            throw Bad("header_type is '" + ht + "'");
        h64 = ht == "UInt64";
    };
    std::function<void(const Xml&, std::vector<const Xml*>&)> arrays = [&](const Xml& x, std::vector<const Xml*>& o) {
        if (x.name == "DataArray")
            o.push_back(&x);
        for (auto& k : x.kids)
            arrays(k, o);
    };
    // length of the raw section: blocks must tile it exactly
    xp.rawLength = [&](const std::vector<Xml>& open, size_t begin) {
        header(open[0]);
        std::vector<const Xml*> as;
        for (auto& x : open)
            arrays(x, as);
        std::map<size_t, std::pair<size_t, std::string>> blocks;
        for (auto* a : as) {
            if (a->get("format") != "appended")
                continue;
            size_t off = intAttr(*a, "offset"), hs = h64 ? 8 : 4;
            uint64_t n = rd(begin + off, hs);
            if (n > s.size())
                throw Bad("array " + a->get("Name") + ": length header " + std::to_string(n) + " exceeds the file");
            if (!blocks.emplace(off, std::make_pair(hs + (size_t) n, a->get("Name"))).second)
                throw Bad("two arrays at offset " + std::to_string(off));
        }
        size_t at = 0;
        for (auto& b : blocks) {
            if (b.first != at)
                throw Bad("array " + b.second.second + " is at offset " + std::to_string(b.first) + ", the previous block ends at " + std::to_string(at));
            at += b.second.first;
        }
        return at;
    };
    Xml root = xp.parse();
    header(root);
    const Xml* grid = root.child("UnstructuredGrid");
    if (!grid)
        throw Bad("no <UnstructuredGrid>");
    const Xml *piece = nullptr, *fd = nullptr;
    for (auto& k : grid->kids) {
        if (k.name == "Piece") {
            if (piece)
                throw Bad("two pieces");
            piece = &k;
        } else if (k.name == "FieldData")
            fd = &k;
        else
            throw Bad("<" + k.name + "> inside <UnstructuredGrid>");
    }
    if (!piece || !fd)
        throw Bad("no <Piece> or no <FieldData>");
    size_t np = intAttr(*piece, "NumberOfPoints"), nc = intAttr(*piece, "NumberOfCells");
    auto read = [&](const Xml& a, size_t tuples) {
        if (a.name != "DataArray")
            throw Bad("<" + a.name + "> where a DataArray is expected");
        Array r;
        r.name   = a.get("Name");
        r.type   = a.get("type");
        r.format = a.get("format");
        r.tuples = tuples;
        r.comps  = a.get("NumberOfComponents").empty() ? 1 : intAttr(a, "NumberOfComponents");
        size_t n = r.comps * tuples, es = typeSize(r.type);
        if (r.name.empty())
            throw Bad("array without name");
        bool real = r.type[0] == 'F';
        if (r.format == "ascii") {
            std::istringstream in(a.text);
            std::string t;
            while (in >> t)
                r.d.push_back(real ? needDouble(t, r.name.c_str()) : (double) needInt(t, r.name.c_str()));
        } else if (r.format == "appended") {
            out.binary = true;
            if (xp.rawBegin == std::string::npos)
                throw Bad("appended array but no AppendedData");
            if (a.text.find_first_not_of(" \t\r\n") != std::string::npos)
                throw Bad("appended array with inline data");
            r.offset = intAttr(a, "offset");
            size_t hs = h64 ? 8 : 4;
            r.bytes   = rd(xp.rawBegin + r.offset, hs);
            if (r.bytes != n * es)
                throw Bad("array " + r.name + ": length header " + std::to_string(r.bytes) + ", expected " + std::to_string(n * es));
            for (size_t k = 0; k < n; k++) {
                uint64_t u = rd(xp.rawBegin + r.offset + hs + k * es, es);
                double d;
                if (r.type == "Float64")
                    std::memcpy(&d, &u, 8);
                else if (r.type == "Float32") {
                    float f;
                    uint32_t w = (uint32_t) u;
                    std::memcpy(&f, &w, 4);
                    d = f;
                } else if (r.type[0] == 'U')
                    d = (double) u;
                else { // sign extension
                    int64_t v = (int64_t) (u << (64 - 8 * es)) >> (64 - 8 * es);
                    d         = (double) v;
                }
                r.d.push_back(d);
            }
        } else
            throw Bad("format '" + r.format + "'");
        if (r.d.size() != n)
            throw Bad("array " + r.name + " has " + std::to_string(r.d.size()) + " values, expected " + std::to_string(n));
        return r;
    };
    const Xml *pts = piece->child("Points"), *pd = piece->child("PointData"), *ce = piece->child("Cells");
    if (!pts || pts->kids.size() != 1 || !pd || !ce)
        throw Bad("<Piece> without Points, PointData or Cells");
    out.points = read(pts->kids[0], np);
    if (out.points.comps != 3)
        throw Bad("points have " + std::to_string(out.points.comps) + " components");
    for (auto& k : pd->kids)
        if (!out.point.emplace(k.get("Name"), read(k, np)).second)
            throw Bad("array twice: " + k.get("Name"));
    for (auto& k : fd->kids) {
        size_t t = k.get("NumberOfTuples").empty() ? 1 : intAttr(k, "NumberOfTuples");
        out.field.emplace(k.get("Name"), read(k, t));
    }
    for (auto& k : ce->kids) {
        // one vertex per particle: connectivity has as many entries as there are cells
        out.cells.emplace(k.get("Name"), read(k, nc));
    }
    auto need = [](std::map<std::string, Array>& m, const char* n, size_t comps) -> Array& {
        auto it = m.find(n);
        if (it == m.end())
            throw Bad(std::string("no array '") + n + "'");
        if (it->second.comps != comps)
            throw Bad(std::string("array '") + n + "' has " + std::to_string(it->second.comps) + " components");
        return it->second;
    };
    if (nc != np)
        throw Bad("number of cells differs from number of points");
    auto &co = need(out.cells, "connectivity", 1), &of = need(out.cells, "offsets", 1), &ty = need(out.cells, "types", 1);
    for (size_t i = 0; i < np; i++)
        if (co.d[i] != (double) i || of.d[i] != (double) (i + 1) || ty.d[i] != 1)
            throw Bad("cell " + std::to_string(i) + " is not the vertex of particle " + std::to_string(i));
    auto& tm = need(out.field, "Time", 1);
    if (tm.d.size() != 1)
        throw Bad("Time has " + std::to_string(tm.d.size()) + " values");
    out.snap.time = tm.d[0];
    auto &pt = need(out.point, "Particle Type", 1), &ve = need(out.point, "Velocity", 3), &pr = need(out.point, "Pressure", 1),
         &nd = need(out.point, "Number Density", 1), &nr = need(out.point, "Number Density Ratio", 1),
         &bc = need(out.point, "Boundary Condition", 1), &ft = need(out.point, "Fluid Type", 1);
    for (size_t i = 0; i < np; i++) {
        Row r;
        for (int k = 0; k < 3; k++) {
            r.x[k] = out.points.d[3 * i + k];
            r.v[k] = ve.d[3 * i + k];
        }
        r.type      = (int) pt.d[i];
        r.p         = pr.d[i];
        r.n         = nd.d[i];
        r.ratio     = nr.d[i];
        r.bc        = (int) bc.d[i];
        r.fluidType = (int) ft.d[i];
        out.snap.rows.push_back(r);
    }
    return out;
}

// ------------------------------------------------------------ generation
/// a finite double, plain or special
inline double genValue(pbt::Src& g, bool finite = true) {
    switch (g.weighted({3, 3, 3, 2, 2, 1, 1, finite ? 0.0 : 1.0})) {
    case 0: return (double) g.range(-10, 10);
    case 1: return g.sym(5);
    case 2: return g.sym(1) * g.logu(1e-9, 1e9);
    case 3: return g.pick({0.0, -0.0, 0.1, -0.025, 1e-300, 123456.5, 1234565.0, 99999.95, 1e15, 1e6, 1e5, 0.0001, 0.00001});
    case 4: { // any finite bit pattern
        uint64_t u = g.bits();
        double d;
        std::memcpy(&d, &u, 8);
        return std::isfinite(d) ? d : 1.5;
    }
    case 5: { // bytes that look like markup
        const char* t = g.pick({"<Append", "\n\n\n\n\n\n\n\n", "</DataAr", "_\0\0\0\0\0\0\0", "Density\n", "Time\nTim", "\r\n\r\n\r\n\x1a\n"});
        double d;
        std::memcpy(&d, t, 8);
        return d;
    }
    case 6: return g.pick({DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -5e-324, 1.7976e308, 2.5e-308});
    default: return g.pick({(double) INFINITY, -(double) INFINITY, (double) NAN});
    }
}
/// value a user could write, moderate size
inline double genPlain(pbt::Src& g) {
    switch (g.weighted({3, 3, 2, 1})) {
    case 0: return (double) g.range(-10, 10);
    case 1: return g.sym(5);
    case 2: return g.pick({0.0, -0.025, 0.1, 1e-5, 1e6, 123456.789, -0.0});
    default: return g.sym(1) * g.logu(1e-9, 1e9);
    }
}
inline Snap genSnap(pbt::Src& g, int maxN, bool finite, bool plain = false) {
    Snap s;
    auto val = [&] { return plain ? genPlain(g) : genValue(g, finite); };
    s.time   = g.chance(0.4) ? (double) g.range(0, 5) : std::fabs(plain ? genPlain(g) : genValue(g, true));
    if (s.time < 1e-300)
        s.time = 0; // times this close to zero are outside the property
    else if (g.chance(0.2))
        s.time = -s.time;
    while ((int) s.rows.size() < maxN && g.more(g.pick({6, 1, 30}))) {
        Row r;
        r.type      = (int) g.raw(4);
        r.fluidType = g.chance(0.6) ? (int) g.raw(3) : g.chance(0.5) ? (int) g.range(-3, 1000000) : g.pick({-1, -7, 255, -129, 40000, -70000, 2147483647, -2147483647});
        for (double& d : r.x)
            d = val();
        for (double& d : r.v)
            d = val();
        if (!plain) {
            r.p   = genValue(g, finite);
            r.n   = genValue(g, finite);
            r.bc  = (int) g.raw(5);
            r.rho = std::fabs(genPlain(g)) + 0.5;
        }
        s.rows.push_back(r);
        if ((int) s.rows.size() < maxN && g.chance(0.06)) // a twin, or one that differs in a single value
        {
            if (g.chance(0.5))
                (g.chance(0.5) ? r.x : r.v)[g.raw(3)] = val();
            s.rows.push_back(r);
        }
    }
    return s;
}
/// many rows out of a few: more than fit in 15 or 16 bit numbers
inline void inflate(pbt::Src& g, Snap& s) {
    if (s.rows.empty())
        s.rows.push_back(Row());
    auto few = s.rows;
    size_t n = (size_t) g.pick({33000, 66000, 70000}) + g.raw(1000);
    for (size_t i = s.rows.size(); i < n; i++) {
        s.rows.push_back(few[i % few.size()]);
        s.rows.back().x[i % 3] = (double) i / 16;
    }
}
inline std::ostream& operator<<(std::ostream& o, const Row& r) {
    o << "type=" << r.type << " ft=" << r.fluidType << " x=(" << r.x[0] << "," << r.x[1] << "," << r.x[2] << ") v=(" << r.v[0]
      << "," << r.v[1] << "," << r.v[2] << ") rho=" << r.rho << " p=" << r.p << " n=" << r.n << " bc=" << r.bc;
    return o;
}
inline void describe(std::ostream& o, const Snap& s) {
    o << "time=" << s.time << ", " << s.rows.size() << " particles\n";
    for (size_t i = 0; i < s.rows.size() && i < 25; i++)
        o << "  " << i << " " << s.rows[i] << "\n";
}

/// a notation for a number that reads back as exactly that number
inline std::string notation(pbt::Src& g, double d) {
    switch (g.weighted({4, 2, 1, 1, 1})) {
    case 1:
        if (std::fabs(d) < 1e6 && d == std::floor(d))
            return fmt("%.0f", d);
        break;
    case 2: return fmt("%.16e", d);
    case 3:
        if (std::fabs(d) < 1e5 && (std::fabs(d) > 1e-3 || d == 0))
            return fmt("%.20f", d);
        break;
    case 4:
        if (d > 0)
            return "+" + fmt("%.17g", d);
        break;
    }
    return fmt("%.17g", d);
}

} // namespace files
