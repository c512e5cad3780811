// C01: a run of mps computes exactly the documented MPS scheme (end to end)
#include "e2e.hpp"
#include "scene.hpp"

using namespace pbt;
using namespace e2e;
using scene::describe;
using scene::dist;
using scene::dbl;
using scene::Opt;
using scene::P;
using scene::R;
using scene::Scene;
using scene::typeName;
using scene::V;

namespace {

using scene::operator<<;
constexpr R EPS = 2.3e-16L;

std::vector<P> toState(const Snap& s, const std::vector<P>& mat) {
    std::vector<P> o;
    for (size_t i = 0; i < s.rows.size(); i++) {
        auto& r = s.rows[i];
        P q;
        q.type      = r.type;
        q.fluidType = r.fluidType;
        q.x         = {r.x[0], r.x[1], r.x[2]};
        q.v         = {r.v[0], r.v[1], r.v[2]};
        q.rho       = mat[i].rho;
        o.push_back(q);
    }
    return o;
}

bool finite(const V& v) {
    return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z);
}

struct Verdict {
    bool ambiguous = false;
    bool moved = false, pressure = false, collided = false, viscous = false;
};

/// judges one step from state a to record b
Verdict judge(Case& c, const Scene& sc, const std::vector<P>& a, const Snap& rec, const std::vector<P>& mat, int step) {
    Verdict out;
    auto& p = sc.p;
    size_t n = a.size();
    ref::Margin mg;
    R scale = scene::scaleX(sc);
    for (auto& q : a)
        if (q.type != ref::Ghost)
            scale = std::max(scale, ref::norm(q.x));
    // prediction
    auto s0 = a;
    ref::ghosts(s0, p, mg, &a);
    std::vector<R> tv;
    auto s1 = ref::predict(s0, p, mg, &tv);
    std::vector<R> dx(n, 0), dv(n, 0); // errors the implementation may have accumulated
    for (size_t i = 0; i < n; i++)
        if (s1[i].type == ref::Fluid) {
            dv[i] = 200 * EPS * tv[i] * (1 + 1e-3L * scale / p.l0);
            dx[i] = 4 * EPS * (scale + ref::norm(s1[i].v) * p.dt) + dv[i] * p.dt;
            out.viscous = out.viscous || dist(s1[i].v, s0[i].v + p.g * p.dt) > 100 * dv[i];
        }
    auto s2 = s1;
    ref::ghosts(s2, p, mg, &s0);
    // collision
    ref::ColInfo ci;
    auto s3 = ref::collide(s2, p, mg, ci);
    if (ci.multiple || mg.ambiguous()) {
        out.ambiguous = true;
        c.label(ci.multiple ? "skipped: several collisions of one particle" : "skipped: at a threshold");
        return out;
    }
    for (size_t i = 0; i < n; i++)
        if (s2[i].type == ref::Fluid && (dist(s3[i].x, s2[i].x) > 0 || dist(s3[i].v, s2[i].v) > 0)) {
            out.collided = true;
            R d = p.l0 * 10, rv = 0, own = dx[i];
            for (size_t j = 0; j < n; j++)
                if (j != i && s2[j].type != ref::Ghost && dist(s2[j].x, s2[i].x) < d) {
                    d   = dist(s2[j].x, s2[i].x);
                    rv  = dist(s2[j].v, s2[i].v);
                    own = std::max(own, dx[j]);
                }
            R ang = 4 * own / d;
            dx[i] = 6 * own + 4 * p.colDist * ang + 4 * EPS * scale;
            R vv  = ref::norm(s2[i].v) + rv;
            dv[i] = 4 * dv[i] + 8 * rv * ang + 50 * EPS * vv;
            for (size_t j = 0; j < n; j++)
                if (j != i && s2[j].type == ref::Fluid)
                    dv[i] = std::max(dv[i], 4 * dv[j]);
        }
    auto s4 = s3;
    ref::ghosts(s4, p, mg, &s2);
    // number density
    auto nd = ref::numberDensity(s4, p.reN);
    std::vector<R> dn(n, 0), cond(n, 0);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n && s4[i].type != ref::Ghost; j++) {
            if (j == i || s4[j].type == ref::Ghost)
                continue;
            R d = dist(s4[i].x, s4[j].x);
            mg.see((d - p.reN) / p.reN);
            mg.see((d - p.reL) / p.reL);
            mg.see((d - p.reG) / p.reG);
            if (d < p.reN)
                dn[i] += 2 * p.reN / (d * d) * (dx[i] + dx[j] + EPS * scale) + 8 * EPS * p.reN / d;
            if (d < p.reL) // relative error of the row
                cond[i] += p.reL / (d * d) * (dx[i] + dx[j] + EPS * scale);
        }
    auto rn = ref::refValues(p.dim, p.l0, p.reN);
    auto b  = ref::classify(s4, p, nd, mg, rn.n0);
    if (p.implicit)
        for (size_t i = 0; i < n; i++)
            if (b[i] != ref::Ignored && std::fabs(nd[i] - p.thr * rn.n0) <= 10 * dn[i])
                out.ambiguous = true;
    if (mg.ambiguous() || out.ambiguous) {
        out.ambiguous = true;
        c.label("skipped: at a threshold");
        return out;
    }
    // the record
    auto& rows = rec.rows;
    auto say   = [&](size_t i) { return "step " + std::to_string(step) + ": " + typeName(a[i].type) + " " + std::to_string(i); };
    for (size_t i = 0; i < n; i++) {
        REQUIRE(rows[i].type == s4[i].type, say(i) << " has type " << rows[i].type << ", expected " << s4[i].type);
        REQUIRE(rows[i].fluidType == mat[i].fluidType, say(i) << " has fluid type " << rows[i].fluidType);
        REQUIRE(
            std::fabs(rows[i].n - nd[i]) <= dn[i],
            say(i) << " has number density " << rows[i].n << ", the sum of weights is " << (double) nd[i] << " (tolerance " << (double) dn[i] << ")"
        );
        REQUIRE(
            std::fabs(rows[i].ratio - rows[i].n / rn.n0) <= 1e-12L * std::fabs(rows[i].ratio),
            say(i) << " has number density ratio " << rows[i].ratio << ", number density / n0 is " << (double) (rows[i].n / rn.n0)
        );
        if (p.implicit)
            REQUIRE(rows[i].bc == b[i], say(i) << " has boundary condition " << rows[i].bc << ", expected " << b[i] << " (number density / n0 = " << (double) (nd[i] / rn.n0) << ")");
    }
    // pressure
    std::vector<R> pr(n);
    for (size_t i = 0; i < n; i++)
        pr[i] = rows[i].p;
    if (p.implicit) {
        auto want = ref::implicitPressure(s4, p, nd, b);
        R dA = 0, db = 0, aL = 0;
        auto rl = ref::refValues(p.dim, p.l0, p.reL);
        aL      = 2 * p.dim / (rl.n0 * rl.lambda);
        for (size_t i = 0; i < n; i++)
            if (b[i] == ref::Inner) {
                dA = std::max(dA, 2 * aL * cond[i] / s4[i].rho);
                db = std::max(db, p.relax / (p.dt * p.dt) / rn.n0 * dn[i]);
            }
        R tol = want.tol + 4 * want.inv * (dA * want.maxAbs + db);
        bool judged = want.ok && tol <= 1e-3L * want.maxAbs;
        for (size_t i = 0; i < n; i++) {
            REQUIRE(std::isfinite(rows[i].p) && rows[i].p >= 0, say(i) << " has pressure " << rows[i].p);
            if (b[i] != ref::Inner)
                REQUIRE(rows[i].p == 0, say(i) << " is not inner and has pressure " << rows[i].p);
            if (judged)
                REQUIRE(
                    std::fabs(rows[i].p - want.p[i]) <= tol,
                    say(i) << " has pressure " << rows[i].p << ", the Poisson system gives " << (double) want.p[i] << " (tolerance " << (double) tol << ")"
                );
            out.pressure = out.pressure || (judged && want.p[i] > tol);
        }
        if (!judged && want.maxAbs > 0)
            c.label("pressure ill-conditioned");
    } else {
        auto want = ref::explicitPressure(s4, p, nd);
        for (size_t i = 0; i < n; i++) {
            if (s4[i].type == ref::Dummy)
                continue;
            R tol = p.c * p.c * s4[i].rho / rn.n0 * (dn[i] + 100 * EPS * rn.n0) + 100 * EPS * want[i];
            REQUIRE(
                std::fabs(rows[i].p - want[i]) <= tol,
                say(i) << " has pressure " << rows[i].p << ", the equation of state gives " << (double) want[i] << " (number density / n0 = " << (double) (nd[i] / rn.n0) << ")"
            );
            if (s4[i].type == ref::Ghost)
                REQUIRE(rows[i].p == 0, say(i) << " is a ghost and has pressure " << rows[i].p);
            out.pressure = out.pressure || want[i] > tol;
        }
    }
    // correction, with the recorded pressures
    std::vector<R> mag;
    auto want = ref::correct(s4, p, pr, mg, &mag);
    for (size_t i = 0; i < n; i++) {
        V gx{rows[i].x[0], rows[i].x[1], rows[i].x[2]}, gv{rows[i].v[0], rows[i].v[1], rows[i].v[2]};
        if (s4[i].type != ref::Fluid) {
            REQUIRE(
                dist(gx, s3[i].x) <= dx[i] && dist(gv, s3[i].v) <= dv[i],
                say(i) << " went from x=" << a[i].x << ", v=" << a[i].v << " to x=" << gx << ", v=" << gv << "; expected x=" << s3[i].x << ", v=" << s3[i].v
            );
            continue;
        }
        R near = p.reG, worst = dx[i];
        for (size_t j = 0; j < n; j++)
            if (j != i && s4[j].type != ref::Ghost && dist(s4[i].x, s4[j].x) < p.reG) {
                near  = std::min(near, dist(s4[i].x, s4[j].x));
                worst = std::max(worst, dx[j]);
            }
        R tolA = mag[i] * (200 * EPS + 12 * (worst + EPS * scale) / near);
        R tolV = tolA * p.dt + 2 * dv[i] + 8 * EPS * (ref::norm(want[i].v) + ref::norm(s4[i].v));
        R tolX = tolA * p.dt * p.dt + 2 * dx[i] + 8 * EPS * scale + 8 * EPS * dist(want[i].x, s4[i].x);
        REQUIRE(
            finite(gx) && finite(gv) && dist(gv, want[i].v) <= tolV && dist(gx, want[i].x) <= tolX,
            say(i) << " went from x=" << a[i].x << ", v=" << a[i].v << " to x=" << gx << ", v=" << gv << "; the scheme gives x=" << want[i].x << ", v=" << want[i].v
                   << " (tolerances " << (double) tolX << ", " << (double) tolV << "; before the pressure correction x=" << s4[i].x << ", v=" << s4[i].v << ")"
        );
        out.moved = out.moved || dist(want[i].x, a[i].x) > 100 * tolX;
    }
    return out;
}

void run(Src& g, Case& c, int maxN) {
    Opt o;
    o.maxN    = maxN;
    o.outside = g.chance(0.2);
    o.overlap = g.chance(0.3);
    o.cfl     = g.pick({0.2, 0.05, 0.0, 0.5});
    o.moving  = o.cfl > 0;
    Scene sc;
    if (maxN < 800)
        sc = scene::gen(g, o, {6, 2, 2});
    else {
        scene::genParams(g, sc, o);
        scene::layoutTank(g, sc, o);
        scene::finish(g, sc, o);
    }
    auto& p   = sc.p;
    double l0 = dbl(p.l0);
    Config f;
    if (g.chance(0.4)) { // compressed: positive pressures
        double k = g.pick({0.97, 0.93, 0.99});
        for (auto& q : sc.s)
            q.x = {dbl(q.x.x * k), dbl(q.x.y * k), dbl(q.x.z * k)};
        p.lo = {dbl(p.lo.x - 30 * p.l0), dbl(p.lo.y - 30 * p.l0), p.lo.z == 0 && p.dim == 2 ? 0 : dbl(p.lo.z - 3 * p.l0)};
        p.hi = {dbl(p.hi.x + 30 * p.l0), dbl(p.hi.y + 30 * p.l0), p.hi.z == 0 && p.dim == 2 ? 0 : dbl(p.hi.z + 3 * p.l0)};
    }
    if (p.nu == R(1e-6) && g.chance(0.5))
        p.nu = dbl(g.logu(1e-3, 1) * 0.05 * l0 * l0 / dbl(p.dt));
    f.rN  = dbl(p.reN / p.l0);
    f.rG  = dbl(p.reG / p.l0);
    f.rL  = dbl(p.reL / p.l0);
    f.rC  = dbl(p.colDist / p.l0);
    if (g.chance(0.3))
        f.rC = 0.3;
    p.reN = f.rN * l0;
    p.reG = f.rG * l0;
    p.reL = f.rL * l0;
    p.colDist = f.rC * l0;
    if (g.chance(0.3)) { // gravity as norm and angle
        f.xyz    = false;
        f.gNorm  = g.pick({9.8, 1.0, 0.0, 3.5});
        f.gAngle = g.chance(0.3) ? g.pick({90.0, -90.0, 180.0, 45.0}) : g.sym(200);
        R w      = (R) f.gAngle * 3.14159265358979323846L / 180;
        p.g      = {f.gNorm * std::sin(w), -f.gNorm * std::cos(w), 0};
        f.g3[0] = 11;
        f.g3[1] = -12;
        f.g3[2] = 13; // must not be used
    } else {
        f.g3[0] = dbl(p.g.x);
        f.g3[1] = dbl(p.g.y);
        f.g3[2] = dbl(p.g.z);
    }
    f.dt = dbl(p.dt);
    int steps = scene::historyLength(g, 4, 60);
    Snap in;
    in.time  = g.pick({0.0, 1.0, 0.25});
    f.end    = in.time + (steps - 0.5) * f.dt;
    f.period = 0.5 * f.dt;
    f.binary = true;
    f.defaultDensity = sc.defaultDensity;
    int kind = (int) g.weighted({3, 1, 1});
    bool own = kind == 0; // only CSV and VTU carry densities
    for (auto& q : sc.s) {
        Row r;
        r.type = q.type;
        r.x[0] = dbl(q.x.x);
        r.x[1] = dbl(q.x.y);
        r.x[2] = dbl(q.x.z);
        r.v[0] = dbl(q.v.x);
        r.v[1] = dbl(q.v.y);
        r.v[2] = dbl(q.v.z);
        if (kind == 1) {
            q.fluidType = 0;
            q.rho       = f.defaultDensity;
        } else if (kind == 2) {
            own   = true;
        }
        r.fluidType = q.fluidType;
        r.rho       = own ? (q.rho == R(f.defaultDensity) ? -1.0 : dbl(q.rho)) : -1;
        in.rows.push_back(r);
    }
    f.particlesPath = kind == 0 ? "in.csv" : kind == 1 ? "in.prof" : "in.vtu";
    f.p             = p;
    std::string dir = freshDir("c01");
    fs::create_directories(dir + "/out");
    writeFile(dir + "/" + f.particlesPath, kind == 0 ? csvText(in) : kind == 1 ? profText(in) : vtuText(in, true));
    writeFile(dir + "/s.yml", yaml(f));
    c.note([&](std::ostream& s) {
        s << yaml(f) << "steps=" << steps << " start=" << in.time << "\n";
        describe(s, sc);
    });
    auto res = pbt::run({mpsPath(), "-s", dir + "/s.yml", "-o", dir + "/out"});
    if (res.status != 0 && !res.timeout && p.implicit && res.err.find("Pressure calculation failed") != std::string::npos) {
        // the iterative solver may give up on a nearly singular system; C11 judges that
        c.label("solver gave up");
        if (!crashed(res))
            c.discard();
    }
    REQUIRE(!res.timeout && res.status == 0, "mps ended with " << res.status << (res.timeout ? " (time limit)" : "") << "\n" << res.err.substr(0, 400));
    std::vector<Snap> rec;
    for (int k = 0; k <= steps; k++) {
        REQUIRE(fs::exists(dir + "/out/" + outName(k, "vtu")), "no record of step " << k);
        try {
            auto v = files::parseVtu(readFile(dir + "/out/" + outName(k, "vtu")));
            rec.push_back(v.snap);
        } catch (const files::Bad& e) {
            c.fail("record of step " + std::to_string(k) + ": " + e.what());
        }
        REQUIRE(rec.back().rows.size() == sc.s.size(), "record of step " << k << " holds " << rec.back().rows.size() << " of " << sc.s.size() << " particles");
        REQUIRE(std::fabs(rec.back().time - (in.time + k * f.dt)) <= 1e-12 * (in.time + k * f.dt), "record of step " << k << " has time " << rec.back().time);
    }
    REQUIRE(!fs::exists(dir + "/out/" + outName(steps + 1, "vtu")), "more than " << steps << " steps were taken");
    for (size_t i = 0; i < in.rows.size(); i++) {
        auto &x = in.rows[i], &y = rec[0].rows[i];
        bool same = x.type == y.type && x.fluidType == y.fluidType;
        for (int k = 0; k < 3; k++)
            same = same && x.x[k] == y.x[k] && x.v[k] == y.v[k];
        REQUIRE(same, "initial record: particle " << i << " is " << y << ", the file says " << x);
    }
    bool moved = false, judged = false;
    auto cur = toState(rec[0], sc.s);
    for (int k = 1; k <= steps; k++) {
        bool fin = true;
        for (auto& q : cur)
            fin = fin && (q.type == ref::Ghost || (finite(q.x) && finite(q.v)));
        if (!fin)
            break;
        auto v = judge(c, sc, cur, rec[k], sc.s, k);
        judged = judged || !v.ambiguous;
        moved  = moved || v.moved;
        if (v.pressure)
            c.label("pressure");
        if (v.collided)
            c.label("collision");
        if (v.viscous)
            c.label("viscosity");
        cur = toState(rec[k], sc.s);
    }
    c.label(p.implicit ? "implicit" : "explicit");
    c.label(p.dim == 2 ? "2D" : "3D");
    if (!judged)
        c.discard();
    c.nontrivial(moved);
}

void endToEnd(Src& g, Case& c) {
    run(g, c, 60);
}
void large(Src& g, Case& c) {
    run(g, c, 1000);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C01.run",
          "runs of mps of 1-4 (in 1% of cases up to 60) steps on generated settings and particle files (CSV, profile, VTU), every step recorded in binary VTU and "
          "compared with the reference scheme; non-trivial: a fluid particle moved by more than the tolerance",
          4000,
          120000,
          endToEnd},
         {"C01.large", "the same for tanks of hundreds to a thousand particles; non-trivial: as before", 64, 2000, large}}
    );
}
