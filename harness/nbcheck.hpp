// Brute-force oracle for neighbour lists, shared by the properties on the neighbour search.
#pragma once
#include "scene.hpp"

#include <sstream>

namespace nbcheck {

struct Stat {
    size_t pairs = 0, ties = 0, ghosts = 0;
};

inline bool inBox(const Eigen::Vector3d& x, const Domain& d) {
    return d.xMin <= x.x() && x.x() <= d.xMax && d.yMin <= x.y() && x.y() <= d.yMax && d.zMin <= x.z() && x.z() <= d.zMax;
}

/// every non-ghost particle's list is exactly the set of others closer than re. Ties (to relative tolerance tie) may go either way.
inline Stat check(pbt::Case& c, const Particles& ps, double re, const char* when, double tie = 1e-12, int stride = 1) {
    Stat st;
    int n = ps.size();
    std::vector<int> mark(n, -1);
    std::vector<double> md(n, 0);
    for (int i = 0; i < n; i += i + stride < n || stride == 1 ? stride : std::max(1, n - 1 - i)) { // every stride-th and the last
        const Particle& pi = ps[i];
        if (pi.type == ParticleType::Ghost) {
            st.ghosts++;
            continue;
        }
        for (auto& nb : pi.neighbors) {
            REQUIRE(nb.id >= 0 && nb.id < n, when << ": particle " << i << " lists neighbour id " << nb.id);
            REQUIRE(nb.id != i, when << ": particle " << i << " lists itself");
            REQUIRE(mark[nb.id] != i, when << ": particle " << i << " lists " << nb.id << " twice");
            REQUIRE(
                ps[nb.id].type != ParticleType::Ghost,
                when << ": particle " << i << " lists ghost " << nb.id
            );
            mark[nb.id] = i;
            md[nb.id]   = nb.distance;
        }
        for (int j = 0; j < n; j++) {
            if (j == i || ps[j].type == ParticleType::Ghost)
                continue;
            double dx = ps[j].position.x() - pi.position.x(), dy = ps[j].position.y() - pi.position.y(),
                   dz = ps[j].position.z() - pi.position.z();
            double d  = std::sqrt(dx * dx + dy * dy + dz * dz);
            bool has  = mark[j] == i;
            if (has) {
                st.pairs++;
                REQUIRE(
                    std::fabs(md[j] - d) <= 1e-12 * d,
                    when << ": distance " << i << "-" << j << " is " << d << ", list says " << md[j]
                );
            }
            if (std::fabs(d - re) <= tie * re) {
                st.ties++;
                continue;
            }
            REQUIRE(
                has == (d < re),
                when << ": particle " << i << " at (" << pi.position.transpose() << ") "
                     << (has ? "lists" : "does not list") << " particle " << j << " at (" << ps[j].position.transpose()
                     << ") at distance " << d << ", radius " << re
            );
        }
    }
    return st;
}

} // namespace nbcheck
