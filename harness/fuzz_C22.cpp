// libFuzzer target of C22.  First byte: format, the rest: the file.  Oracle: c22_oracle.hpp.
#include "c22_oracle.hpp"

#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

namespace {
long counts[3][5]; // per format: valid, broken, grey accepted, grey refused, total
void report() {
    const char* f = getenv("FUZZ_STATS");
    if (!f)
        return;
    FILE* o = fopen(f, "w");
    if (!o)
        return;
    for (auto& r : counts)
        fprintf(o, "%ld %ld %ld %ld %ld\n", r[0], r[1], r[2], r[3], r[4]);
    fclose(o);
}
} // namespace

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    static std::ostringstream sink; // the loaders write messages
    std::cerr.rdbuf(sink.rdbuf());
    atexit(report);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 1)
        return 0;
    auto f = (c22::Format)(data[0] % 3);
    std::string text((const char*) data + 1, size - 1);
    static int fd           = memfd_create("in", 0);
    static std::string path = "/proc/self/fd/" + std::to_string(fd);
    if (ftruncate(fd, 0) || pwrite(fd, text.data(), text.size(), 0) != (ssize_t) text.size())
        return 0;
    lseek(fd, 0, SEEK_SET);
    c22::Outcome o;
    auto r = pbt::guarded([&] {
        if (f == c22::Prof)
            o.got = ParticlesLoader::Prof().load(path, 997);
        else if (f == c22::Csv)
            o.got = ParticlesLoader::Csv().load(path, 997);
        else
            o.got = ParticlesLoader::Vtu().load(path, 997);
    });
    o.accepted = r.ok() || (r.kind == pbt::Guarded::Exited && r.code == 0);
    o.error    = r.what;
    auto j = f == c22::Prof ? c22::judgeProf(text) : f == c22::Csv ? c22::judgeCsv(text) : c22::judgeVtu(text);
    counts[f][j.v == c22::Valid ? 0 : j.v == c22::Broken ? 1 : o.accepted ? 2 : 3]++;
    counts[f][4]++;
    auto m = c22::check(f, text, o, 997);
    if (!m.empty()) {
        fprintf(stderr, "\nFINDING: %s\n", m.c_str());
        abort();
    }
    return 0;
}
