// A small OpenMP runtime in place of libgomp, so that schedules are chosen by the test.
//   default      the threads of a team are fibers of one OS thread; they run one after another in an order
//                that is a function of (seed, region number), switching only where OpenMP synchronises
//   TSAN_BUILD   the threads are pthreads, created and joined per region; nothing else orders them, so
//                ThreadSanitizer sees every unordered pair of accesses
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>

#ifdef TSAN_BUILD
#include <pthread.h>
#else
#include <ucontext.h>
#endif

namespace {

int gThreads      = 4;
uint64_t gSeed    = 0; // 0: in order
uint64_t gRegions = 0;

struct Workshare { // of one thread
    unsigned long long next = 0, end = 0, incr = 1, chunk = 1, base = 0, total = 0;
    bool up = true;
    int index = -1; // which shared counter
};

const int MAXWS = 4096;

struct Team {
    int n = 1;
    void (*fn)(void*) = nullptr;
    void* data        = nullptr;
    bool preset = false;
    Workshare presetWs;
#ifdef TSAN_BUILD
    char singles[MAXWS];
    pthread_barrier_t barrier;
#else
    std::vector<unsigned long long> counters;
    std::vector<char> singles;
    int waiting = 0;
#endif
    long sectionsTotal = 0;
};
struct Thread {
    Team* team = nullptr;
    int id     = 0;
    Workshare ws;
    int wsCount = 0, singleCount = 0;
#ifndef TSAN_BUILD
    ucontext_t ctx;
    std::vector<char> stack;
    bool done = false, atBarrier = false;
#endif
};

uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

#ifdef TSAN_BUILD
__thread Thread* cur = nullptr;
pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomicLock = PTHREAD_MUTEX_INITIALIZER;
bool firstAt(Team* t, int k) {
    return !__atomic_exchange_n(&t->singles[k], (char) 1, __ATOMIC_RELAXED);
}
void barrier() {
    if (cur && cur->team->n > 1)
        pthread_barrier_wait(&cur->team->barrier);
}
void* worker(void* p) {
    auto* t = static_cast<Thread*>(p);
    cur     = t;
    t->team->fn(t->team->data);
    return nullptr;
}
void runTeam(Team& team) {
    Thread* outer = cur;
    std::vector<Thread> th(team.n);
    for (int i = 0; i < team.n; i++) {
        th[i].team = &team;
        th[i].id   = i;
        if (team.preset) {
            th[i].ws       = team.presetWs;
            th[i].ws.index = 0;
            th[i].wsCount  = 1;
        }
    }
    for (int i = 0; i < MAXWS; i++)
        team.singles[i] = 0;
    pthread_barrier_init(&team.barrier, nullptr, team.n);
    std::vector<pthread_t> pt(team.n);
    for (int i = 1; i < team.n; i++)
        if (pthread_create(&pt[i], nullptr, worker, &th[i])) {
            perror("pthread_create");
            _Exit(71);
        }
    worker(&th[0]);
    for (int i = 1; i < team.n; i++)
        pthread_join(pt[i], nullptr);
    pthread_barrier_destroy(&team.barrier);
    cur = outer;
}
#else
Thread* cur = nullptr;
ucontext_t scheduler;
std::vector<std::vector<char>> stackPool;
int criticalOwner = -1;

unsigned long long fetchAdd(Team* t, int ws, unsigned long long k) {
    if ((int) t->counters.size() <= ws)
        t->counters.resize(ws + 1);
    auto r = t->counters[ws];
    t->counters[ws] += k;
    return r;
}
bool firstAt(Team* t, int k) {
    if ((int) t->singles.size() <= k)
        t->singles.resize(k + 1);
    bool f        = !t->singles[k];
    t->singles[k] = 1;
    return f;
}
void yieldFiber() {
    Thread* me = cur;
    swapcontext(&me->ctx, &scheduler);
    cur = me;
}
void barrier() {
    if (!cur || cur->team->n == 1)
        return;
    cur->atBarrier = true;
    cur->team->waiting++;
    while (cur->atBarrier)
        yieldFiber();
}
void fiberMain() {
    cur->team->fn(cur->team->data);
    cur->done = true;
    swapcontext(&cur->ctx, &scheduler);
}
void runTeam(Team& team) {
    uint64_t r = mix(gSeed * 1000003 + gRegions++);
    Thread* outer = cur;
    std::vector<std::unique_ptr<Thread>> th;
    for (int i = 0; i < team.n; i++) {
        th.emplace_back(new Thread);
        auto& t = *th[i];
        t.team  = &team;
        t.id    = i;
        if (team.preset) {
            t.ws       = team.presetWs;
            t.ws.index = 0;
            t.wsCount  = 1;
        }
    }
    if (team.n == 1) {
        cur = th[0].get();
        team.fn(team.data);
        cur = outer;
        return;
    }
    for (auto& t : th) {
        if (stackPool.empty())
            t->stack.resize(256 * 1024);
        else {
            t->stack.swap(stackPool.back());
            stackPool.pop_back();
        }
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp   = t->stack.data();
        t->ctx.uc_stack.ss_size = t->stack.size();
        t->ctx.uc_link          = nullptr;
        makecontext(&t->ctx, fiberMain, 0);
    }
    // order of the threads: in order, reversed, or shuffled
    std::vector<int> order(team.n);
    for (int i = 0; i < team.n; i++)
        order[i] = i;
    auto reorder = [&] {
        if (gSeed == 0)
            return;
        r = mix(r);
        if (r % 4 == 0)
            for (int i = 0; i < team.n; i++)
                order[i] = team.n - 1 - i;
        else
            for (int i = team.n; i > 1; i--) {
                r = mix(r);
                std::swap(order[i - 1], order[r % i]);
            }
    };
    int left = team.n;
    while (left > 0) {
        reorder();
        for (int i : order) {
            auto& t = *th[i];
            if (t.done || t.atBarrier)
                continue;
            cur = &t;
            swapcontext(&scheduler, &t.ctx);
            if (t.done)
                left--;
        }
        if (left > 0 && team.waiting == left) {
            team.waiting = 0;
            for (auto& t : th)
                t->atBarrier = false;
        }
    }
    for (auto& t : th)
        stackPool.push_back(std::move(t->stack));
    cur = outer;
}
#endif

void parallel(void (*fn)(void*), void* data, unsigned n, const Workshare* ws) {
    std::unique_ptr<Team> t(new Team);
    bool nested = cur && cur->team->n > 1;
    t->n        = nested ? 1 : n ? (int) n : gThreads;
    t->fn       = fn;
    t->data     = data;
    if (ws) {
        t->preset   = true;
        t->presetWs = *ws;
    }
    runTeam(*t);
}

Workshare make(long start, long end, long incr, long chunk) {
    Workshare w;
    w.up    = incr > 0;
    w.base  = (unsigned long long) start;
    w.incr  = (unsigned long long) incr;
    long k  = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0);
    w.total = (unsigned long long) k;
    w.chunk = chunk > 0 ? (unsigned long long) chunk : 1;
    return w;
}
Workshare makeU(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk) {
    Workshare w;
    w.up    = up;
    w.base  = start;
    w.incr  = incr;
    w.total = up ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end + (0 - incr) - 1) / (0 - incr) : 0);
    w.chunk = chunk ? chunk : 1;
    return w;
}
Thread& self() {
    static Team solo;
    static thread_local Thread t;
    if (!cur) {
        t.team = &solo;
        return t;
    }
    return *cur;
}
template <class T> bool next(T* a, T* b) {
    Thread& t = self();
#ifndef TSAN_BUILD
    if (cur && cur->team->n > 1)
        yieldFiber();
#endif
    auto& w = t.ws;
#ifdef TSAN_BUILD
    // chunks are dealt out in turn: a possible schedule, and the same one every time
    auto k = (w.next * t.team->n + t.id) * w.chunk;
    w.next++;
#else
    auto k  = fetchAdd(t.team, w.index, w.chunk);
#endif
    if (k >= w.total)
        return false;
    auto e = k + w.chunk < w.total ? k + w.chunk : w.total;
    *a     = (T) (w.base + k * w.incr);
    *b     = (T) (w.base + e * w.incr);
    return true;
}
void begin(Workshare w) {
    Thread& t = self();
    w.index   = t.wsCount++ % MAXWS;
    t.ws      = w;
}

} // namespace

void stubConfig(int threads, uint64_t seed) {
    gThreads = threads;
    gSeed    = seed;
    gRegions = 0;
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    parallel(fn, data, n, nullptr);
}
void GOMP_barrier() {
    barrier();
}
bool GOMP_single_start() {
    Thread& t = self();
    if (t.team->n == 1)
        return true;
    return firstAt(t.team, t.singleCount++ % MAXWS);
}
void GOMP_taskwait() {
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
    if (!cpy) {
        fn(data);
        return;
    }
    std::vector<char> buf((size_t) (size + align));
    char* p = buf.data() + (align - 1 - ((uintptr_t) buf.data() + align - 1) % align);
    cpy(p, data);
    fn(p);
}
#ifdef TSAN_BUILD
void GOMP_critical_start() {
    pthread_mutex_lock(&critical);
}
void GOMP_critical_end() {
    pthread_mutex_unlock(&critical);
}
void GOMP_critical_name_start(void**) {
    pthread_mutex_lock(&critical);
}
void GOMP_critical_name_end(void**) {
    pthread_mutex_unlock(&critical);
}
void GOMP_atomic_start() {
    pthread_mutex_lock(&atomicLock);
}
void GOMP_atomic_end() {
    pthread_mutex_unlock(&atomicLock);
}
#else
void GOMP_critical_start() {
}
void GOMP_critical_end() {
}
void GOMP_critical_name_start(void**) {
}
void GOMP_critical_name_end(void**) {
}
void GOMP_atomic_start() {
}
void GOMP_atomic_end() {
}
#endif
void GOMP_loop_end() {
    barrier();
}
void GOMP_loop_end_nowait() {
}
bool GOMP_sections_dummy() {
    return false;
}
unsigned GOMP_sections_next() {
    long a, b;
    return next(&a, &b) ? (unsigned) a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    begin(make(1, (long) n + 1, 1, 1));
    return GOMP_sections_next();
}
void GOMP_sections_end() {
    barrier();
}
void GOMP_sections_end_nowait() {
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned threads, unsigned n, unsigned) {
    Workshare w = make(1, (long) n + 1, 1, 1);
    parallel(fn, data, threads, &w);
}

#define KIND(K)                                                                                                                              \
    bool GOMP_loop_##K##_next(long* a, long* b) {                                                                                            \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) {                                                           \
        begin(make(s, e, i, c));                                                                                                             \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) {                                                            \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    bool GOMP_loop_ull_##K##_start(                                                                                                          \
        bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b                                                                     \
    ) {                                                                                                                                      \
        begin(makeU(up, s, e, i, c));                                                                                                        \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) {                       \
        Workshare w = make(s, e, i, c);                                                                                                      \
        parallel(fn, data, n, &w);                                                                                                           \
    }
KIND(static)
KIND(dynamic)
KIND(guided)
KIND(nonmonotonic_dynamic)
KIND(nonmonotonic_guided)
#undef KIND
#define KIND(K)                                                                                                                              \
    bool GOMP_loop_##K##_next(long* a, long* b) {                                                                                            \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) {                                                                   \
        begin(make(s, e, i, 1));                                                                                                             \
        return next(a, b);                                                                                                                   \
    }                                                                                                                                        \
    void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) {                               \
        Workshare w = make(s, e, i, 1);                                                                                                      \
        parallel(fn, data, n, &w);                                                                                                           \
    }
KIND(runtime)
KIND(nonmonotonic_runtime)
KIND(maybe_nonmonotonic_runtime)
#undef KIND

int omp_get_thread_num() {
    return cur ? cur->id : 0;
}
int omp_get_num_threads() {
    return cur ? cur->team->n : 1;
}
int omp_get_max_threads() {
    return gThreads;
}
int omp_get_num_procs() {
    return gThreads;
}
int omp_get_thread_limit() {
    return 1024;
}
int omp_in_parallel() {
    return cur && cur->team->n > 1;
}
int omp_get_level() {
    return cur ? 1 : 0;
}
void omp_set_num_threads(int) { // the test decides
}
void omp_set_dynamic(int) {
}
int omp_get_dynamic() {
    return 0;
}
void omp_set_nested(int) {
}
void omp_set_max_active_levels(int) {
}
void omp_set_schedule(int, int) {
}
double omp_get_wtime() {
    return 0;
}
typedef struct {
    unsigned char x[4];
} stub_lock;
#ifdef TSAN_BUILD
void omp_init_lock(stub_lock*) {
}
void omp_destroy_lock(stub_lock*) {
}
void omp_set_lock(stub_lock*) {
    pthread_mutex_lock(&critical);
}
void omp_unset_lock(stub_lock*) {
    pthread_mutex_unlock(&critical);
}
#else
void omp_init_lock(stub_lock*) {
}
void omp_destroy_lock(stub_lock*) {
}
void omp_set_lock(stub_lock*) {
}
void omp_unset_lock(stub_lock*) {
}
#endif
}
