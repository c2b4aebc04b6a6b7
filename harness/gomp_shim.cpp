// A stand-in for the OpenMP run time that a race detector can see through.
//
// It implements the entry points that gcc emits for parallel regions on plain threads. The file itself is compiled without
// the race detector, which then sees thread creation and joining, barriers and critical sections (as these are built on
// intercepted calls), and nothing else: handing out work, and the order in which members run, are done with atomics that it
// can't see, so that they hide no race. It takes the number of threads that the monitor asks for and perturbs the schedule:
// random delays of the team members, or strictly one member after the other in a random order. It also counts what it ran.
#include "gomp_shim.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace shim
{

static std::atomic<int> threads_ {4};
static std::atomic<int> mode_ {0};
static std::atomic<uint64_t> seed_ {1};
static std::atomic<uint64_t> regions_ {0}, members_ {0}, works_ {0}, multi_ {0};
thread_local bool internal = false;

struct scope
{
    bool old;
    scope () : old (internal) { internal = true; }
    ~scope () { internal = old; }
};

static uint64_t mix (uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct share // one work sharing construct
{
    std::atomic<uint64_t> next {0};
    uint64_t first = 0, last = 0, step = 1, chunk = 1;
    bool down = false;
};

struct team
{
    int n = 1;
    int mode = 0;
    uint64_t seed = 0;
    // one member at a time
    std::vector<int> order;
    std::atomic<size_t> turn {0};
    std::atomic<bool> baton {false};
    // barrier
    std::mutex m;
    std::condition_variable cv;
    int waiting = 0;
    uint64_t generation = 0;
    // work sharing constructs, in the order in which a member meets them
    std::atomic<bool> busy {false};
    std::vector<std::unique_ptr<share>> works;

    void wait_turn (int id)
    {
        while (baton.load () && order[turn.load ()] != id)
            std::this_thread::yield ();
    }
    void pass ()
    {
        if (baton.load () && turn.load () + 1 < order.size ())
            ++turn;
    }
    void barrier ()
    {
        baton.store (false); // a member that waits can't keep the others from running
        std::unique_lock<std::mutex> l (m);
        const auto g = generation;
        if (++waiting == n)
        {
            waiting = 0;
            ++generation;
            cv.notify_all ();
            return;
        }
        cv.wait (l, [&] { return g != generation; });
    }
};

struct member
{
    team *t = nullptr;
    int id = 0;
    size_t work = 0;
    share *cur = nullptr;
    uint64_t r = 1;
};
static thread_local member self;

static void delay (uint64_t &r)
{
    r = mix (r);
    switch (r & 7)
    {
        case 0: std::this_thread::sleep_for (std::chrono::microseconds ((r >> 8) % 400)); break;
        case 1: case 2: std::this_thread::yield (); break;
        default: break;
    }
}

// the work sharing construct that this member meets next; the first one to arrive sets it up
template<typename F>
static share *work (F setup)
{
    scope s;
    works_.fetch_add (1, std::memory_order_relaxed);
    static thread_local share alone;
    if (!self.t)
    {
        alone.next.store (0, std::memory_order_relaxed);
        setup (alone);
        return self.cur = &alone;
    }
    while (self.t->busy.exchange (true))
        std::this_thread::yield ();
    if (self.t->works.size () <= self.work)
    {
        self.t->works.emplace_back (new share);
        setup (*self.t->works.back ());
    }
    self.cur = self.t->works[self.work++].get ();
    self.t->busy.store (false);
    return self.cur;
}

static bool grab (uint64_t &a, uint64_t &b)
{
    share *s = self.cur;
    if (!s)
        return false;
    if (self.t && self.t->mode == 1)
        delay (self.r);
    const uint64_t k = s->next.fetch_add (s->chunk, std::memory_order_relaxed);
    const uint64_t total = s->down ? (s->first > s->last ? (s->first - s->last + s->step - 1) / s->step : 0)
                                   : (s->last > s->first ? (s->last - s->first + s->step - 1) / s->step : 0);
    if (k >= total)
        return false;
    const uint64_t e = k + s->chunk < total ? k + s->chunk : total;
    a = s->down ? s->first - k * s->step : s->first + k * s->step;
    b = s->down ? s->first - e * s->step : s->first + e * s->step;
    return true;
}

static void run (void (*fn) (void *), void *data, unsigned want)
{
    if (self.t) // nested: one thread, as the default is
    {
        const member old = self;
        self = member ();
        fn (data);
        self = old;
        return;
    }
    const uint64_t region = regions_.fetch_add (1, std::memory_order_relaxed);
    team t;
    {
        scope s;
        t.n = want ? int (want) : threads_.load (std::memory_order_relaxed);
        if (t.n < 1)
            t.n = 1;
        t.mode = mode_.load (std::memory_order_relaxed);
        t.seed = mix (seed_.load (std::memory_order_relaxed) * 31 + region);
        t.order.resize (t.n);
        for (int k = 0; k < t.n; ++k)
            t.order[k] = k;
        uint64_t r = t.seed;
        for (int k = t.n; k > 1; --k)
        {
            r = mix (r);
            std::swap (t.order[k - 1], t.order[r % k]);
        }
        t.baton = t.mode == 2;
    }
    members_.fetch_add (t.n, std::memory_order_relaxed);
    if (t.n > 1)
        multi_.fetch_add (1, std::memory_order_relaxed);
    auto body = [&] (int id)
    {
        const member old = self;
        self = member ();
        self.t = &t;
        self.id = id;
        self.r = mix (t.seed + id);
        if (t.mode == 1)
            delay (self.r);
        if (t.mode == 2)
            t.wait_turn (id);
        fn (data);
        if (t.mode == 2)
            t.pass ();
        self = old;
    };
    std::vector<std::thread> th;
    {
        scope s;
        th.reserve (t.n);
        for (int k = 1; k < t.n; ++k)
            th.emplace_back (body, k);
    }
    body (0);
    {
        scope s;
        for (auto &x : th)
            x.join ();
        th.clear ();
        th.shrink_to_fit ();
    }
}

void configure (int threads, int mode, uint64_t seed)
{
    threads_.store (threads, std::memory_order_relaxed);
    mode_.store (mode, std::memory_order_relaxed);
    seed_.store (seed, std::memory_order_relaxed);
}
uint64_t regions () { return regions_.load (); }
uint64_t members () { return members_.load (); }
uint64_t works () { return works_.load (); }
uint64_t parallel_regions () { return multi_.load (); }

// programs take the configuration from the environment and tell what they ran
struct from_environment
{
    from_environment ()
    {
        const char *n = getenv ("SHIM_THREADS"), *m = getenv ("SHIM_MODE"), *s = getenv ("SHIM_SEED");
        if (n || m || s)
            configure (n ? atoi (n) : 4, m ? atoi (m) : 0, s ? strtoull (s, 0, 10) : 1);
    }
    ~from_environment ()
    {
        if (const char *f = getenv ("SHIM_LOG"))
            if (FILE *o = fopen (f, "a"))
            {
                fprintf (o, "%llu %llu %llu\n", (unsigned long long) multi_.load (), (unsigned long long) members_.load (),
                    (unsigned long long) works_.load ());
                fclose (o);
            }
    }
};
static from_environment environment;

} // namespace shim

using namespace shim;
typedef unsigned long long ull;

static std::mutex &critical_mutex () { static std::mutex m; return m; }
static std::mutex &atomic_mutex () { static std::mutex m; return m; }

template<typename T>
static bool loop_start (T a, T b, T incr, T chunk, T *i0, T *i1)
{
    work ([&] (share &s)
    {
        s.first = uint64_t (a);
        s.last = uint64_t (b);
        s.down = false;
        s.chunk = uint64_t (chunk) < 1 ? 1 : uint64_t (chunk);
        s.step = uint64_t (incr);
        if (std::is_signed<T>::value && incr < 0)
        {
            s.down = true;
            s.step = uint64_t (-incr);
        }
    });
    uint64_t x, y;
    if (!grab (x, y))
        return false;
    *i0 = T (x);
    *i1 = T (y);
    return true;
}
template<typename T>
static bool loop_next (T *i0, T *i1)
{
    uint64_t x, y;
    if (!grab (x, y))
        return false;
    *i0 = T (x);
    *i1 = T (y);
    return true;
}

extern "C"
{

void GOMP_parallel (void (*fn) (void *), void *data, unsigned n, unsigned) { run (fn, data, n); }
unsigned GOMP_parallel_reductions (void (*fn) (void *), void *data, unsigned n, unsigned)
{
    run (fn, data, n);
    return shim::self.t ? 1 : (n ? n : threads_.load ());
}
void GOMP_barrier () { if (shim::self.t) shim::self.t->barrier (); }
bool GOMP_barrier_cancel () { GOMP_barrier (); return false; }
void GOMP_critical_start () { critical_mutex ().lock (); }
void GOMP_critical_end () { critical_mutex ().unlock (); }
void GOMP_critical_name_start (void **p)
{
    static std::mutex m;
    std::lock_guard<std::mutex> l (m);
    if (!*p)
    {
        scope s;
        *p = new std::mutex;
    }
    // taken below, outside of the lock of the table
    std::mutex *x = static_cast<std::mutex *> (*p);
    while (!x->try_lock ())
        std::this_thread::yield ();
}
void GOMP_critical_name_end (void **p) { static_cast<std::mutex *> (*p)->unlock (); }
void GOMP_atomic_start () { atomic_mutex ().lock (); }
void GOMP_atomic_end () { atomic_mutex ().unlock (); }

// sections are numbered from 1
unsigned GOMP_sections_next ()
{
    uint64_t a, b;
    return grab (a, b) ? unsigned (a) : 0;
}
unsigned GOMP_sections_start (unsigned n)
{
    work ([&] (share &s) { s.first = 1; s.last = uint64_t (n) + 1; s.step = 1; s.chunk = 1; s.down = false; });
    return GOMP_sections_next ();
}
static thread_local unsigned sections_count;
struct sections_call { void (*fn) (void *); void *data; unsigned count; };
static void sections_body (void *p)
{
    sections_call *c = static_cast<sections_call *> (p);
    work ([&] (share &s) { s.first = 1; s.last = uint64_t (c->count) + 1; s.step = 1; s.chunk = 1; s.down = false; });
    c->fn (c->data);
}
void GOMP_parallel_sections (void (*fn) (void *), void *data, unsigned n, unsigned count, unsigned)
{
    sections_call c {fn, data, count};
    run (sections_body, &c, n);
}
void GOMP_sections_end () { GOMP_barrier (); }
void GOMP_sections_end_nowait () {}
bool GOMP_sections_end_cancel () { GOMP_barrier (); return false; }

bool GOMP_single_start ()
{
    work ([&] (share &s) { s.first = 0; s.last = 1; s.step = 1; s.chunk = 1; s.down = false; });
    uint64_t a, b;
    return grab (a, b);
}

void GOMP_loop_end () { GOMP_barrier (); }
void GOMP_loop_end_nowait () {}
bool GOMP_loop_end_cancel () { GOMP_barrier (); return false; }

#define LOOP(NAME)                                                                                            \
    bool GOMP_loop_##NAME##_start (long a, long b, long i, long c, long *x, long *y)                             \
    { return loop_start<long> (a, b, i, c, x, y); }                                                              \
    bool GOMP_loop_##NAME##_next (long *x, long *y) { return loop_next<long> (x, y); }
LOOP (static)
LOOP (dynamic)
LOOP (guided)
LOOP (nonmonotonic_dynamic)
LOOP (nonmonotonic_guided)
#undef LOOP
#define LOOPR(NAME)                                                                                           \
    bool GOMP_loop_##NAME##_start (long a, long b, long i, long *x, long *y)                                     \
    { return loop_start<long> (a, b, i, 1, x, y); }                                                              \
    bool GOMP_loop_##NAME##_next (long *x, long *y) { return loop_next<long> (x, y); }
LOOPR (runtime)
LOOPR (maybe_nonmonotonic_runtime)
LOOPR (nonmonotonic_runtime)
#undef LOOPR
#define LOOPU(NAME)                                                                                           \
    bool GOMP_loop_ull_##NAME##_start (bool, ull a, ull b, ull i, ull c, ull *x, ull *y)                         \
    { return loop_start<ull> (a, b, i, c, x, y); }                                                               \
    bool GOMP_loop_ull_##NAME##_next (ull *x, ull *y) { return loop_next<ull> (x, y); }
LOOPU (static)
LOOPU (dynamic)
LOOPU (guided)
LOOPU (nonmonotonic_dynamic)
LOOPU (nonmonotonic_guided)
#undef LOOPU
#define LOOPUR(NAME)                                                                                          \
    bool GOMP_loop_ull_##NAME##_start (bool, ull a, ull b, ull i, ull *x, ull *y)                                \
    { return loop_start<ull> (a, b, i, 1, x, y); }                                                               \
    bool GOMP_loop_ull_##NAME##_next (ull *x, ull *y) { return loop_next<ull> (x, y); }
LOOPUR (runtime)
LOOPUR (maybe_nonmonotonic_runtime)
LOOPUR (nonmonotonic_runtime)
#undef LOOPUR

struct loop_call { void (*fn) (void *); void *data; long a, b, i, c; };
static void loop_body (void *p)
{
    loop_call *q = static_cast<loop_call *> (p);
    work ([&] (share &s)
    {
        s.first = q->a; s.last = q->b; s.chunk = q->c < 1 ? 1 : q->c; s.down = q->i < 0; s.step = q->i < 0 ? -q->i : q->i;
    });
    q->fn (q->data);
}
#define PLOOP(NAME)                                                                                           \
    void GOMP_parallel_loop_##NAME (void (*fn) (void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) \
    { loop_call q {fn, d, a, b, i, c}; run (loop_body, &q, n); }
PLOOP (static)
PLOOP (dynamic)
PLOOP (guided)
PLOOP (nonmonotonic_dynamic)
PLOOP (nonmonotonic_guided)
#undef PLOOP
#define PLOOPR(NAME)                                                                                          \
    void GOMP_parallel_loop_##NAME (void (*fn) (void *), void *d, unsigned n, long a, long b, long i, unsigned) \
    { loop_call q {fn, d, a, b, i, 1}; run (loop_body, &q, n); }
PLOOPR (runtime)
PLOOPR (maybe_nonmonotonic_runtime)
PLOOPR (nonmonotonic_runtime)
#undef PLOOPR

// tasks run at once
void GOMP_task (void (*fn) (void *), void *data, void (*cpy) (void *, void *), long size, long align, bool, unsigned, void **,
    int, void *)
{
    std::vector<char> buf;
    char *p;
    {
        scope s;
        buf.resize (size + align + 1);
        p = buf.data ();
        if (align > 1)
            p += (align - reinterpret_cast<uintptr_t> (p) % align) % align;
        if (cpy)
            cpy (p, data);
        else
            memcpy (p, data, size);
    }
    fn (p);
}
void GOMP_taskwait () {}
void GOMP_taskgroup_start () {}
void GOMP_taskgroup_end () {}
void GOMP_taskyield () {}
bool GOMP_cancel (int, bool) { return false; }
bool GOMP_cancellation_point (int) { return false; }

int omp_get_num_threads () { return shim::self.t ? shim::self.t->n : 1; }
int omp_get_thread_num () { return shim::self.t ? shim::self.id : 0; }
int omp_get_max_threads () { return threads_.load (); }
int omp_get_num_procs () { return 8; }
int omp_in_parallel () { return shim::self.t && shim::self.t->n > 1; }
int omp_get_level () { return shim::self.t ? 1 : 0; }
int omp_get_dynamic () { return 0; }
int omp_get_nested () { return 0; }
int omp_get_thread_limit () { return 1 << 20; }
void omp_set_num_threads (int n) { threads_.store (n < 1 ? 1 : n); }
void omp_set_dynamic (int) {}
void omp_set_nested (int) {}
double omp_get_wtime ()
{
    return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count ();
}
struct shim_lock { std::mutex *m; };
void omp_init_lock (shim_lock *l) { scope s; l->m = new std::mutex; }
void omp_destroy_lock (shim_lock *l) { delete l->m; }
void omp_set_lock (shim_lock *l) { l->m->lock (); }
void omp_unset_lock (shim_lock *l) { l->m->unlock (); }
int omp_test_lock (shim_lock *l) { return l->m->try_lock (); }

}
