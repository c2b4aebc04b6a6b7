// The parallel parts of the library under many thread counts and schedules: results must be those of one thread, bit for bit,
// and an allocation that fails in a parallel part must be reported. Linked with gomp_shim.cpp, with the race detector or
// without.
#include "cloud.h"
#include "gomp_shim.h"
#include "spoc/affine.h"
#include "spoc/radius_search.h"
#include "spoc/voxel.h"
#include <atomic>
#include <new>
using namespace hk;

// ---------------------------------------------------------------- failing allocations
static std::atomic<long> countdown {-1}; // allocations until the first that fails
static std::atomic<int> persistent {0};
static std::atomic<long> seen {0}, failed {0};
static std::atomic<int> armed {0};

static bool fails ()
{
    if (!armed.load (std::memory_order_relaxed) || shim::internal)
        return false;
    seen.fetch_add (1, std::memory_order_relaxed);
    const long k = countdown.fetch_sub (1, std::memory_order_relaxed);
    if (k == 0 || (k < 0 && persistent.load (std::memory_order_relaxed)))
    {
        failed.fetch_add (1, std::memory_order_relaxed);
        return true;
    }
    return false;
}
#ifdef C19_MALLOC // also the C library's (and so zlib's) allocations
extern "C" void *__libc_malloc (size_t);
extern "C" void *__libc_calloc (size_t, size_t);
extern "C" void *__libc_realloc (void *, size_t);
static thread_local bool in_new = false;
extern "C" void *malloc (size_t n)
{
    return !in_new && fails () ? (errno = ENOMEM, nullptr) : __libc_malloc (n);
}
extern "C" void *calloc (size_t n, size_t m)
{
    return !in_new && fails () ? (errno = ENOMEM, nullptr) : __libc_calloc (n, m);
}
#endif
void *operator new (size_t n)
{
    if (fails ())
        throw std::bad_alloc ();
#ifdef C19_MALLOC
    void *p = __libc_malloc (n ? n : 1);
#else
    void *p = malloc (n ? n : 1);
#endif
    if (!p)
        throw std::bad_alloc ();
    return p;
}
void *operator new[] (size_t n) { return operator new (n); }
void operator delete (void *p) noexcept { free (p); }
void operator delete (void *p, size_t) noexcept { free (p); }
void operator delete[] (void *p) noexcept { free (p); }
void operator delete[] (void *p, size_t) noexcept { free (p); }

// ---------------------------------------------------------------- the operations
struct digest
{
    std::string s;
    template<typename T> void add (const T &t) { s.append (reinterpret_cast<const char *> (&t), sizeof t); }
    void add (const record &q)
    {
        add (q.x); add (q.y); add (q.z); add (q.c); add (q.p); add (q.i); add (q.r); add (q.g); add (q.b);
        add (q.extra.size ());
        for (auto e : q.extra) add (e);
    }
};

struct situation
{
    records p;
    std::vector<spoc::point::point<double>> q;
    std::vector<size_t> idx, nb;
    std::string wkt, packed, plain;
    double res, radius, a;
    size_t maxn;
};

template<typename T> static void add_points (digest &d, const T &v)
{
    d.add (v.size ());
    for (auto &p : v) { d.add (p.x); d.add (p.y); d.add (p.z); }
}
static void add_index (digest &d, const std::vector<spoc::voxel::voxel_index> &v)
{
    d.add (v.size ());
    for (auto &i : v) { d.add (i.i); d.add (i.j); d.add (i.k); }
}

static const std::vector<std::string> names {"write_spoc_file_compressed", "read_spoc_file_compressed", "get_voxel_indexes",
    "get_voxel_indexes (subset)", "radius_search", "radius_search_all", "quantize", "quantize records", "add_x", "add_y", "add_z",
    "add", "rotate_x", "rotate_y", "rotate_z", "scale_x", "scale_y", "scale_z", "write_spoc_file", "read_spoc_file",
    "get_voxel_indexes (extent)", "radius_search_get_neighbors", "rotate records"};

static std::string perform (int op, const situation &t)
{
    digest d;
    switch (op)
    {
        case 0:
        case 18:
        {
            const sfile f (t.wkt, true, t.p);
            std::ostringstream s;
            if (op == 0) spoc::io::write_spoc_file_compressed (s, f); else spoc::io::write_spoc_file (s, f);
            return s.str ();
        }
        case 1:
        case 19:
        {
            std::istringstream s (t.packed);
            const sfile f = op == 1 ? spoc::io::read_spoc_file_compressed (s) : spoc::io::read_spoc_file (s);
            d.add (f.get_point_records ().size ());
            for (auto &q : f.get_point_records ()) d.add (q);
            break;
        }
        case 2: add_index (d, spoc::voxel::get_voxel_indexes (t.q, t.res)); break;
        case 3: add_index (d, spoc::voxel::get_voxel_indexes (t.q, t.idx, t.res)); break;
        case 20: add_index (d, spoc::voxel::get_voxel_indexes (t.p, spoc::extent::get_extent (t.p), t.res)); break;
        case 4:
        case 5:
        {
            std::vector<std::vector<size_t>> a (op == 4 ? t.idx.size () : t.q.size ());
            auto f = [&] (size_t i, const std::vector<size_t> &v) { a[i] = v; };
            if (op == 4) spoc::radius_search::radius_search (t.q, t.idx, t.nb, t.radius, f, t.maxn);
            else spoc::radius_search::radius_search_all (t.q, t.radius, f, t.maxn);
            for (auto &v : a) { d.add (v.size ()); for (auto k : v) d.add (k); }
            break;
        }
        case 21:
        {
            const auto a = spoc::radius_search::radius_search_get_neighbors (t.q, t.radius);
            for (auto &v : a) { d.add (v.size ()); for (auto k : v) d.add (k); }
            break;
        }
        case 6: { auto q = t.q; spoc::utils::quantize (q, t.res); add_points (d, q); break; }
        case 7: { auto q = t.p; spoc::utils::quantize (q, t.res); for (auto &k : q) d.add (k); break; }
        case 8: { auto q = t.q; spoc::affine::add_x (q, t.a); add_points (d, q); break; }
        case 9: { auto q = t.q; spoc::affine::add_y (q, t.a); add_points (d, q); break; }
        case 10: { auto q = t.q; spoc::affine::add_z (q, t.a); add_points (d, q); break; }
        case 11: { auto q = t.q; spoc::affine::add (q, spoc::point::point<double> (t.a, -t.a, 2 * t.a)); add_points (d, q); break; }
        case 12: { auto q = t.q; spoc::affine::rotate_x (q, t.a); add_points (d, q); break; }
        case 13: { auto q = t.q; spoc::affine::rotate_y (q, t.a); add_points (d, q); break; }
        case 14: { auto q = t.q; spoc::affine::rotate_z (q, t.a); add_points (d, q); break; }
        case 22: { auto q = t.p; spoc::affine::rotate_z (q, t.a); for (auto &k : q) d.add (k); break; }
        case 15: { auto q = t.q; spoc::affine::scale_x (q, t.a); add_points (d, q); break; }
        case 16: { auto q = t.q; spoc::affine::scale_y (q, t.a); add_points (d, q); break; }
        case 17: { auto q = t.q; spoc::affine::scale_z (q, t.a); add_points (d, q); break; }
    }
    return d.s;
}

static situation make (rng &r, size_t n)
{
    situation t;
    const size_t ne = r.pick (std::vector<size_t> {0, 1, 2, 5, 17});
    t.p = gen_records (r, n, ne, true);
    t.wkt = gen_wkt (r, r.below (40));
    const double side = r.pick (std::vector<double> {1, 10, 200});
    for (size_t k = 0; k < n; ++k)
    {
        spoc::point::point<double> q (r.uniform (-side, side), r.uniform (-side, side), r.uniform (-1, 1));
        if (k && r.chance (.1)) q = t.q[r.below (k)];
        t.q.push_back (q);
        if (r.chance (.6)) t.idx.push_back (k);
        if (r.chance (.8)) t.nb.push_back (k);
    }
    t.radius = side * r.pick (std::vector<double> {.1, .3, 1});
    t.res = r.pick (std::vector<double> {.5, 1, 3.3});
    t.a = r.uniform (-300, 300);
    t.maxn = r.pick (std::vector<size_t> {1, 3, 16, 1000});
    std::ostringstream s;
    spoc::io::write_spoc_file_compressed (s, sfile (t.wkt, true, t.p));
    t.packed = s.str ();
    return t;
}

int main (int argc, char **argv)
{
    const options o = parse (argc, argv);
    const long items = o.get ("items", 20), faults = o.get ("faults", 0);
    const size_t top = o.get ("top", 400);
    for (long it = o.shard; it < items; it += o.shards)
    {
        rng r (o.seed, it, 19);
        shim::configure (1, 0, 1);
        const size_t n = r.pick (std::vector<size_t> {0, 1, 2, 3, 5, 7, 8, 31, 64, 100, top, top});
        const situation t = make (r, n);
        for (int op = 0; op < int (names.size ()); ++op)
        {
            shim::configure (1, 0, 1);
            const std::string expect = perform (op, t);
            const long schedules = faults ? 1 : 3;
            for (long s = 0; s < schedules; ++s)
            {
                const int threads = r.pick (std::vector<int> {2, 3, 4, 5, 7, 8, 9, 16, int (2 + r.below (31))});
                const int mode = s % 3;
                shim::configure (threads, mode, r.next ());
                const auto what = cat (names[op], " of ", n, " points, ", t.p.empty () ? 0 : t.p[0].extra.size (), " extra fields, ",
                    threads, " threads, schedule ", mode, ", item ", it);
                at (what);
                const auto before = shim::parallel_regions ();
                if (!faults)
                {
                    const std::string got = perform (op, t);
                    if (got != expect)
                        violation (cat ("thread-count ", names[op]), what + ": the result differs from that of one thread");
                    evaluated (shim::parallel_regions () > before && n > 1 ? what : "");
                    continue;
                }
                // how many allocations are there?
                seen = 0;
                countdown = -1;
                persistent = 0;
                armed = 1;
                countdown = 1L << 40;
                perform (op, t);
                armed = 0;
                const long total = seen;
                for (long k = 0; k < faults; ++k)
                {
                    if (!total)
                        break;
                    const long at_alloc = total <= faults ? k % (total + 1) : long (r.below (total));
                    const bool stay = r.chance (.5);
                    shim::configure (threads, int (r.below (3)), r.next ());
                    failed = 0;
                    countdown = at_alloc;
                    persistent = stay;
                    std::string got;
                    int outcome = 0;
                    armed = 1;
                    try { got = perform (op, t); }
                    catch (const std::exception &) { outcome = 1; }
                    catch (...) { outcome = 2; }
                    armed = 0;
                    const auto w = cat (what, ", allocation ", at_alloc, " of ", total, stay ? " and all later ones fail" : " fails");
                    evaluated (failed ? w : "");
                    if (failed) count (outcome ? "shortages_reported" : "shortages_survived");
                    if (outcome == 0 && got != expect)
                        violation (cat ("lost-shortage ", names[op]), w + ": reports success with a wrong result");
                    if (outcome && !failed)
                        violation (cat ("spurious ", names[op]), w + ": fails without a shortage");
                }
            }
        }
    }
    count ("parallel_regions", shim::parallel_regions ());
    count ("team_members", shim::members ());
    count ("work_shares", shim::works ());
    done ();
}
