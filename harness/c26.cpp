// Equality, order and hashing of points, records, headers, extents and voxel indexes, on pairs and triples of near-equal values.
#include "cloud.h"
#include "spoc/extent.h"
#include "spoc/voxel.h"
#include <unordered_set>
using namespace hk;
using dpoint = spoc::point::point<double>;

#define FAIL(KEY, ...) do { violation (KEY, cat (what, ": ", __VA_ARGS__)); return; } while (0)

template<typename T>
static T value (rng &r)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        switch (r.below (8))
        {
            case 0: return 0;
            case 1: return -T (0);
            case 2: return r.range (-2, 2);
            case 3: return std::numeric_limits<T>::max ();
            case 4: return std::numeric_limits<T>::lowest ();
            case 5: return std::numeric_limits<T>::denorm_min ();
            case 6: return std::numeric_limits<T>::infinity ();
            default: return r.uniform (-1e6, 1e6);
        }
    }
    else
    {
        switch (r.below (6))
        {
            case 0: return 0;
            case 1: return 1;
            case 2: return std::numeric_limits<T>::max ();
            case 3: return std::numeric_limits<T>::min ();
            case 4: return r.below (4);
            default: return T (r.next ());
        }
    }
}

// A value that differs from v, often as little as possible
template<typename T>
static T other (rng &r, T v)
{
    for (;;)
    {
        T w;
        if constexpr (std::is_floating_point_v<T>)
            w = r.chance (.3) ? std::nextafter (v, T (r.chance (.5) ? 1e300 : -1e300)) : r.chance (.3) ? -v : value<T> (r);
        else
            w = r.chance (.6) ? T (v ^ (T (1) << r.below (8 * sizeof (T)))) : value<T> (r);
        if (w != v && w == w)
            return w;
    }
}

struct tally { uint64_t pairs = 0, collisions = 0; };
static std::map<std::string, tally> hashes;

template<typename T>
static std::string pt (const T &p) { return cat ("(", p.x, ",", p.y, ",", p.z, ")"); }

template<typename T>
static void points (rng &r, const std::string &what)
{
    using P = spoc::point::point<T>;
    std::vector<P> v;
    const P base {value<T> (r), value<T> (r), value<T> (r)};
    v.push_back (base);
    for (int k = 0; k < 3; ++k)
    {
        P q (base);
        (k == 0 ? q.x : k == 1 ? q.y : q.z) = other (r, k == 0 ? q.x : k == 1 ? q.y : q.z);
        v.push_back (q);
        (k == 0 ? q.y : k == 1 ? q.z : q.x) = other (r, k == 0 ? q.y : k == 1 ? q.z : q.x);
        v.push_back (q);
        const size_t a = spoc::point::point_hash<T> () (base), b = spoc::point::point_hash<T> () (v[v.size () - 2]);
        auto &t = hashes[cat ("point of ", sizeof (T), std::is_floating_point_v<T> ? " byte float " : " byte integer ", "xyz"[k])];
        ++t.pairs;
        t.collisions += a == b;
    }
    v.push_back (P {base.y, base.x, base.z});
    v.push_back (P {value<T> (r), value<T> (r), value<T> (r)});
    if constexpr (std::is_floating_point_v<T>)
    {
        P z (base);
        if (z.x == 0) z.x = -z.x;
        if (z.y == 0) z.y = -z.y;
        if (z.z == 0) z.z = -z.z;
        v.push_back (z);
        v.push_back (P {0, 0, 0});
        v.push_back (P {-T (0), 0, -T (0)});
    }
    for (auto &a : v)
        for (auto &b : v)
        {
            const bool e = a.x == b.x && a.y == b.y && a.z == b.z;
            if ((a == b) != e || (b == a) != e || (a != b) == e)
                FAIL ("point-equal", pt (a), " and ", pt (b), ": == says ", a == b, ", != says ", a != b);
            const bool lt = a < b, gt = b < a;
            if (int (lt) + int (gt) + int (e) != 1)
                FAIL ("point-order", pt (a), " and ", pt (b), ": < says ", lt, " and ", gt);
            if (e && spoc::point::point_hash<T> () (a) != spoc::point::point_hash<T> () (b))
                FAIL ("point-hash", pt (a), " and ", pt (b), " are equal and have different hashes");
            for (auto &c : v)
                if (lt && b < c && !(a < c))
                    FAIL ("point-transitive", pt (a), pt (b), pt (c));
            count ("point_pairs");
        }
    // a hashed set of them
    std::unordered_set<P, spoc::point::point_hash<T>> s (v.begin (), v.end ());
    std::vector<P> u;
    for (auto &a : v)
        if (std::none_of (u.begin (), u.end (), [&] (const P &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }))
            u.push_back (a);
    if (s.size () != u.size ())
        FAIL ("point-set", "a set of ", u.size (), " different points has ", s.size ());
    std::vector<P> o (v);
    std::sort (o.begin (), o.end ());
    for (size_t k = 0; k + 1 < o.size (); ++k)
        if (o[k + 1] < o[k])
            FAIL ("point-sort", "sorted points are out of order");
    if constexpr (std::is_floating_point_v<T>)
    {
        P n (base);
        n.y = NAN;
        if (n == n || !(n != n) || n == base || !(base != n))
            FAIL ("point-nan", "a point with a NaN is equal to something");
    }
    evaluated (what + typeid (T).name ());
}

static bool same_fields (const record &a, const record &b)
{
    return a.x == b.x && a.y == b.y && a.z == b.z && a.c == b.c && a.p == b.p && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b
        && a.extra == b.extra;
}

static void records_ (rng &r, const std::string &what)
{
    const size_t ne = r.pick (std::vector<size_t> {0, 0, 1, 2, 5, 40});
    record base (ne);
    base.x = value<double> (r); base.y = value<double> (r); base.z = value<double> (r);
    base.c = value<uint32_t> (r); base.p = value<uint32_t> (r); base.i = value<uint16_t> (r);
    base.r = value<uint16_t> (r); base.g = value<uint16_t> (r); base.b = value<uint16_t> (r);
    for (auto &e : base.extra)
        e = value<uint64_t> (r);
    std::vector<record> v {base};
    const spoc::point_record::point_record_hash h;
    auto vary = [&] (const char *name, auto f)
    {
        record q (base);
        f (q);
        auto &t = hashes[cat ("record ", name)];
        ++t.pairs;
        t.collisions += h (q) == h (base);
        v.push_back (q);
    };
    vary ("x", [&] (record &q) { q.x = other (r, q.x); });
    vary ("y", [&] (record &q) { q.y = other (r, q.y); });
    vary ("z", [&] (record &q) { q.z = other (r, q.z); });
    vary ("c", [&] (record &q) { q.c = other (r, q.c); });
    vary ("p", [&] (record &q) { q.p = other (r, q.p); });
    vary ("i", [&] (record &q) { q.i = other (r, q.i); });
    vary ("r", [&] (record &q) { q.r = other (r, q.r); });
    vary ("g", [&] (record &q) { q.g = other (r, q.g); });
    vary ("b", [&] (record &q) { q.b = other (r, q.b); });
    if (ne)
    {
        const size_t k = r.below (ne);
        vary (k == 0 ? "first extra" : k + 1 == ne ? "last extra" : "extra", [&] (record &q) { q.extra[k] = other (r, q.extra[k]); });
        vary ("last extra", [&] (record &q) { q.extra.back () = other (r, q.extra.back ()); });
        vary ("fewer extra", [&] (record &q) { q.extra.pop_back (); });
    }
    vary ("more extra", [&] (record &q) { q.extra.push_back (r.chance (.5) ? 0 : r.next ()); });
    {
        record z (base);
        if (z.x == 0) z.x = -z.x;
        if (z.y == 0) z.y = -z.y;
        if (z.z == 0) z.z = -z.z;
        v.push_back (z);
        record s (base);
        std::swap (s.r, s.b);
        v.push_back (s);
        record t (base);
        std::swap (t.c, t.p);
        v.push_back (t);
    }
    for (auto &a : v)
        for (auto &b : v)
        {
            const bool e = same_fields (a, b);
            if ((a == b) != e || (b == a) != e || (a != b) == e)
                FAIL ("record-equal", show (a), " and ", show (b), ": == says ", a == b, ", != says ", a != b);
            if (e && h (a) != h (b))
                FAIL ("record-hash", show (a), " and ", show (b), " are equal and have different hashes");
            count ("record_pairs");
        }
    std::unordered_set<record, spoc::point_record::point_record_hash> s (v.begin (), v.end ());
    std::vector<record> u;
    for (auto &a : v)
        if (std::none_of (u.begin (), u.end (), [&] (const record &b) { return same_fields (a, b); }))
            u.push_back (a);
    if (s.size () != u.size ())
        FAIL ("record-set", "a set of ", u.size (), " different records has ", s.size ());
    record n (base);
    n.z = NAN;
    if (n == n || !(n != n))
        FAIL ("record-nan", "a record with a NaN is equal to itself");
    evaluated (what + "r");
}

static void headers (rng &r, const std::string &what)
{
    using header = spoc::header::header;
    const std::string w = gen_wkt (r, r.pick (std::vector<size_t> {0, 1, 5, 300}));
    const header base (r.below (256), r.below (256), w, r.below (256), r.next (), r.chance (.5));
    std::vector<header> v {base};
    auto vary = [&] (auto f) { header q (base); f (q); v.push_back (q); };
    for (int k = 0; k < 4; ++k)
        vary ([&] (header &q) { q.signature[k] ^= 1 << r.below (7); });
    vary ([&] (header &q) { q.major_version = other (r, q.major_version); });
    vary ([&] (header &q) { q.minor_version = other (r, q.minor_version); });
    vary ([&] (header &q) { q.wkt += r.chance (.5) ? std::string (1, 0) : "x"; });
    vary ([&] (header &q) { if (q.wkt.empty ()) q.wkt = "y"; else q.wkt[r.below (q.wkt.size ())] ^= 1; });
    vary ([&] (header &q) { q.extra_fields = other (r, q.extra_fields); });
    vary ([&] (header &q) { q.total_points = other (r, q.total_points); });
    vary ([&] (header &q) { q.compressed = !q.compressed; });
    v.push_back (base);
    for (size_t i = 0; i < v.size (); ++i)
        for (size_t j = 0; j < v.size (); ++j)
        {
            const header &a = v[i], &b = v[j];
            const bool e = !memcmp (a.signature, b.signature, 4) && a.major_version == b.major_version && a.minor_version == b.minor_version
                && a.wkt == b.wkt && a.extra_fields == b.extra_fields && a.total_points == b.total_points && a.compressed == b.compressed;
            if ((a == b) != e || (a != b) == e)
                FAIL ("header-equal", "variants ", i, " and ", j, ": == says ", a == b, ", != says ", a != b, ", should be ", e);
            count ("header_pairs");
        }
    evaluated (what + "h");
}

static void extents (rng &r, const std::string &what)
{
    using ext = spoc::extent::extent;
    auto p = [&] { return dpoint {value<double> (r), value<double> (r), value<double> (r)}; };
    const ext base {p (), p ()};
    std::vector<ext> v {base, base};
    for (int k = 0; k < 6; ++k)
    {
        ext q (base);
        double &d = k == 0 ? q.minp.x : k == 1 ? q.minp.y : k == 2 ? q.minp.z : k == 3 ? q.maxp.x : k == 4 ? q.maxp.y : q.maxp.z;
        d = other (r, d);
        v.push_back (q);
    }
    v.push_back (ext {base.maxp, base.minp});
    for (auto &a : v)
        for (auto &b : v)
        {
            const bool e = a.minp.x == b.minp.x && a.minp.y == b.minp.y && a.minp.z == b.minp.z && a.maxp.x == b.maxp.x && a.maxp.y == b.maxp.y
                && a.maxp.z == b.maxp.z;
            if ((a == b) != e || (b == a) != e || (a != b) == e)
                FAIL ("extent-equal", pt (a.minp), pt (a.maxp), " and ", pt (b.minp), pt (b.maxp), ": == says ", a == b);
            count ("extent_pairs");
        }
    evaluated (what + "e");
}

static void voxels (rng &r, const std::string &what)
{
    using vox = spoc::voxel::voxel_index;
    const vox base (value<size_t> (r), value<size_t> (r), value<size_t> (r));
    std::vector<vox> v {base, vox (), vox (0, 0, 0)};
    const spoc::voxel::voxel_index_hash h;
    for (int k = 0; k < 3; ++k)
    {
        vox q (base);
        size_t &d = k == 0 ? q.i : k == 1 ? q.j : q.k;
        d = other (r, d);
        v.push_back (q);
    }
    v.push_back (vox (base.j, base.i, base.k));
    v.push_back (vox (base.i, base.k, base.j));
    for (int k = 0; k < 10; ++k)
        v.push_back (vox (base.i + r.below (2), base.j + r.below (2), base.k + r.below (2)));
    // indexes whose hashes coincide
    v.push_back (vox (base.i ^ (size_t (5) << 16), base.j ^ 5, base.k));
    v.push_back (vox (base.i ^ (size_t (7) << 32), base.j, base.k ^ 7));
    for (auto &a : v)
        for (auto &b : v)
        {
            const bool e = a.i == b.i && a.j == b.j && a.k == b.k;
            if ((a == b) != e || (b == a) != e || (a != b) == e)
                FAIL ("voxel-equal", a.i, " ", a.j, " ", a.k, " and ", b.i, " ", b.j, " ", b.k, ": == says ", a == b);
            if (e && h (a) != h (b))
                FAIL ("voxel-hash", "equal indexes have different hashes");
            count ("voxel_pairs");
        }
    std::set<std::array<size_t, 3>> u;
    for (auto &a : v)
        u.insert ({a.i, a.j, a.k});
    const auto s = spoc::voxel::get_voxel_index_set (v);
    if (s.size () != u.size ())
        FAIL ("voxel-set", "a set of ", u.size (), " different voxels has ", s.size ());
    evaluated (what + "v");
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const size_t items = o.get ("items", 1000);
    for (size_t it = o.shard; it < items; it += o.shards)
    {
        rng r (o.seed, it, 26);
        const auto what = cat ("item ", it);
        if (it % 64 == o.shard)
            at (what);
        points<double> (r, what);
        points<float> (r, what);
        points<int> (r, what);
        points<uint64_t> (r, what);
        records_ (r, what);
        headers (r, what);
        extents (r, what);
        voxels (r, what);
        sample (what);
    }
    for (auto &t : hashes)
    {
        count ("hash_pairs", t.second.pairs);
        count ("hash_collisions", t.second.collisions);
        if (t.second.pairs >= 50 && t.second.collisions * 20 > t.second.pairs)
            violation ("hash-ignores", cat ("the hash of a ", t.first, " did not change in ", t.second.collisions, " of ", t.second.pairs, " pairs"));
    }
    done ();
}
