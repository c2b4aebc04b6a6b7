// The geometric helpers compared with their definitions in extended precision.
#include "cloud.h"
#include "spoc/extent.h"
#include "spoc/point.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
#include "spoc/affine.h"
#include <omp.h>
using namespace hk;
using ld = long double;
using dpoint = spoc::point::point<double>;
using dpoints = std::vector<dpoint>;
using ext = spoc::extent::extent;

struct plain { double x = 0, y = 0, z = 0; };

// Coordinates along one axis
struct axis
{
    int style;
    double off, side;
    explicit axis (rng &r)
        : style (r.below (9))
        , off (r.pick (std::vector<double> {0, 0, 0, 5, -5, 1000, -1000, 356000.25, -3.5e6, 1e12, -1e15}))
        , side (r.pick (std::vector<double> {1, 1, 1e-3, 1e-9, 100, 1e6, 1e100, 1e-100}))
    {}
    double operator() (rng &r) const
    {
        switch (style)
        {
            default: return r.uniform (-side, side) + off;
            case 1: return off;                                          // constant
            case 2: return double (r.range (-8, 8));
            case 3: return r.range (-64, 64) / 16.0 + std::trunc (off);  // binary fractions
            case 4: return -std::abs (r.uniform (0, side)) - std::abs (off) - side / 1e3; // all negative
            case 5: return std::abs (r.uniform (0, side)) + std::abs (off) + side / 1e3; // all positive
            case 6: return r.chance (.5) ? 0.0 : -0.0;
            case 7: return r.pick (std::vector<double> {-1e15, 1e15, 1e-15, -1e-15, 0, 1, -1});
            case 8: return std::round (r.uniform (-100, 100) * 100) / 100 + std::trunc (off);
        }
    }
};

template<typename C>
static C make (rng &r, size_t n, bool exact)
{
    axis a[3] {axis (r), axis (r), axis (r)};
    if (exact)
        for (auto &k : a)
        {
            k.style = r.pick (std::vector<int> {2, 3});
            k.off = std::trunc (r.pick (std::vector<double> {0, -5, 1000, -3.5e6}));
        }
    C c (n);
    for (size_t k = 0; k < n; ++k)
    {
        c[k].x = a[0] (r);
        c[k].y = a[1] (r);
        c[k].z = a[2] (r);
        if (k && r.chance (.1))
        {
            const auto &o = c[r.below (k)];
            c[k].x = o.x;
            if (r.chance (.5)) c[k].y = o.y;
            if (r.chance (.5)) c[k].z = o.z;
        }
    }
    if constexpr (std::is_same_v<C, records>)
    {
        const size_t ne = r.below (3);
        for (auto &p : c)
        {
            p.c = r.next (); p.p = r.next (); p.i = r.next (); p.r = r.next (); p.g = r.next (); p.b = r.next ();
            p.extra.resize (ne);
            for (auto &e : p.extra)
                e = r.next ();
        }
    }
    return c;
}

// All but the coordinates are the same
template<typename T>
static bool same_rest (const T &a, const T &b)
{
    if constexpr (std::is_same_v<T, record>)
        return a.c == b.c && a.p == b.p && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && a.extra == b.extra;
    return true;
}
template<typename T>
static std::string pt (const T &p) { return cat ("(", p.x, ",", p.y, ",", p.z, ")"); }
static bool near (double got, ld want, ld tol) { return std::isfinite (got) && std::abs (ld (got) - want) <= tol; }
template<typename T>
static double co (const T &p, int a) { return a == 0 ? p.x : a == 1 ? p.y : p.z; }
static const char *AX = "xyz";

#define FAIL(KEY, ...) do { violation (KEY, cat (what, ": ", __VA_ARGS__)); return; } while (0)

template<typename C>
static void test_extent (rng &r, const std::string &what, const C &c)
{
    const auto e = spoc::extent::get_extent (c);
    count ("extents");
    if (c.empty ())
        return;
    for (int a = 0; a < 3; ++a)
    {
        double lo = INFINITY, hi = -INFINITY;
        for (auto &p : c)
        {
            if (co (p, a) < lo) lo = co (p, a);
            if (co (p, a) > hi) hi = co (p, a);
        }
        if (co (e.minp, a) != lo || co (e.maxp, a) != hi)
            FAIL ("extent", "the extent along ", AX[a], " is ", co (e.minp, a), " to ", co (e.maxp, a), " instead of ", lo, " to ", hi);
    }
    // the union, also with the extent of nothing
    const size_t k = r.below (c.size () + 1);
    const C first (c.begin (), c.begin () + k), second (c.begin () + k, c.end ());
    const auto t = spoc::extent::get_total_extent (spoc::extent::get_extent (first), spoc::extent::get_extent (second));
    const auto u = spoc::extent::get_total_extent (spoc::extent::get_extent (second), spoc::extent::get_extent (first));
    if (!(t == e) || !(u == e))
        FAIL ("union", "the total extent of the first ", k, " points and the others is ", pt (t.minp), pt (t.maxp), " instead of ", pt (e.minp), pt (e.maxp));
    const ld dx = ld (e.maxp.x) - e.minp.x, dy = ld (e.maxp.y) - e.minp.y, dz = ld (e.maxp.z) - e.minp.z;
    if (std::isfinite (double (dx * dy * dz)) && std::isfinite (double (dx * dy)))
    {
        if (!near (spoc::extent::get_area (e), dx * dy, dx * dy * 1e-15L + 1e-300L) || !near (spoc::extent::get_volume (e), dx * dy * dz, dx * dy * dz * 2e-15L + 1e-300L))
            FAIL ("area", "area ", spoc::extent::get_area (e), " volume ", spoc::extent::get_volume (e), " of ", pt (e.minp), pt (e.maxp));
    }
    for (int k = 0; k < 4; ++k)
    {
        const auto &p = c[r.below (c.size ())], &q = c[r.below (c.size ())];
        const dpoint a {p.x, p.y, p.z}, b {q.x, q.y, q.z};
        if (spoc::extent::all_less_equal (a, b) != (p.x <= q.x && p.y <= q.y && p.z <= q.z))
            FAIL ("all-less-equal", pt (a), pt (b));
    }
    const auto by = spoc::extent::encode_extent (e);
    const auto d = spoc::extent::decode_extent (by);
    for (int a = 0; a < 3; ++a)
        if (!same (co (d.minp, a), co (e.minp, a)) || !same (co (d.maxp, a), co (e.maxp, a)))
            FAIL ("extent-bytes", "the decoded extent is ", pt (d.minp), pt (d.maxp), " instead of ", pt (e.minp), pt (e.maxp));
}

static void test_rescale (rng &r, const std::string &what, const dpoints &c)
{
    if (c.empty ())
        return;
    ext e = spoc::extent::get_extent (c);
    if (r.chance (.3)) // a larger box
        e = spoc::extent::get_total_extent (e, ext {{e.minp.x - 3, e.minp.y, e.minp.z - .5}, {e.maxp.x, e.maxp.y + 7, e.maxp.z + .25}});
    const dpoint s = e.maxp - e.minp;
    const auto q = spoc::extent::rescale (c, e);
    const auto b = spoc::extent::restore (q, e);
    count ("rescaled", c.size ());
    if (q.size () != c.size () || b.size () != c.size ())
        FAIL ("rescale", "wrong number of results");
    const ld top = 4611686018427387904.0L;
    auto cu = [] (const spoc::point::point<uint64_t> &p, int a) { return a == 0 ? p.x : a == 1 ? p.y : p.z; };
    for (size_t k = 0; k < c.size (); ++k)
    {
        for (int a = 0; a < 3; ++a)
        {
            const ld m = co (e.minp, a), v = co (c[k], a), w = ld (co (e.maxp, a)) - m;
            if (cu (q[k], a) > top)
                FAIL ("rescale", "point ", k, " ", pt (c[k]), ", axis ", AX[a], " becomes ", cu (q[k], a), ", beyond the range, in ", pt (e.minp), pt (e.maxp));
            if (w > 0 && w < 1e-280L)
                continue; // the quotient can be subnormal
            const ld want = w > 0 ? (v - m) / w * top : 0;
            if (std::abs (ld (cu (q[k], a)) - want) > top * 1e-15L)
                FAIL ("rescale", "point ", k, " ", pt (c[k]), ", axis ", AX[a], " becomes ", cu (q[k], a), " instead of ", double (want), " in ", pt (e.minp), pt (e.maxp));
            if (!near (co (b[k], a), v, 2e-15L * w + 4e-16L * (std::abs (m) + std::abs (v)) + 1e-300L))
                FAIL ("restore", "point ", k, " ", pt (c[k]), ", axis ", AX[a], " comes back as ", co (b[k], a), " in ", pt (e.minp), pt (e.maxp));
        }
        const auto one = spoc::extent::rescale (c[k], s, e.minp);
        const auto back = spoc::extent::restore (q[k], s, e.minp);
        if (one.x != q[k].x || one.y != q[k].y || one.z != q[k].z || !(back == b[k]))
            FAIL ("rescale-one", "point ", k, " alone is rescaled or restored differently");
    }
}

// Sets and maps of voxel indexes, against an ordered map
static void test_voxel_groups (const std::string &what, const std::vector<spoc::voxel::voxel_index> &v)
{
    auto less = [] (const spoc::voxel::voxel_index &a, const spoc::voxel::voxel_index &b) { return std::tie (a.i, a.j, a.k) < std::tie (b.i, b.j, b.k); };
    std::map<spoc::voxel::voxel_index, std::set<size_t>, decltype (less)> want (less);
    for (size_t k = 0; k < v.size (); ++k)
        want[v[k]].insert (k);
    const auto s = spoc::voxel::get_voxel_index_set (v);
    const auto m = spoc::voxel::get_voxel_index_map (v);
    if (s.size () != want.size () || m.size () != want.size ())
        FAIL ("voxel-set", s.size (), " voxels in the set, ", m.size (), " in the map, should be ", want.size ());
    for (auto &w : want)
    {
        if (s.find (w.first) == s.end ())
            FAIL ("voxel-set", "a voxel is missing in the set");
        const auto f = m.find (w.first);
        if (f == m.end () || f->second.size () != w.second.size () || std::set<size_t> (f->second.begin (), f->second.end ()) != w.second)
            FAIL ("voxel-map", "the map entry of voxel ", w.first.i, ",", w.first.j, ",", w.first.k, " is wrong or missing");
    }
    if (want.size () > 1 && want.size () < v.size ())
        evaluated (what);
}

template<typename C>
static void test_voxels (rng &r, const std::string &what, const C &c, bool exact)
{
    auto e = spoc::extent::get_extent (c);
    double side = 0;
    if (!c.empty ())
        side = std::max ({e.maxp.x - e.minp.x, e.maxp.y - e.minp.y, e.maxp.z - e.minp.z});
    double res = exact ? std::ldexp (1.0, r.range (-5, 6)) : r.pick (std::vector<double> {1, .3, 2.1, .01, 7.5, 1000});
    if (side / res > 1e15)
        res = side / r.uniform (1, 1e6);
    if (side == 0 && res == 0)
        res = 1;
    const bool own = !c.empty () && r.chance (.3);
    if (own) // a given box instead of that of the points
    {
        e.minp.x -= res * r.range (0, 3);
        e.minp.y -= res * r.range (0, 3);
        e.minp.z -= res * r.range (0, 3);
    }
    std::vector<size_t> idx;
    const int form = own ? 0 : r.below (3);
    std::vector<spoc::voxel::voxel_index> v;
    if (form == 2)
    {
        for (size_t k = 0; k < c.size (); ++k)
            if (r.chance (.6))
                idx.insert (idx.begin () + r.below (idx.size () + 1), k);
        v = spoc::voxel::get_voxel_indexes (c, idx, res);
    }
    else
    {
        for (size_t k = 0; k < c.size (); ++k)
            idx.push_back (k);
        v = form == 0 ? spoc::voxel::get_voxel_indexes (c, e, res) : spoc::voxel::get_voxel_indexes (c, res);
    }
    count ("voxel_indexes", v.size ());
    if (v.size () != idx.size ())
        FAIL ("voxels", v.size (), " voxel indexes for ", idx.size (), " points");
    for (size_t k = 0; k < v.size (); ++k)
    {
        const auto one = spoc::voxel::get_voxel_index (c[idx[k]], e.minp, res);
        if (!(one == v[k]))
            FAIL ("voxel-one", "point ", idx[k], " alone has another index");
        const size_t g[3] {v[k].i, v[k].j, v[k].k};
        for (int a = 0; a < 3; ++a)
        {
            const ld q = (ld (co (c[idx[k]], a)) - co (e.minp, a)) / res, f = std::floor (q), n = std::round (q);
            bool ok = ld (g[a]) == f;
            if (!exact && std::abs (q - n) <= 1e-15L * std::max (q, ld (1)) * 4)
                ok = ld (g[a]) == n || (n > 0 && ld (g[a]) == n - 1);
            if (!ok)
                FAIL ("voxel", "point ", idx[k], " ", pt (c[idx[k]]), " has index ", g[a], " along ", AX[a], " instead of ", double (f), " (minimum ",
                    co (e.minp, a), ", resolution ", res, ")");
        }
    }
    // sets and maps
    test_voxel_groups (what + "v", v);
    // voxels of any index, many of them neighbors in one dimension only, in
    // the same bits of different dimensions, or equal
    {
        std::vector<spoc::voxel::voxel_index> w;
        const size_t n = r.below (60);
        for (size_t k = 0; k < n; ++k)
        {
            if (k && r.chance (.25))
            {
                w.push_back (w[r.chance (.5) ? k - 1 : r.below (k)]);
                continue;
            }
            size_t g[3];
            const size_t shift = r.below (4), bit = size_t (1 + r.below (3));
            for (auto &x : g)
                x = r.chance (.3) ? r.below (4) : 0;
            if (shift < 3)
            {
                // one of the indexes that mean the same when the dimensions are
                // packed into one word
                static const int B[] {8, 10, 16, 20, 21, 32};
                const int b = B[r.below (6)], a = int (shift);
                g[a] |= b * (2 - a) < 64 ? bit << (b * (2 - a)) : bit;
            }
            else
                for (auto &x : g)
                    x = size_t (r.next ()) >> r.below (64);
            w.push_back (spoc::voxel::voxel_index (g[0], g[1], g[2]));
        }
        test_voxel_groups (what + " indexes", w);
    }
    // a resolution for which the indexes cannot be represented is refused
    if (!c.empty () && side > 0 && side < 1e100)
    {
        bool threw = false;
        try { spoc::voxel::get_voxel_indexes (c, side / 1e25); }
        catch (const std::runtime_error &) { threw = true; }
        if (!threw)
            FAIL ("voxel-range", "a resolution of ", side / 1e25, " for a side of ", side, " is accepted");
        count ("resolutions_refused");
    }
}

template<typename C>
static void test_crop (rng &r, const std::string &what, const C &c)
{
    ext e;
    auto bound = [&] (int a)
    {
        double lo = c.empty () || r.chance (.2) ? r.uniform (-2, 2) : co (c[r.below (c.size ())], a);
        double hi = c.empty () || r.chance (.2) ? r.uniform (-2, 2) : co (c[r.below (c.size ())], a);
        if (r.chance (.1)) lo = std::nextafter (lo, INFINITY);
        if (r.chance (.1)) hi = std::nextafter (hi, -INFINITY);
        if (hi < lo && r.chance (.95))
            std::swap (lo, hi);
        return std::pair (lo, hi);
    };
    std::tie (e.minp.x, e.maxp.x) = bound (0);
    std::tie (e.minp.y, e.maxp.y) = bound (1);
    std::tie (e.minp.z, e.maxp.z) = bound (2);
    // one axis at a time matters more often than all
    const int free = r.below (5);
    if (free != 0 && free < 4) { e.minp.x = -1e300; e.maxp.x = 1e300; }
    if (free != 1 && free < 4) { e.minp.y = -1e300; e.maxp.y = 1e300; }
    if (free != 2 && free < 4) { e.minp.z = -1e300; e.maxp.z = 1e300; }
    C want;
    for (auto &p : c)
        if (p.x >= e.minp.x && p.x <= e.maxp.x && p.y >= e.minp.y && p.y <= e.maxp.y && p.z >= e.minp.z && p.z <= e.maxp.z)
            want.push_back (p);
    const C got = spoc::utils::crop (c, e);
    count ("cropped", c.size ());
    if (got.size () != want.size ())
        FAIL ("crop", got.size (), " points are inside ", pt (e.minp), pt (e.maxp), " instead of ", want.size ());
    for (size_t k = 0; k < got.size (); ++k)
        if (!same (got[k].x, want[k].x) || !same (got[k].y, want[k].y) || !same (got[k].z, want[k].z) || !same_rest (got[k], want[k]))
            FAIL ("crop", "point ", k, " is ", pt (got[k]), " instead of ", pt (want[k]));
    if (!want.empty () && want.size () < c.size ())
        evaluated (what + "c");
}

template<typename C>
static void test_affine (rng &r, const std::string &what0, const C &c)
{
    const int op = r.below (10);
    static const char *names[] = {"add_x", "add_y", "add_z", "add", "rotate_x", "rotate_y", "rotate_z", "scale_x", "scale_y", "scale_z"};
    double v = r.pick (std::vector<double> {0, 1, -1, .1, 2.5, -1e3, 1e-5, 90, 180, -90, 45, 30, 359, 360, 720.5, -33.3});
    if (r.chance (.4))
        v = r.uniform (-400, 400);
    const auto what = cat (what0, " ", names[op], " ", v);
    C g (c);
    typename C::value_type o;
    o.x = v; o.y = r.uniform (-5, 5); o.z = r.uniform (-5, 5);
    switch (op)
    {
        case 0: spoc::affine::add_x (g, v); break;
        case 1: spoc::affine::add_y (g, v); break;
        case 2: spoc::affine::add_z (g, v); break;
        case 3: spoc::affine::add (g, o); break;
        case 4: spoc::affine::rotate_x (g, v); break;
        case 5: spoc::affine::rotate_y (g, v); break;
        case 6: spoc::affine::rotate_z (g, v); break;
        case 7: spoc::affine::scale_x (g, v); break;
        case 8: spoc::affine::scale_y (g, v); break;
        case 9: spoc::affine::scale_z (g, v); break;
    }
    count (names[op]);
    if (g.size () != c.size ())
        FAIL ("affine", "the number of points changed");
    const ld rad = ld (v) * 3.14159265358979323846264338327950288L / 180, cs = std::cos (rad), sn = std::sin (rad);
    for (size_t k = 0; k < c.size (); ++k)
    {
        const auto &p = c[k];
        ld w[3] {p.x, p.y, p.z}, t[3] {0, 0, 0};
        const ld x = p.x, y = p.y, z = p.z, u = 4e-16L;
        auto rot = [&] (int a, int b, ld m, ld n)
        {
            w[a] = m * cs - n * sn;
            w[b] = m * sn + n * cs;
            t[a] = t[b] = (std::abs (m) + std::abs (n)) * u * (2 + std::abs (rad));
        };
        switch (op)
        {
            case 0: case 1: case 2: w[op] += v; t[op] = u * std::abs (w[op]); break;
            case 3: w[0] += o.x; w[1] += o.y; w[2] += o.z; for (int a = 0; a < 3; ++a) t[a] = u * std::abs (w[a]); break;
            case 4: rot (1, 2, y, z); break;
            case 5: rot (0, 2, x, z); break; // as the transform tool does
            case 6: rot (0, 1, x, y); break;
            case 7: case 8: case 9: w[op - 7] *= v; t[op - 7] = u * std::abs (w[op - 7]); break;
        }
        for (int a = 0; a < 3; ++a)
        {
            if (std::abs (w[a]) > 1e300L)
                continue;
            if (t[a] == 0 ? co (g[k], a) != double (w[a]) : !near (co (g[k], a), w[a], t[a] + 1e-300L))
                FAIL ("affine", "point ", k, " ", pt (p), ": ", AX[a], " becomes ", co (g[k], a), " instead of ", double (w[a]));
        }
        if (!same_rest (g[k], p))
            FAIL ("affine-rest", "point ", k, ": other fields changed");
    }
    // inverse pairs
    C h (g);
    switch (op)
    {
        case 0: spoc::affine::add_x (h, -v); break;
        case 1: spoc::affine::add_y (h, -v); break;
        case 2: spoc::affine::add_z (h, -v); break;
        case 4: spoc::affine::rotate_x (h, -v); break;
        case 5: spoc::affine::rotate_y (h, -v); break;
        case 6: spoc::affine::rotate_z (h, -v); break;
        default: return;
    }
    for (size_t k = 0; k < c.size (); ++k)
        for (int a = 0; a < 3; ++a)
        {
            const ld tol = 4e-16L * (std::abs (ld (c[k].x)) + std::abs (ld (c[k].y)) + std::abs (ld (c[k].z)) + std::abs (v)) * 4 * (2 + std::abs (rad)) + 1e-300L;
            if (!near (co (h[k], a), co (c[k], a), tol))
                FAIL ("inverse", "point ", k, " ", pt (c[k]), " comes back as ", pt (h[k]));
        }
    evaluated (what + "a");
}

template<typename C>
static void test_quantize_by (const std::string &what, const C &c, double pr);

template<typename C>
static void test_quantize (rng &r, const std::string &what0, const C &c)
{
    const double pr = r.pick (std::vector<double> {1, .5, .25, .1, .01, .001, 3, 1000, 1e-6, -.5, r.uniform (.01, 10), double (1 + r.below (1000)),
        double (1 + r.below (1000))});
    const auto what = cat (what0, " quantize ", pr);
    C b (c);
    // some coordinates that are multiples of the precision already
    if (r.chance (.5))
        for (auto &p : b)
            for (int a = 0; a < 3; ++a)
                if (r.chance (.5))
                    (a == 0 ? p.x : a == 1 ? p.y : p.z) = (double (r.below (2001)) - 1000) * pr;
    test_quantize_by (what, b, pr);
}

template<typename C>
static void test_quantize_by (const std::string &what, const C &c, const double pr)
{
    C g (c);
    spoc::utils::quantize (g, pr);
    count ("quantized", c.size ());
    for (size_t k = 0; k < c.size (); ++k)
    {
        for (int a = 0; a < 3; ++a)
        {
            const ld q = ld (co (c[k], a)) / pr, t = std::trunc (q), n = std::round (q);
            if (std::abs (q) > 1e300L)
                continue;
            // an exact multiple stays as it is
            if (std::abs (q) < 9e15L && std::fmod (double (co (c[k], a)), pr) == 0)
            {
                count ("exact_multiples");
                if (co (g[k], a) != co (c[k], a))
                    FAIL ("quantize", "point ", k, " ", pt (c[k]), ": ", AX[a], " is a multiple already but becomes ", co (g[k], a));
                continue;
            }
            auto is = [&] (ld m) { return near (co (g[k], a), m * pr, 4e-16L * std::abs (m * pr)); };
            bool ok = is (t);
            if (!ok && std::abs (q - n) <= 1e-15L * std::max (std::abs (q), ld (1)))
                ok = is (n) || is (n + (q < 0 ? 1 : -1)) || std::abs (q) > 1e15L && near (co (g[k], a), co (c[k], a), std::abs (pr) + 1e-15L * std::abs (q * pr));
            if (!ok)
                FAIL ("quantize", "point ", k, " ", pt (c[k]), ": ", AX[a], " becomes ", co (g[k], a), " instead of ", double (t * pr));
        }
        if (!same_rest (g[k], c[k]))
            FAIL ("quantize-rest", "point ", k, ": other fields changed");
    }
    evaluated (c.empty () ? "" : what + "q");
}

template<typename C>
static void test_center (const std::string &what, const C &c)
{
    if (c.empty ())
        return;
    const auto m = spoc::utils::get_center (c);
    for (int a = 0; a < 3; ++a)
    {
        ld s = 0, t = 0;
        for (auto &p : c)
        {
            s += co (p, a);
            t += std::abs (ld (co (p, a)));
        }
        if (t > 1e300L)
            continue;
        if (!near (co (m, a), s / c.size (), t / c.size () * (c.size () + 4) * 3e-16L + 1e-300L))
            FAIL ("center", "the center along ", AX[a], " is ", co (m, a), " instead of ", double (s / c.size ()));
    }
    count ("centers");
}

template<typename C>
static void test_distance (rng &r, const std::string &what, const C &c)
{
    for (size_t k = 0; k + 1 < c.size (); ++k)
    {
        const auto &a = c[k], &b = c[r.below (c.size ())];
        const ld x = ld (a.x) - b.x, y = ld (a.y) - b.y, z = ld (a.z) - b.z, d = std::sqrt (x * x + y * y + z * z);
        const ld top = std::max ({std::abs (x), std::abs (y), std::abs (z)});
        if (top > 1e150L || (top > 0 && top < 1e-140L))
            continue;
        const double g = spoc::point::distance (a, b), h = spoc::point::distance (b, a);
        if (!near (g, d, d * 1e-15L) || g != h)
            FAIL ("distance", "between ", pt (a), " and ", pt (b), ": ", g, " and ", h, " instead of ", double (d));
        count ("distances");
        const dpoint p {a.x, a.y, a.z}, q {b.x, b.y, b.z};
        dpoint s = p, t = p;
        s += q;
        t -= q;
        const dpoint s2 = p + q, t2 = p - q;
        for (int k = 0; k < 3; ++k)
            if (!near (co (s, k), ld (co (p, k)) + co (q, k), 2e-16L * std::abs (ld (co (p, k)) + co (q, k)))
                || !near (co (t, k), ld (co (p, k)) - co (q, k), 2e-16L * std::abs (ld (co (p, k)) - co (q, k)))
                || co (s2, k) != co (s, k) || co (t2, k) != co (t, k))
                FAIL ("arithmetic", pt (p), " and ", pt (q), " give ", pt (s), pt (s2), pt (t), pt (t2));
    }
}

template<typename T>
static void bytes_of (rng &r, const std::string &what, const char *type)
{
    const size_t n = r.below (40);
    std::vector<spoc::point::point<T>> p (n);
    for (auto &q : p)
    {
        uint64_t u[3] {r.next (), r.next (), r.next ()};
        memcpy (&q.x, &u[0], sizeof (T));
        memcpy (&q.y, &u[1], sizeof (T));
        memcpy (&q.z, &u[2], sizeof (T));
    }
    const auto b = spoc::point::encode_points (p);
    std::vector<uint8_t> want;
    for (auto &q : p)
        for (const T *v : {&q.x, &q.y, &q.z})
            want.insert (want.end (), (const uint8_t *) v, (const uint8_t *) v + sizeof (T));
    if (b != want)
        FAIL ("encode", "encode_points of ", n, " ", type, " points is wrong");
    const auto d = spoc::point::decode_points<T> (b);
    if (d.size () != n || (n && memcmp (d.data (), p.data (), n * sizeof (p[0]))))
        FAIL ("decode", "decode_points of ", n, " ", type, " points is wrong");
    count ("point_codings", n);
}

// equality to a precision: every difference rounds to zero at that many decimals
static void test_about_equal (rng &r, const std::string &what)
{
    using spoc::point::about_equal;
    const unsigned pr = r.below (13);
    const ld s = std::pow (ld (10), ld (pr));
    dpoints a (1 + r.below (5)), b;
    for (auto &p : a)
    {
        const double m = r.pick (std::vector<double> {0, 1, 1000, -50, .5});
        p = {m * r.uniform (-1, 1), m + r.below (10) / double (s), r.below (100) / 8.0};
        // on an edge where rounding each value by itself would go different ways
        if (r.chance (.5))
            p.z = double ((r.below (100) + .5L) / s);
    }
    b = a;
    for (auto &p : b)
        for (int k = 0; k < 3; ++k)
            if (r.chance (a.size () > 2 ? .1 : .3))
                (k == 0 ? p.x : k == 1 ? p.y : p.z) += double (r.pick (std::vector<ld> {.1L, .4L, .49L, .499L, .501L, .51L, .6L, .9L, 1, 1.2L, 10, 1e-3L, .3L, .2L}) / s) * (r.chance (.5) ? 1 : -1);
    bool all = true, sure_all = true;
    for (size_t k = 0; k < a.size (); ++k)
    {
        bool eq = true, sure = true;
        for (int x = 0; x < 3; ++x)
        {
            const double u = co (a[k], x), v = co (b[k], x);
            const ld d = std::abs (ld (u) - v) * s;
            const bool e = d < .5L, known = std::abs (d - .5L) > 1e-6L + std::abs (ld (u)) * s * 1e-15L;
            eq &= e;
            sure &= known;
            if (known && (about_equal (u, v, pr) != e || about_equal (v, u, pr) != e))
                FAIL ("about-equal", u, " and ", v, " to ", pr, " decimals are said to be ", e ? "different" : "equal");
            count (e ? "about_equal" : "about_different");
        }
        if (sure && (about_equal (a[k], b[k], pr) != eq || about_equal (b[k], a[k], pr) != eq))
            FAIL ("about-equal-point", pt (a[k]), " and ", pt (b[k]), " to ", pr, " decimals are said to be ", eq ? "different" : "equal");
        all &= eq;
        sure_all &= sure;
    }
    if (sure_all && about_equal (a, b, pr) != all)
        FAIL ("about-equal-points", a.size (), " points to ", pr, " decimals are said to be ", all ? "different" : "equal");
}

static void test_bytes (rng &r, const std::string &what)
{
    for (int k = 0; k < 20; ++k)
    {
        const dpoint p {gen_double (r, r.below (8)), gen_double (r, r.below (8)), gen_double (r, r.below (8))};
        const auto b = spoc::point::encode_point (p);
        uint8_t want[24];
        memcpy (want, &p.x, 8);
        memcpy (want + 8, &p.y, 8);
        memcpy (want + 16, &p.z, 8);
        if (b.size () != 24 || memcmp (want, b.data (), 24))
            FAIL ("encode", "encode_point of ", pt (p));
        const auto q = spoc::point::decode_point (b);
        if (!same (p.x, q.x) || !same (p.y, q.y) || !same (p.z, q.z))
            FAIL ("decode", "decode_point of ", pt (p), " is ", pt (q));
        const dpoint p2 {gen_double (r, r.below (8)), gen_double (r, r.below (8)), gen_double (r, r.below (8))};
        const auto e = spoc::extent::decode_extent (spoc::extent::encode_extent (ext {p, p2}));
        if (!same (e.minp.x, p.x) || !same (e.minp.y, p.y) || !same (e.minp.z, p.z) || !same (e.maxp.x, p2.x) || !same (e.maxp.y, p2.y)
            || !same (e.maxp.z, p2.z))
            FAIL ("extent-bytes", "the coding of an extent");
    }
    bytes_of<double> (r, what, "double");
    bytes_of<float> (r, what, "float");
    bytes_of<uint64_t> (r, what, "uint64_t");
    bytes_of<int> (r, what, "int");
}

template<typename C>
static void all (const options &o, uint64_t it, const char *type)
{
    rng r (o.seed, it, 25);
    const size_t n = o.get ("large", 0) ? 65537 + r.below (5000) : r.pick (std::vector<size_t> {0, 1, 2, 3, 10, 50, 200, 200});
    const bool exact = r.chance (.3);
    const C c = make<C> (r, n, exact);
    const int threads = r.pick (std::vector<int> {1, 2, 3, 8});
    omp_set_num_threads (threads);
    const auto what = cat ("item ", it, ", ", n, " ", type, exact ? " (exact)" : "", ", ", threads, " threads");
    at (what);
    test_extent (r, what, c);
    evaluated (n ? what + "e" : "");
    test_voxels (r, what, c, exact);
    evaluated ();
    test_crop (r, what, c);
    evaluated ();
    for (int k = 0; k < 3; ++k)
        test_affine (r, what, c);
    test_quantize (r, what, c);
    test_center (what, c);
    evaluated (n ? what + "m" : "");
    test_distance (r, what, c);
    evaluated (n > 1 ? what + "d" : "");
    if constexpr (std::is_same_v<C, dpoints>)
    {
        test_rescale (r, what, c);
        evaluated (n ? what + "r" : "");
        for (int k = 0; k < 6; ++k)
            test_about_equal (r, what);
        test_bytes (r, what);
        evaluated (what + "b");
    }
    sample (what);
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const size_t items = o.get ("items", 200);
    for (size_t it = o.shard; it < items; it += o.shards)
        switch (it / o.shards % 3)
        {
            case 0: all<dpoints> (o, it, "points"); break;
            case 1: all<records> (o, it, "records"); break;
            default: all<std::vector<plain>> (o, it, "plain points");
        }
    done ();
}
