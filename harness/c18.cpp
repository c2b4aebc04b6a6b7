// Radius search against a brute force search, for all forms of the call and several numbers of threads.
#include "cloud.h"
#include "spoc/radius_search.h"
#include <atomic>
#include <omp.h>
using namespace hk;
using spoc::radius_search::radius_search;

struct pt { double x, y, z; };
using answer = std::vector<std::vector<size_t>>;

template<typename C>
static C make (rng &r, size_t n, int style, double radius, bool &exact)
{
    const size_t few = r.pick (std::vector<size_t> {3, 5, 12, n / 50 + 2});
    C c (n);
    const double side = radius * r.pick (std::vector<double> {0.5, 1, 2, 4, 8, 20});
    const double off = r.pick (std::vector<double> {0, 0, -1000, 356000, -3.5e6});
    exact = false;
    for (size_t k = 0; k < n; ++k)
    {
        auto &p = c[k];
        switch (style)
        {
            default:
            case 0: p.x = r.uniform (-side, side); p.y = r.uniform (-side, side); p.z = r.uniform (-side, side); break;
            case 1: // a grid whose spacing is a binary fraction of the radius: exact distances, points on voxel edges
                p.x = r.range (-6, 6) * radius / 2; p.y = r.range (-6, 6) * radius / 2; p.z = r.range (-2, 2) * radius / 2;
                exact = true;
                break;
            case 2: // many equal points
                p.x = r.range (0, 2) * radius * .75; p.y = r.range (0, 1) * radius * 1.25; p.z = 0;
                break;
            case 3: p.x = r.uniform (-side * 4, side * 4); p.y = 0; p.z = 0; break;
            case 4: p.x = r.uniform (-side, side); p.y = r.uniform (-side, side); p.z = .001 * r.unit (); break;
            case 5: // clumps
            {
                const double a = r.range (-3, 3) * side, b = r.range (-3, 3) * side;
                p.x = a + r.uniform (-.3, .3) * radius; p.y = b + r.uniform (-.3, .3) * radius; p.z = r.uniform (-.3, .3) * radius;
                break;
            }
            case 6: p.x = r.uniform (-side, side) + off; p.y = r.uniform (-side, side) + off; p.z = r.uniform (-side, side); break;
            case 7: // a few points in the middle of thousands that are near in each coordinate but out of reach
            {
                const double e = k < few ? .2 : 0;
                p.x = e ? r.uniform (-e, e) * radius : (r.chance (.5) ? 1 : -1) * r.uniform (.8, .98) * radius;
                p.y = e ? r.uniform (-e, e) * radius : (r.chance (.5) ? 1 : -1) * r.uniform (.8, .98) * radius;
                p.z = e ? r.uniform (-e, e) * radius : (r.chance (.5) ? 1 : -1) * r.uniform (.8, .98) * radius;
                break;
            }
            case 8: // two or three columns of thousands of points each
                p.x = r.range (0, 2) * radius * .7; p.y = .01 * r.unit () * radius; p.z = r.uniform (-side, side);
                break;
        }
        if (k && style != 7 && r.chance (.05))
            p = c[r.below (k)];
        // a point just within or just beyond the reach of another
        if (k && style != 1 && style != 7 && r.chance (.15))
        {
            static const double D[] {1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-4};
            double d[3] {r.uniform (-1, 1), r.uniform (-1, 1), r.uniform (-1, 1)};
            for (auto &a : d)
                if (r.chance (.3))
                    a = 0;
            const double l = std::sqrt (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), e = radius * (1 + (r.chance (.5) ? 1 : -1) * D[r.below (9)]);
            if (l > .01)
            {
                const auto &q = c[r.below (k)];
                p.x = q.x + d[0] / l * e;
                p.y = q.y + d[1] / l * e;
                p.z = q.z + d[2] / l * e;
            }
        }
    }
    if (style == 7) // the few are anywhere in the order
        for (size_t k = n; k > 1; --k)
            std::swap (c[k - 1], c[r.below (k)]);
    return c;
}

template<typename C>
static void one (const options &o, uint64_t it, const char *type)
{
    rng r (o.seed, it, 18);
    // with more points than a 16 bit counter holds the queries are few, or limited, and only some of them are judged
    const bool large = o.get ("large", 0);
    const int style = large ? r.pick (std::vector<int> {0, 2, 5}) : int (r.below (9));
    const double radius = style == 1 ? std::ldexp (1.0, r.range (-3, 4)) : r.pick (std::vector<double> {1, .5, .1, 3.7, 25, .013});
    const size_t n = large ? 70001 : r.pick (std::vector<size_t> {0, 1, 2, 10, 100, 400, 400, size_t (o.thorough ? 5000 : 1200)}) * (style >= 7 ? 3 : 1);
    bool exact;
    const C c = make<C> (r, n, style, radius, exact);
    const size_t max_n = r.pick (std::vector<size_t> {0, 1, 2, 5, 32, n, n + 100, 1000000});
    // queries and candidates
    std::vector<size_t> all (n), q, nb;
    for (size_t k = 0; k < n; ++k)
        all[k] = k;
    auto subset = [&] (bool few = false)
    {
        std::vector<size_t> s;
        const double p = large ? r.pick (few ? std::vector<double> {.0005, .002} : std::vector<double> {.01, .9}) : r.pick (std::vector<double> {.05, .5, .9});
        for (size_t k = 0; k < n; ++k)
            if (r.chance (p))
                s.push_back (k);
        for (size_t k = s.size (); k > 1; --k) // in any order
            std::swap (s[k - 1], s[r.below (k)]);
        if (!s.empty () && r.chance (.3)) // some more than once
            for (int k = 0; k < 3; ++k)
                s.push_back (s[r.below (s.size ())]);
        return s;
    };
    const int form = r.below (6);
    size_t m = max_n;
    switch (form)
    {
        default:
        case 0: q = subset (true); nb = subset (); break;
        case 1: q = subset (); nb = q; break;
        case 2: q = subset (true); nb = all; break;
        case 3: q = nb = all; break;
        case 4: q = nb = all; m = 32; break;
        case 5: q = nb = subset (); m = 32; break;
    }
    if (large && (form == 1 || form == 3))
        m = std::min<size_t> (m, 32);
    static const char *names[] = {"radius_search", "radius_search_indexes", "radius_search_all_neighbors", "radius_search_all",
        "radius_search_get_neighbors", "radius_search_indexes (default maximum)"};
    const auto what = cat (names[form], " on ", n, " ", type, " (style ", style, "), radius ", radius, ", ", q.size (), " queries, ", nb.size (),
        " candidates, maximum ", m, ", item ", it);
    at (what);
    answer first;
    for (int threads : {1, 4, int (2 + r.below (7))})
    {
        omp_set_num_threads (threads);
        answer a (q.size ());
        std::vector<std::atomic<int>> calls (q.size ());
        std::atomic<int> outside {0};
        auto op = [&] (size_t i, const std::vector<size_t> &v)
        {
            if (i >= q.size ())
            {
                ++outside;
                return;
            }
            ++calls[i];
            a[i] = v;
        };
        switch (form)
        {
            default:
            case 0: radius_search (c, q, nb, radius, op, m); break;
            case 1: spoc::radius_search::radius_search_indexes (c, q, radius, op, m); break;
            case 2: spoc::radius_search::radius_search_all_neighbors (c, q, radius, op, m); break;
            case 3: spoc::radius_search::radius_search_all (c, radius, op, m); break;
            case 4:
                a = spoc::radius_search::radius_search_get_neighbors (c, radius);
                for (auto &k : calls)
                    k = 1;
                break;
            case 5: spoc::radius_search::radius_search_indexes (c, q, radius, op); break;
        }
        count ("searches");
        count ("callbacks", q.size ());
        if (outside)
            violation ("callback", cat (what, ": callback for an index beyond the queries"));
        if (a.size () != q.size ())
        {
            violation ("size", cat (what, ": ", a.size (), " results"));
            return;
        }
        for (size_t i = 0; i < q.size (); ++i)
            if (calls[i] != 1)
            {
                violation ("callback", cat (what, ": ", calls[i].load (), " callbacks for query ", i, " with ", threads, " threads"));
                return;
            }
        if (threads == 1)
            first = a;
        else if (a != first)
        {
            violation ("threads", cat (what, ": the result with ", threads, " threads differs from that with one"));
            return;
        }
    }
    // brute force, to within some rounding errors
    long double size = radius;
    for (const int a : {0, 1, 2})
    {
        long double lo = INFINITY, hi = -INFINITY;
        for (const auto &p : c)
        {
            const double v = a == 0 ? p.x : a == 1 ? p.y : p.z;
            lo = std::min<long double> (lo, v);
            hi = std::max<long double> (hi, v);
        }
        if (n)
            size = std::max (size, hi - lo);
    }
    const long double tol = exact ? 0 : 2e-15L * (size + radius);
    std::vector<char> seen (nb.size ());
    const size_t step = large ? q.size () / 50 + 1 : 1;
    for (size_t i = large ? it % step : 0; i < q.size (); i += step)
    {
        const auto &p = c[q[i]];
        std::fill (seen.begin (), seen.end (), 0);
        for (size_t j : first[i])
        {
            if (j >= nb.size ())
            {
                violation ("candidate", cat (what, ": query ", i, " reports neighbor ", j, " which is no candidate"));
                return;
            }
            if (seen[j]++)
            {
                violation ("twice", cat (what, ": query ", i, " reports neighbor ", j, " twice"));
                return;
            }
        }
        size_t must = 0, may = 0;
        bool self_missing = false;
        for (size_t j = 0; j < nb.size (); ++j)
        {
            const auto &s = c[nb[j]];
            const long double dx = (long double) (p.x) - s.x, dy = (long double) (p.y) - s.y, dz = (long double) (p.z) - s.z;
            const long double d = std::sqrt (dx * dx + dy * dy + dz * dz);
            const bool in = d <= radius - tol, out = d > radius + tol;
            must += in;
            may += !out;
            count ("pairs");
            if (out && seen[j])
            {
                violation ("outside", cat (what, ": query ", i, " reports a neighbor at distance ", double (d)));
                return;
            }
            if (in && !seen[j] && first[i].size () < m)
            {
                violation ("missing", cat (what, ": query ", i, " does not report the candidate ", j, " at distance ", double (d), " and only ",
                    first[i].size (), " neighbors"));
                return;
            }
            if (nb[j] == q[i] && !seen[j])
                self_missing = true;
        }
        if (self_missing && m >= may)
        {
            violation ("self", cat (what, ": query ", i, " does not report the point itself"));
            return;
        }
        if (first[i].size () < std::min (m, must) || first[i].size () > std::min (m, may))
        {
            violation ("number", cat (what, ": query ", i, " reports ", first[i].size (), " neighbors; there are ", must));
            return;
        }
        count ("queries_limited", must > m);
        if (must > 1)
            evaluated (cat (it, ":", i));
        else
            evaluated ();
    }
    sample (what);
}

// The corner of a cloud and points that are, along one axis, exactly at the radius or next to it
template<typename C>
static void edge (const options &o, uint64_t it)
{
    rng r (o.seed, it, 181);
    const double radius = r.chance (.5) ? r.range (1, 2000) * r.pick (std::vector<double> {.1, .01, .001, 1. / 3, .7}) : r.uniform (.001, 100);
    const size_t n = 1 + r.below (40);
    C c (n);
    std::vector<int> want (n, -1);
    const size_t corner = r.below (n);
    for (size_t k = 0; k < n; ++k)
    {
        c[k].x = c[k].y = c[k].z = 0;
        double v = radius;
        const int to = int (r.range (-2, 2));
        for (int j = 0; j < std::abs (to); ++j)
            v = std::nextafter (v, to < 0 ? 0 : INFINITY);
        if (k == corner)
            v = 0;
        (r.chance (.3) ? c[k].x : r.chance (.5) ? c[k].y : c[k].z) = v;
        want[k] = v <= radius;
    }
    std::vector<size_t> q {corner}, all (n);
    for (size_t k = 0; k < n; ++k)
        all[k] = k;
    std::vector<char> seen (n);
    radius_search (c, q, all, radius, [&] (size_t, const std::vector<size_t> &v) { for (auto j : v) seen.at (j) = 1; }, n + 1);
    const auto what = cat ("radius_search around the corner of ", n, " points on the axes, radius ", radius, ", item ", it);
    for (size_t k = 0; k < n; ++k)
        if (seen[k] != want[k])
        {
            violation (want[k] ? "missing" : "outside", cat (what, ": the point at distance radius", c[k].x + c[k].y + c[k].z < radius ? " - " :
                c[k].x + c[k].y + c[k].z > radius ? " + " : " + 0 * ", std::abs (c[k].x + c[k].y + c[k].z - radius), seen[k] ? " is reported" : " is not reported"));
            return;
        }
    count ("edge_points", n);
    evaluated (n > 1 ? what : "");
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const size_t items = o.get ("items", 200);
    for (size_t it = o.shard; it < items; it += o.shards)
    {
        for (int k = 0; k < 10 && !o.get ("large", 0); ++k)
            switch (it % 3)
            {
                case 0: edge<std::vector<pt>> (o, it * 10 + k); break;
                case 1: edge<records> (o, it * 10 + k); break;
                default: edge<std::vector<spoc::point::point<double>>> (o, it * 10 + k);
            }
        switch (it % 3)
        {
            case 0: one<std::vector<pt>> (o, it, "plain points"); break;
            case 1: one<records> (o, it, "records"); break;
            default: one<std::vector<spoc::point::point<double>>> (o, it, "points");
        }
    }
    done ();
}
