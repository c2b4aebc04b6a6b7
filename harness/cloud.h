// Generated point clouds and their bit-exact comparison, on top of the library's types.
#pragma once
#include "hk.h"
#include "spoc/spoc.h"

namespace hk
{

using record = spoc::point_record::point_record;
using records = spoc::point_record::point_records;
using sfile = spoc::file::spoc_file;

inline bool same (const record &a, const record &b)
{
    if (!same (a.x, b.x) || !same (a.y, b.y) || !same (a.z, b.z)) return false;
    if (a.c != b.c || a.p != b.p || a.i != b.i || a.r != b.r || a.g != b.g || a.b != b.b) return false;
    if (a.extra.size () != b.extra.size ()) return false;
    for (size_t k = 0; k < a.extra.size (); ++k)
        if (a.extra[k] != b.extra[k]) return false;
    return true;
}

inline std::string show (const record &r)
{
    std::ostringstream s;
    s.precision (17);
    s << "(" << r.x << "," << r.y << "," << r.z << "," << r.c << "," << r.p << "," << r.i << "," << r.r << "," << r.g
      << "," << r.b << " +" << r.extra.size () << ":";
    for (size_t k = 0; k < r.extra.size () && k < 4; ++k)
        s << " " << r.extra[k];
    s << ")";
    return s.str ();
}

inline std::string difference (const records &a, const records &b)
{
    if (a.size () != b.size ())
        return cat (b.size (), " records instead of ", a.size ());
    for (size_t n = 0; n < a.size (); ++n)
        if (!same (a[n], b[n]))
            return cat ("record ", n, " is ", show (b[n]), " instead of ", show (a[n]));
    return "";
}

inline double gen_double (rng &r, int style)
{
    static const std::vector<double> special {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, -NAN, 5e-324, -5e-324,
        2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1e-300, 9007199254740993.0,
        -2147483648.5, from_bits (0x7ff0000000000001ull), from_bits (0xfff8000000000123ull), 356631.45};
    switch (style)
    {
        default:
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return r.chance (.5) ? 0.0 : -0.0;
        case 3: return r.uniform (-1000, 1000);
        case 4: return r.pick (special);
        case 5: return from_bits (r.next ());
        case 6: return double (r.range (-3, 3));
        case 7: return std::round (r.uniform (356000, 357000) * 100) / 100;
    }
}
inline uint64_t gen_uint (rng &r, int style, uint64_t top)
{
    switch (style)
    {
        default:
        case 0: return 0;
        case 1: return r.below (5);
        case 2: return r.next () & top;
        case 3: return top;
        case 4: return r.chance (.9) ? 0 : (r.next () & top);
        case 5: { const uint64_t v[] = {0, 1, top, top - 1, top / 2, top / 2 + 1, 255, 256}; return v[r.below (8)] & top; }
    }
}

// column styles are drawn per column, so all-zero columns next to busy ones are frequent
inline records gen_records (rng &r, size_t n, size_t ne, bool finite = false)
{
    int sd[3], si[6];
    for (auto &s : sd)
        s = finite ? std::vector<int> {0, 3, 6, 7}[r.below (4)] : int (r.below (8));
    for (auto &s : si)
        s = int (r.below (6));
    std::vector<int> se (ne);
    for (auto &s : se)
        s = int (r.below (6));
    const bool last_only = n > 1 && r.chance (.15); // values only in the last record
    records p (n, record (ne));
    for (size_t k = 0; k < n; ++k)
    {
        if (last_only && k + 1 < n)
            continue;
        auto &q = p[k];
        q.x = gen_double (r, sd[0]);
        q.y = gen_double (r, sd[1]);
        q.z = gen_double (r, sd[2]);
        q.c = gen_uint (r, si[0], 0xffffffffu);
        q.p = gen_uint (r, si[1], 0xffffffffu);
        q.i = gen_uint (r, si[2], 0xffffu);
        q.r = gen_uint (r, si[3], 0xffffu);
        q.g = gen_uint (r, si[4], 0xffffu);
        q.b = gen_uint (r, si[5], 0xffffu);
        for (size_t j = 0; j < ne; ++j)
            q.extra[j] = gen_uint (r, se[j], ~0ull);
    }
    return p;
}

inline std::string gen_wkt (rng &r, size_t len)
{
    std::string s (len, 'W');
    if (r.chance (.5))
        for (auto &c : s)
            c = char (r.next ());
    else
        for (auto &c : s)
            c = char (32 + r.below (95));
    return s;
}

} // namespace hk
