// Random histories of operations on several spoc_file objects, compared with a plain model after every operation; also with
// allocations that fail.
#include "cloud.h"
#include <new>
using namespace hk;

static long countdown = -1;
static bool armed = false;
static bool failed = false;
void *operator new (size_t n)
{
    if (armed && countdown-- == 0)
    {
        failed = true;
        throw std::bad_alloc ();
    }
    void *p = malloc (n ? n : 1);
    if (!p)
        throw std::bad_alloc ();
    return p;
}
void *operator new[] (size_t n) { return operator new (n); }
void operator delete (void *p) noexcept { free (p); }
void operator delete (void *p, size_t) noexcept { free (p); }
void operator delete[] (void *p) noexcept { free (p); }
void operator delete[] (void *p, size_t) noexcept { free (p); }

struct model
{
    unsigned major = spoc::MAJOR_VERSION, minor = spoc::MINOR_VERSION;
    std::string wkt;
    bool compressed = false;
    records prs;
    size_t ne () const { return prs.empty () ? 0 : prs[0].extra.size (); }
};

static bool consistent (const records &p)
{
    for (auto &q : p)
        if (q.extra.size () != p[0].extra.size ())
            return false;
    return true;
}

template<typename V, typename F>
static bool column (const V &v, const records &p, F f)
{
    if (v.size () != p.size ())
        return false;
    for (size_t n = 0; n < v.size (); ++n)
        if (memcmp (&v[n], &f (p[n]), sizeof v[n]))
            return false;
    return true;
}

// how often columns were found to be all zeros, and not
static long *outcomes () { static long n[2]; return n; }

// Every way to construct a record stores what is given, and zero where nothing is. -> what is wrong, or nothing
static std::string constructors (rng &r)
{
    const record w = gen_records (r, 1, r.pick (std::vector<size_t> {0, 1, 2, 9, 255}))[0];
    record z = record (), want;
    want.x = want.y = want.z = 0.0;
    want.c = want.p = 0;
    want.i = want.r = want.g = want.b = 0;
    want.extra.clear ();
    if (!same (z, want)) return "record () is not all zeros without extra fields";
    want.extra.assign (w.extra.size (), 0);
    if (!same (record (w.extra.size ()), want)) return cat ("record (", w.extra.size (), ") is not all zeros with as many extra fields");
    want.extra.clear ();
    want.x = w.x; want.y = w.y; want.z = w.z;
    if (!same (record (w.x, w.y, w.z), want)) return "record (x, y, z) is wrong";
    want.c = w.c;
    if (!same (record (w.x, w.y, w.z, w.c), want)) return "record (x, y, z, c) is wrong";
    want.p = w.p; want.i = w.i; want.r = w.r; want.g = w.g; want.b = w.b;
    if (!same (record (w.x, w.y, w.z, w.c, w.p, w.i, w.r, w.g, w.b), want)) return "record (x, y, z, c, p, i, r, g, b) is wrong";
    if (!same (record (w.x, w.y, w.z, w.c, w.p, w.i, w.r, w.g, w.b, w.extra), w)) return "record (x, y, z, c, p, i, r, g, b, extra) is wrong";
    return "";
}

// -> what is wrong, or nothing
static std::string check (const sfile &f, const model &m, bool deep)
{
    if (f.get_major_version () != m.major || f.get_minor_version () != m.minor)
        return cat ("version ", f.get_major_version (), ".", f.get_minor_version (), " instead of ", m.major, ".", m.minor);
    if (f.get_wkt () != m.wkt)
        return cat ("a WKT of ", f.get_wkt ().size (), " bytes instead of ", m.wkt.size ());
    if (f.get_compressed () != m.compressed)
        return "the compression flag is wrong";
    const auto d = difference (m.prs, f.get_point_records ());
    if (!d.empty ())
        return d;
    if (!f.is_valid ())
        return "is_valid() is false";
    if (f.get_extra_fields () != m.ne ())
        return cat (f.get_extra_fields (), " extra fields instead of ", m.ne ());
    bool threw = false;
    try
    {
        const auto h = f.get_header ();
        if (!h.is_valid ())
            return "the header is not valid";
        if (h.wkt != m.wkt || h.extra_fields != m.ne () || h.total_points != m.prs.size () || bool (h.compressed) != m.compressed
            || h.major_version != m.major || h.minor_version != m.minor)
            return cat ("the header disagrees: ", int (h.extra_fields), " extra fields, ", h.total_points, " points");
    }
    catch (const std::runtime_error &) { threw = true; }
    if (threw != (m.ne () > 255 || m.wkt.size () > 65535))
        return threw ? "get_header() throws" : "get_header() does not report that it can't hold the values";
    if (!deep)
        return "";
    for (size_t n = 0; n < m.prs.size (); ++n)
        if (!same (f.get_point_record (n), m.prs[n]))
            return cat ("get_point_record(", n, ") is wrong");
#define COL(C) if (!column (f.get_##C (), m.prs, [] (const record &r) -> const auto & { return r.C; })) return "get_" #C "() is wrong";
    COL (x) COL (y) COL (z) COL (c) COL (p) COL (i) COL (r) COL (g) COL (b)
    for (size_t k = 0; k < m.ne (); k += 1 + m.ne () / 7)
        if (!column (f.get_extra (k), m.prs, [k] (const record &r) -> const auto & { return r.extra[k]; }))
            return cat ("get_extra(", k, ") is wrong");
    {
        // the tests whether a column is all zeros
        using namespace spoc::point_record;
        const auto &p = f.get_point_records ();
        auto zero = [&] (auto g) { for (auto &r : m.prs) if (g (r)) return false; return true; };
        const auto was = outcomes ();
#define Z(C) if (has_all_zero_##C (p) != zero ([] (const record &r) { return r.C != 0; })) return "has_all_zero_" #C "() is wrong"; else ++was[zero ([] (const record &r) { return r.C != 0; })];
        Z (c) Z (p) Z (i) Z (r) Z (g) Z (b)
        if (has_all_zero_rgb (p) != zero ([] (const record &r) { return r.r || r.g || r.b; }))
            return "has_all_zero_rgb() is wrong";
        for (size_t k = 0; k < m.ne (); k += 1 + m.ne () / 7)
        {
            const bool z = zero ([k] (const record &r) { return r.extra[k] != 0; });
            if (has_all_zero_extra (k, p) != z)
                return cat ("has_all_zero_extra(", k, ") is wrong");
            ++was[z];
        }
    }
    const auto e = f.clone_empty ();
    if (!e.get_point_records ().empty () || e.get_wkt () != m.wkt || e.get_compressed () != m.compressed || e.get_major_version () != m.major
        || e.get_minor_version () != m.minor)
        return "clone_empty() is wrong";
    return "";
}

int main (int argc, char **argv)
{
    const options o = parse (argc, argv);
    const long items = o.get ("items", 100);
    const long length = o.get ("length", 60);
    const bool large = o.get ("large", 0);
    for (long it = o.shard; it < items; it += o.shards)
    {
        rng r (o.seed, it, 21);
        const bool faults = it % 2;
        std::vector<sfile> f (3);
        std::vector<model> m (3);
        std::string history;
        auto some_wkt = [&] { return gen_wkt (r, r.pick (std::vector<size_t> {0, 0, 1, 10, 100, 65535, 65536, 300})); };
        auto some_records = [&] (size_t ne, bool bad)
        {
            records p = gen_records (r, r.pick (std::vector<size_t> {0, 1, 2, 3, 8, 20}), ne);
            if (ne < 8 && r.chance (.04))
                p = gen_records (r, r.pick (std::vector<size_t> {150, 700, 3000}), ne);
            if (large && r.chance (.7))
                p = gen_records (r, 65535 + r.below (3), ne < 8 ? ne : 0);
            if (bad)
            {
                if (p.size () < 2)
                    p = gen_records (r, 3, ne);
                p[r.below (p.size ())].extra.resize (ne ? ne - 1 : ne + 1);
            }
            return p;
        };
        const std::vector<size_t> nes {0, 0, 1, 2, 3, 7, 255, 256};
        at (cat ("item ", it));
        for (int n = 0; n < 10; ++n)
        {
            const auto e = constructors (r);
            if (!e.empty ())
                violation ("constructor", cat ("item ", it, ": ", e));
            count ("records_constructed", 6);
        }
        for (long step = 0; step < length; ++step)
        {
            const size_t a = r.below (3), b = r.below (3);
            const int op = r.below (16);
            const size_t ne = r.chance (.5) ? m[a].ne () : r.pick (nes);
            const bool bad = r.chance (.2);
            std::string what;
            std::function<void ()> act;
            std::function<void ()> mod; // the same on the model
            bool reject = false;
            records p;
            record q;
            std::string w;
            unsigned v1 = r.below (256), v2 = r.below (256);
            const bool flag = r.chance (.5);
            size_t idx = 0;
            std::vector<sfile> &F = f;
            std::vector<model> &Mo = m;
            records taken;
            switch (op)
            {
                case 0:
                    p = some_records (ne, bad); w = some_wkt (); reject = !consistent (p);
                    what = cat ("f", a, " = spoc_file (wkt ", w.size (), ", ", flag, ", ", p.size (), " records)");
                    act = [&] { F[a] = sfile (w, flag, p); };
                    mod = [&] { Mo[a] = model {spoc::MAJOR_VERSION, spoc::MINOR_VERSION, w, flag, p}; };
                    break;
                case 1:
                    p = some_records (ne, bad); w = some_wkt (); reject = !consistent (p);
                    what = cat ("f", a, " = spoc_file (", v1, ", ", v2, ", wkt ", w.size (), ", ", flag, ", ", p.size (), " records)");
                    act = [&] { F[a] = sfile (v1, v2, w, flag, p); };
                    mod = [&] { Mo[a] = model {v1, v2, w, flag, p}; };
                    break;
                case 2:
                    what = cat ("f", a, " = f", b);
                    act = [&] { F[a] = F[b]; };
                    mod = [&] { const model t = Mo[b]; Mo[a] = t; };
                    break;
                case 3:
                    what = cat ("f", a, ".swap (f", b, ")");
                    act = [&] { F[a].swap (F[b]); };
                    mod = [&] { if (a != b) std::swap (Mo[a], Mo[b]); };
                    break;
                case 4: case 5:
                    q = gen_records (r, 1, m[a].prs.empty () || bad ? r.pick (nes) : m[a].ne ())[0];
                    reject = !m[a].prs.empty () && q.extra.size () != m[a].ne ();
                    what = cat ("f", a, ".push_back (a record with ", q.extra.size (), ")");
                    act = [&] { F[a].push_back (q); };
                    mod = [&] { Mo[a].prs.push_back (q); };
                    break;
                case 6:
                    if (m[a].prs.empty ()) continue;
                    idx = r.below (m[a].prs.size ());
                    what = cat ("f", a, ".push_back (its own record ", idx, ")");
                    act = [&] { F[a].push_back (F[a].get_point_record (idx)); };
                    mod = [&] { const record t = Mo[a].prs[idx]; Mo[a].prs.push_back (t); };
                    break;
                case 7: case 8:
                    idx = r.chance (.2) ? r.pick (std::vector<size_t> {m[a].prs.size (), m[a].prs.size () + 1, size_t (-1)}) : r.below (m[a].prs.size () + 1);
                    q = gen_records (r, 1, bad ? r.pick (nes) : m[a].ne ())[0];
                    reject = idx >= m[a].prs.size () || q.extra.size () != m[a].ne ();
                    what = cat ("f", a, ".set_point_record (", idx, ", a record with ", q.extra.size (), ")");
                    act = [&] { F[a].set_point_record (idx, q); };
                    mod = [&] { Mo[a].prs[idx] = q; };
                    break;
                case 9:
                    p = some_records (ne, bad); reject = !consistent (p);
                    what = cat ("f", a, ".set_point_records (", p.size (), ")");
                    act = [&] { F[a].set_point_records (p); };
                    mod = [&] { Mo[a].prs = p; };
                    break;
                case 10:
                {
                    const size_t k = r.pick (nes);
                    what = cat ("f", a, ".resize_extra_fields (", k, ")");
                    act = [&, k] { F[a].resize_extra_fields (k); };
                    mod = [&, k] { for (auto &t : Mo[a].prs) t.extra.resize (k); };
                    break;
                }
                case 11:
                    w = some_wkt ();
                    what = cat ("f", a, ".set_wkt (", w.size (), " bytes)");
                    act = [&] { F[a].set_wkt (w); };
                    mod = [&] { Mo[a].wkt = w; };
                    break;
                case 12:
                    what = cat ("f", a, ".set_compressed (", flag, ")");
                    act = [&] { F[a].set_compressed (flag); };
                    mod = [&] { Mo[a].compressed = flag; };
                    break;
                case 13:
                    p = some_records (ne, bad); reject = !consistent (p);
                    taken = p;
                    what = cat ("f", a, ".move_point_records (", p.size (), ")");
                    act = [&] { F[a].move_point_records (taken); };
                    mod = [&] { Mo[a].prs = p; };
                    break;
                case 14:
                    what = cat ("records = f", a, ".move_point_records ()");
                    act = [&] { records t = F[a].move_point_records (); taken = std::move (t); };
                    mod = [&] { Mo[a].prs.clear (); };
                    break;
                case 15:
                    what = flag ? cat ("f", a, " = f", b, ".clone_empty ()") : cat ("f", a, ".set_point_records (f", b, "'s)");
                    if (flag) { act = [&] { F[a] = F[b].clone_empty (); }; mod = [&] { model t = Mo[b]; t.prs.clear (); Mo[a] = t; }; }
                    else { act = [&] { F[a].set_point_records (F[b].get_point_records ()); }; mod = [&] { const records t = Mo[b].prs; Mo[a].prs = t; }; }
                    break;
            }
            const records given = m[a].prs;
            history += what + "; ";
            bool threw = false, shortage = false;
            failed = false;
            if (faults && r.chance (.5))
            {
                countdown = r.below (r.chance (.5) ? 3 : 40);
                armed = true;
            }
            try { act (); }
            catch (const std::bad_alloc &) { shortage = threw = true; }
            catch (const std::exception &) { threw = true; }
            armed = false;
            const bool did_fail = failed;
            const std::string tail = history.size () > 900 ? "... " + history.substr (history.size () - 900) : history;
            if (threw && !reject && !did_fail)
            {
                violation ("refused " + std::to_string (op), cat ("a valid operation throws: ", tail));
                break;
            }
            if (!threw && reject)
            {
                violation ("accepted " + std::to_string (op), cat ("an inconsistent operation is accepted: ", tail));
                break;
            }
            if (!threw)
                mod ();
            if (!threw && op == 14 && !difference (given, taken).empty ())
                violation ("moved", cat ("the records moved out are wrong: ", difference (given, taken), ": ", tail));
            if (!threw && op == 13 && !taken.empty ())
                violation ("moved", cat ("the records moved in are still in the argument: ", tail));
            if (threw && op == 13 && !difference (p, taken).empty ())
                violation ("moved", cat ("a refused move took the records: ", tail));
            bool stop = false;
            for (size_t k = 0; k < 3 && !stop; ++k)
            {
                const auto e = check (f[k], m[k], k == a || step % 8 == 0);
                if (!e.empty ())
                {
                    violation (cat (threw ? "after-refusal " : "state ", op), cat ("f", k, ": ", e, threw ? " after the operation threw" : "",
                        shortage ? " (a shortage of memory)" : "", "; history: ", tail));
                    stop = true;
                }
            }
            evaluated (cat (op, " ", a == b, " ", m[a].prs.size (), " ", m[a].ne (), " ", threw, shortage, " ", ne, " ", step % 16));
            count (shortage ? "shortages" : threw ? "refused" : "accepted");
            if (stop)
                break;
        }
    }
    count ("columns_not_all_zero", outcomes ()[0]);
    count ("columns_all_zero", outcomes ()[1]);
    done ();
}
