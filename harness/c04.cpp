// Mutates SPOC files, feeds them to every reader, and judges the outcome with an independent decoder (zlib's own
// uncompress on the column bytes). Built also as a libFuzzer target (-DFUZZ).
#include "cloud.h"
#include <atomic>
#include <csignal>
#include <filesystem>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <zlib.h>
using namespace hk;

// ---- memory budget: allocations beyond it fail the ordinary way, so huge claims can be tried under a sanitizer
#ifndef FUZZ
static std::atomic<size_t> in_use {0};
static std::atomic<size_t> budget {size_t (-1)};
void *operator new (size_t n)
{
    if (n > budget || in_use + n > budget)
        throw std::bad_alloc ();
    void *p = malloc (n ? n : 1);
    if (!p)
        throw std::bad_alloc ();
    in_use += malloc_usable_size (p);
    return p;
}
void operator delete (void *p) noexcept { if (p) { in_use -= malloc_usable_size (p); free (p); } }
void operator delete (void *p, size_t) noexcept { operator delete (p); }
void *operator new[] (size_t n) { return operator new (n); }
void operator delete[] (void *p) noexcept { operator delete (p); }
void operator delete[] (void *p, size_t) noexcept { operator delete (p); }
#endif

// ---- independent view of the bytes
struct view
{
    bool ok = false;          // the header is well formed
    std::string wkt;
    unsigned ne = 0, comp = 0;
    uint64_t n = 0;
    size_t off = 0;
};
template<typename T> static T get (const std::string &b, size_t o)
{
    T v;
    memcpy (&v, b.data () + o, sizeof (T));
    return v;
}
static view look (const std::string &b)
{
    view v;
    if (b.size () < 8 || b.compare (0, 4, "SPOC") != 0 || b[4] != 0 || b[5] != 1)
        return v;
    const size_t wl = get<uint16_t> (b, 6);
    if (b.size () < 18 + wl)
        return v;
    v.wkt = b.substr (8, wl);
    v.ne = (unsigned char) b[8 + wl];
    v.n = get<uint64_t> (b, 9 + wl);
    v.comp = (unsigned char) b[17 + wl];
    v.off = 18 + wl;
    v.ok = true;
    return v;
}

// One column: the zlib stream at the start of the announced bytes must decode to exactly 'want' bytes
static bool inflate_column (const std::string &b, size_t o, uint64_t m, uint64_t want, std::string &out)
{
    if (want > (1u << 28))
        return false;
    z_stream s {};
    inflateInit (&s);
    out.assign (want + 1, '\0');
    s.next_in = (Bytef *) b.data () + o;
    s.avail_in = m;
    s.next_out = (Bytef *) out.data ();
    s.avail_out = want + 1;
    const int r = inflate (&s, Z_FINISH);
    const uint64_t got = s.total_out;
    inflateEnd (&s);
    out.resize (want);
    return r == Z_STREAM_END && got == want;
}

// "" when the records are what the bytes say
static std::string judge (const std::string &b, const view &v, const sfile &f)
{
    const auto &p = f.get_point_records ();
    if (!v.ok)
        return "a file with a malformed header was accepted";
    if (p.size () != v.n)
        return cat (p.size (), " records were returned, the header says ", v.n);
    if (f.get_wkt () != v.wkt)
        return "the WKT is not the one in the file";
    if (f.get_compressed () != (v.comp != 0))
        return "the compression flag is not the one in the file";
    for (auto &q : p)
        if (q.extra.size () != v.ne)
            return cat ("a record has ", q.extra.size (), " extra fields, the header says ", v.ne);
    if (!v.comp)
    {
        const size_t rs = 40 + 8 * size_t (v.ne);
        if ((b.size () - v.off) / rs < v.n)
            return "records beyond the end of the file were returned";
        for (size_t k = 0; k < p.size (); ++k)
        {
            record q (v.ne);
            const char *s = b.data () + v.off + k * rs;
            memcpy (&q.x, s, 8); memcpy (&q.y, s + 8, 8); memcpy (&q.z, s + 16, 8);
            memcpy (&q.c, s + 24, 4); memcpy (&q.p, s + 28, 4);
            memcpy (&q.i, s + 32, 2); memcpy (&q.r, s + 34, 2); memcpy (&q.g, s + 36, 2); memcpy (&q.b, s + 38, 2);
            if (v.ne)
                memcpy (q.extra.data (), s + 40, 8 * v.ne);
            if (!same (p[k], q))
                return cat ("record ", k, " is ", show (p[k]), ", the file has ", show (q));
        }
        return "";
    }
    size_t o = v.off;
    for (unsigned c = 0; c < 9 + v.ne; ++c)
    {
        const size_t sz = c < 3 ? 8 : c < 5 ? 4 : c < 9 ? 2 : 8;
        if (b.size () < o + 8)
            return cat ("column ", c, " is missing from the file");
        const uint64_t m = get<uint64_t> (b, o);
        o += 8;
        std::string col;
        if (m == 0)
            col.assign (v.n * sz, '\0');
        else
        {
            if (m > b.size () - o)
                return cat ("column ", c, " is longer than the file");
            if (!inflate_column (b, o, m, v.n * sz, col))
                return cat ("column ", c, " is corrupt (not a zlib stream of ", v.n * sz, " bytes)");
            o += m;
        }
        for (size_t k = 0; k < p.size (); ++k)
        {
            char t[8] = {};
            switch (c)
            {
                case 0: memcpy (t, &p[k].x, 8); break;
                case 1: memcpy (t, &p[k].y, 8); break;
                case 2: memcpy (t, &p[k].z, 8); break;
                case 3: memcpy (t, &p[k].c, 4); break;
                case 4: memcpy (t, &p[k].p, 4); break;
                case 5: memcpy (t, &p[k].i, 2); break;
                case 6: memcpy (t, &p[k].r, 2); break;
                case 7: memcpy (t, &p[k].g, 2); break;
                case 8: memcpy (t, &p[k].b, 2); break;
                default: memcpy (t, &p[k].extra[c - 9], 8); break;
            }
            if (memcmp (t, col.data () + k * sz, sz) != 0)
                return cat ("column ", c, " of record ", k, " is not what the file holds");
        }
    }
    return "";
}

enum { GENERIC, COMPRESSED, UNCOMPRESSED, STREAMED, NHOW };
static const char *names[] = {"read_spoc_file", "read_spoc_file_compressed", "read_spoc_file_uncompressed", "record streaming"};

static bool attempt (std::istream &s, int how, sfile &f)
{
    switch (how)
    {
        case GENERIC: f = spoc::io::read_spoc_file (s); return true;
        case COMPRESSED: f = spoc::io::read_spoc_file_compressed (s); return true;
        case UNCOMPRESSED: f = spoc::io::read_spoc_file_uncompressed (s); return true;
        default:
        {
            const auto h = spoc::header::read_header (s);
            if (h.compressed)
                return false;
            f = sfile (h.wkt, false);
            for (size_t k = 0; k < h.total_points; ++k)
                f.push_back (spoc::point_record::read_point_record (s, h.extra_fields));
            return true;
        }
    }
}

static char *status = nullptr;
static const size_t STATUS = 1 << 20;
static void on_timer (int)
{
    static const char m[] = "\nVIOLATION hang | a reader does not terminate on the input in status.bin\nDONE\n";
    (void) !write (1, m, sizeof m - 1);
    _Exit (0);
}

static uint64_t accepted = 0, refused = 0;
static std::string check_one (const std::string &b, int how, size_t frag)
{
    sfile f;
    bool got = false;
    try
    {
        if (frag == 0)
        {
            std::istringstream s (b);
            got = attempt (s, how, f);
        }
        else
        {
            fragment_buf fb (b, frag, frag);
            std::istream s (&fb);
            got = attempt (s, how, f);
        }
    }
    catch (const std::exception &) { got = false; }
#ifndef FUZZ
    budget = size_t (-1);
#endif
    if (!got)
    {
        ++refused;
        return "";
    }
    ++accepted;
    auto v = look (b);
    std::string m = judge (b, v, f);
    if (m.empty () && how == COMPRESSED && !v.comp) m = "an uncompressed file was accepted";
    if (m.empty () && how == UNCOMPRESSED && v.comp) m = "a compressed file was accepted";
    return m.empty () ? m : cat (names[how], ": ", m);
}

#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput (const uint8_t *d, size_t n)
{
    std::string b ((const char *) d, n);
    auto v = look (b);
    if (v.ok && (v.n > 20000 && v.n < (1ull << 57)))
        return 0; // large claims are the other harness's business
    if (v.ok && v.comp)
    {
        size_t o = v.off;
        for (unsigned c = 0; c < 9 + v.ne && o + 8 <= n; ++c)
        {
            const uint64_t m = get<uint64_t> (b, o);
            if (m > (1u << 24))
                return 0;
            o += 8 + m;
        }
    }
    for (int how = 0; how < NHOW; ++how)
    {
        const auto m = check_one (b, how, 0);
        if (!m.empty ())
        {
            fprintf (stderr, "VIOLATION-TEXT %s\n", m.c_str ());
            abort ();
        }
    }
    return 0;
}
#else

static void put64 (std::string &b, size_t o, uint64_t v)
{
    if (o + 8 <= b.size ())
        memcpy (&b[o], &v, 8);
}
static std::string zip (const std::string &raw, int level)
{
    uLongf n = compressBound (raw.size ());
    std::string z (n, '\0');
    compress2 ((Bytef *) z.data (), &n, (const Bytef *) raw.data (), raw.size (), level);
    z.resize (n);
    return z;
}

// positions of the column length fields
static std::vector<size_t> columns (const std::string &b, const view &v)
{
    std::vector<size_t> c;
    size_t o = v.off;
    for (unsigned k = 0; k < 9 + v.ne && o + 8 <= b.size (); ++k)
    {
        c.push_back (o);
        const uint64_t m = get<uint64_t> (b, o);
        if (m > b.size ())
            break;
        o += 8 + m;
    }
    return c;
}

static std::string mutate (std::string b, rng &r, const std::vector<std::string> &pool, std::string &what)
{
    static const uint64_t lens[] = {0, 1, 2, 5, 7, 8, 9, 255, 256, 1 << 10, 1 << 16, 1 << 20, 1 << 24, 1ull << 31, (1ull << 32) - 1,
        1ull << 32, (1ull << 32) + 8, 1ull << 40, 1ull << 61, (1ull << 63) - 1, 1ull << 63, ~0ull - 7, ~0ull};
    const int rounds = 1 + int (r.below (r.chance (.3) ? 5 : 1));
    for (int k = 0; k < rounds; ++k)
    {
        const auto v = look (b);
        const auto cols = v.ok && v.comp ? columns (b, v) : std::vector<size_t> ();
        const int op = int (r.below (v.ok ? 17 : 6));
        what += cat (" ", op);
        if (b.empty ())
            b = pool[r.below (pool.size ())];
        switch (op)
        {
            case 0: b[r.below (b.size ())] ^= char (1 << r.below (8)); break;
            case 1: b[r.below (b.size ())] = char (r.next ()); break;
            case 2: b.resize (r.below (b.size () + 1)); break;
            case 3: { std::string e (1 + r.below (40), '\0'); for (auto &c : e) c = char (r.next ()); b.insert (r.below (b.size () + 1), e); break; }
            case 4: { const size_t o = r.below (b.size ()); b.erase (o, 1 + r.below (40)); break; }
            case 5: { const auto &d = r.pick (pool); const size_t o = r.below (b.size ()); b = b.substr (0, o) + (d.size () > o ? d.substr (r.chance (.5) ? o : r.below (d.size ())) : ""); break; }
            case 6: b[8 + v.wkt.size ()] = char (r.chance (.5) ? r.below (4) : r.next ()); break;                        // extra fields
            case 7: put64 (b, 9 + v.wkt.size (), r.chance (.7) ? v.n + uint64_t (r.range (-3, 3)) : lens[r.below (23)]); break; // points
            case 8: b[17 + v.wkt.size ()] = char (r.chance (.7) ? !v.comp : r.next ()); break;                              // flag
            case 9: { const uint16_t l = r.chance (.5) ? r.next () : v.wkt.size () + r.range (-9, 9); memcpy (&b[6], &l, 2); break; }
            case 10: if (!cols.empty ()) put64 (b, r.pick (cols), lens[r.below (23)]); break;                              // column length
            case 11: if (!cols.empty ()) { const size_t c = r.pick (cols); put64 (b, c, get<uint64_t> (b, c) + uint64_t (r.range (-9, 9))); } break;
            case 12: // flip payload bits inside a column
            case 13:
                if (!cols.empty ())
                {
                    const size_t c = r.pick (cols);
                    const uint64_t m = std::min<uint64_t> (get<uint64_t> (b, c), b.size () - c - 8);
                    for (int j = 0, e = 1 + int (r.below (3)); m && j < e; ++j)
                        b[c + 8 + (r.chance (.3) ? m - 1 - r.below (std::min<uint64_t> (m, 6)) : r.below (m))] ^= char (1 + r.below (255));
                }
                break;
            case 14: // a valid stream of another length, or another content with the old checksum
            case 15:
                if (!cols.empty ())
                {
                    const size_t c = r.pick (cols);
                    const uint64_t m = std::min<uint64_t> (get<uint64_t> (b, c), b.size () - c - 8);
                    const uint64_t n = std::min<uint64_t> (v.n, 1 << 20);
                    std::string raw (r.chance (.3) ? n * 8 : r.chance (.5) ? n * 2 + r.below (9) : r.below (1 << r.below (22)), '\0');
                    for (size_t j = 0; j < raw.size (); j += 1 + r.below (64))
                        raw[j] = char (r.next ());
                    std::string z = zip (raw, int (r.below (10)));
                    if (r.chance (.3) && z.size () > 4) z.resize (z.size () - 1 - r.below (4)); // checksum cut off
                    else if (r.chance (.3)) z += std::string (1 + r.below (20), 'x');
                    else if (r.chance (.3) && m >= 4 && z.size () > 4) z.replace (z.size () - 4, 4, b, c + 8 + m - 4, 4);
                    std::string l (8, '\0');
                    const uint64_t zn = z.size ();
                    memcpy (l.data (), &zn, 8);
                    b.replace (c, 8 + m, l + z);
                }
                break;
            case 16: // swap two columns, or repeat one
                if (cols.size () > 2)
                {
                    const size_t k1 = r.below (cols.size () - 1), k2 = r.below (cols.size () - 1);
                    const auto s1 = b.substr (cols[k1], cols[k1 + 1] - cols[k1]);
                    b.replace (cols[k2], cols[k2 + 1] - cols[k2], s1);
                }
                break;
        }
    }
    return b;
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    std::vector<std::string> pool;
    std::vector<std::string> files;
    for (auto &e : std::filesystem::directory_iterator (o.str ("dir")))
        files.push_back (e.path ().string ());
    std::sort (files.begin (), files.end ());
    for (auto &f : files)
        pool.push_back (slurp (f));
    const int fd = open ((o.str ("status") + "." + std::to_string (o.shard)).c_str (), O_RDWR | O_CREAT, 0600);
    (void) !ftruncate (fd, STATUS);
    status = (char *) mmap (nullptr, STATUS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal (SIGPROF, on_timer);
    const size_t iters = o.get ("iters", 1000);
    const size_t mb = o.get ("mb", 256);
    for (size_t it = o.shard; it < iters; it += o.shards)
    {
        rng r (o.seed, it, 4);
        std::string what;
        std::string b;
        if (r.chance (.04))
        {
            b.resize (r.below (400));
            for (auto &c : b)
                c = char (r.next ());
            if (r.chance (.7) && b.size () > 6)
                b.replace (0, 6, std::string ("SPOC\0\1", 6));
            what = " random";
        }
        else
            b = mutate (r.pick (pool), r, pool, what);
        const uint64_t sz = b.size ();
        memcpy (status, &sz, 8);
        memcpy (status + 8, b.data (), std::min<size_t> (STATUS - 8, sz));
        const auto v = look (b);
        // records that are all claimed and not there cost time only: try the largest ones rarely
        if (v.ok && v.n > 300000 && v.n < (1ull << 40) && !r.chance (.1))
        {
            count ("skipped_large_claims");
            continue;
        }
        count ("inputs");
        bool any = false;
        for (int how = 0; how < NHOW; ++how)
        {
            if (how && v.ok && v.n > 300000 && r.chance (.7))
                continue;
            struct itimerval t {{0, 0}, {60, 0}};
            setitimer (ITIMER_PROF, &t, nullptr);
            const size_t frag = r.chance (.5) ? 0 : r.chance (.5) ? 3 : 1000;
            const auto a0 = accepted;
            budget = in_use + (mb << 20);
            std::string m;
            m = check_one (b, how, frag);
            budget = size_t (-1);
            any = any || accepted > a0;
            evaluated ();
            if (!m.empty ())
            {
                const auto fn = o.str ("status") + cat (".bad", it);
                std::ofstream (fn, std::ios::binary) << b;
                violation ("reader", cat (m, " (input ", it, ", mutations", what, ", kept in ", fn, ", ", b.size (), " bytes)"));
            }
        }
        evaluated (cat (what, ":", any, v.ok, ":", v.comp), 0);
        sample (cat ("mutations", what, ": ", b.size (), " bytes, header ", v.ok, ", ", v.n, " points, ", v.ne, " extra, accepted ", any));
    }
    count ("accepted_and_judged", accepted);
    count ("refused", refused);
    done ();
}
#endif
