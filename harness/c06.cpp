// The zlib layer: every producer against every consumer, and against zlib itself.
#include "hk.h"
#include "spoc/compression.h"
#include <zlib.h>
#include <csignal>
#include <fstream>
#include <unistd.h>
using namespace hk;
using bytes = std::vector<uint8_t>;

static bytes gen (rng &r, size_t n, int kind)
{
    bytes b (n);
    switch (kind)
    {
        default: break;
        case 1: for (auto &c : b) c = r.next (); break;
        case 2: for (size_t k = 0; k < n; ++k) b[k] = "SPOC simple point cloud "[k % 24]; break;
        case 3: for (size_t k = 0; k < n; ++k) b[k] = (k / 1000) & 1 ? r.next () : 0; break;
        case 4: if (n) b[n - 1] = 1; break;
        case 5: for (auto &c : b) c = r.below (3); break;
    }
    return b;
}

static bool reference_inflate (const bytes &z, bytes &out, size_t hint)
{
    z_stream s {};
    inflateInit (&s);
    out.assign (hint + 1, 0);
    s.next_in = const_cast<uint8_t *> (z.data ());
    s.avail_in = z.size ();
    s.next_out = out.data ();
    s.avail_out = out.size ();
    const int ret = inflate (&s, Z_FINISH);
    const bool ok = ret == Z_STREAM_END && s.total_out == hint && s.avail_in == 0;
    inflateEnd (&s);
    out.resize (hint);
    return ok;
}
static bytes reference_deflate (const bytes &b, int level, int wbits, int mem, int strategy)
{
    z_stream s {};
    deflateInit2 (&s, level, Z_DEFLATED, wbits, mem, strategy);
    bytes z (deflateBound (&s, b.size ()) + 64);
    s.next_in = const_cast<uint8_t *> (b.data ());
    s.avail_in = b.size ();
    s.next_out = z.data ();
    s.avail_out = z.size ();
    deflate (&s, Z_FINISH);
    z.resize (s.total_out);
    deflateEnd (&s);
    return z;
}

static std::string str (const bytes &b) { return std::string (b.begin (), b.end ()); }
static bytes byt (const std::string &s) { return bytes (s.begin (), s.end ()); }

static bytes z_memory (const bytes &b, int level) { return spoc::compression::compress (b, level); }
static bytes z_pointer (const bytes &b, int level) { return spoc::compression::compress (b.data (), b.size (), level); }
static bytes z_stream_ (const bytes &b, int level)
{
    std::istringstream i (str (b));
    std::ostringstream o;
    spoc::compression::compress (i, o, level);
    return byt (o.str ());
}
static bytes z_fragments (const bytes &b, int level)
{
    fragment_buf fb (str (b), b.size (), 100000);
    std::istream i (&fb);
    std::ostringstream o;
    spoc::compression::compress (i, o, level);
    return byt (o.str ());
}
static bytes u_memory (const bytes &z, size_t) { return spoc::compression::decompress (z); }
static bytes u_pointer (const bytes &z, size_t n)
{
    // guard bytes around the destination
    bytes out (n + 32, 0xA5);
    spoc::compression::decompress (z, out.data () + 16, n);
    for (size_t k = 0; k < 16; ++k)
        if (out[k] != 0xA5 || out[n + 16 + k] != 0xA5)
            throw std::logic_error ("wrote outside the destination");
    return bytes (out.begin () + 16, out.end () - 16);
}
static bytes u_stream (const bytes &z, size_t)
{
    std::istringstream i (str (z));
    std::ostringstream o;
    spoc::compression::decompress (i, o);
    return byt (o.str ());
}
static bytes u_fragments (const bytes &z, size_t)
{
    fragment_buf fb (str (z), z.size (), 5000);
    std::istream i (&fb);
    std::ostringstream o;
    spoc::compression::decompress (i, o);
    return byt (o.str ());
}
using zf = bytes (*) (const bytes &, int);
using uf = bytes (*) (const bytes &, size_t);
static const std::pair<const char *, zf> Z[] = {{"compress(vector)", z_memory}, {"compress(pointer)", z_pointer},
    {"compress(stream)", z_stream_}, {"compress(fragmented stream)", z_fragments}};
static const std::pair<const char *, uf> U[] = {{"decompress(vector)", u_memory}, {"decompress(pointer)", u_pointer},
    {"decompress(stream)", u_stream}, {"decompress(fragmented stream)", u_fragments}};

static void consume (const bytes &b, const bytes &z, const std::string &d, const uf u, const char *un)
{
    std::string m;
    try
    {
        const auto g = u (z, b.size ());
        if (g != b)
        {
            size_t k = 0;
            while (k < g.size () && k < b.size () && g[k] == b[k]) ++k;
            m = cat ("gave ", g.size (), " bytes instead of ", b.size (), ", first difference at ", k);
        }
    }
    catch (const std::exception &e) { m = cat ("threw '", e.what (), "'"); }
    if (!m.empty ())
        violation ("not-restored", cat (un, " ", m, " for ", d));
}

// gives some bytes, then fails
struct failing_in : std::streambuf
{
    std::string b;
    size_t left, step;
    std::vector<char> buf;
    failing_in (const std::string &b, size_t step) : b (b), left (b.size ()), step (step), buf (step) {}
    int_type underflow () override
    {
        if (!left)
            throw std::runtime_error ("input error");
        const size_t n = std::min (step, left);
        memcpy (buf.data (), b.data () + b.size () - left, n);
        left -= n;
        setg (buf.data (), buf.data (), buf.data () + n);
        return traits_type::to_int_type (buf[0]);
    }
};
// takes some bytes, then fails
struct failing_out : std::streambuf
{
    size_t left;
    explicit failing_out (size_t n) : left (n) {}
    int_type overflow (int_type c) override { if (!left) return traits_type::eof (); --left; return traits_type::not_eof (c); }
    std::streamsize xsputn (const char *, std::streamsize n) override { const size_t k = std::min<size_t> (n, left); left -= k; return k; }
};

static void too_long (int)
{
    // (the loop under test does not end, and is interrupted between two reads)
    violation ("endless", "compress or decompress of a stream that fails does not end");
    fflush (stdout);
    _exit (0);
}

// The stream forms on streams that cannot be read or written: an error, never an endless loop or a shorter result
static void failing (const options &o)
{
    signal (SIGALRM, too_long);
    for (long it = o.shard; it < 400; it += o.shards)
    {
        rng r (o.seed, it, 67);
        const bytes b = gen (r, r.pick (std::vector<size_t> {1, 100, 5000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000000}), 1 + r.below (5));
        const bool compressing = r.chance (.5);
        const bytes in = compressing ? b : z_memory (b, 1);
        const int how = it / 8 % 4;
        std::ifstream missing ("no/such/file"), directory (".");
        failing_in fi (str (in).substr (0, how == 2 ? r.below (in.size ()) : in.size ()), 1 + r.below (70000));
        std::istream cut (&fi);
        std::istringstream good (str (in));
        const size_t whole = compressing ? z_memory (b, 1).size () : b.size ();
        failing_out fo (how == 3 ? r.below (whole) : size_t (-1));
        std::ostream os (&fo);
        std::istream &is = how == 0 ? static_cast<std::istream &> (missing) : how == 1 ? directory : how == 2 ? cut : good;
        static const char *const what[] = {"a file that could not be opened", "a directory", "a stream that fails half way", "an output that fails half way"};
        const auto d = cat (compressing ? "compress" : "decompress", " of ", in.size (), " bytes: ", what[how]);
        at (d);
        bool threw = false;
        alarm (60);
        try
        {
            if (compressing) spoc::compression::compress (is, os, 1);
            else spoc::compression::decompress (is, os);
        }
        catch (const std::exception &) { threw = true; }
        alarm (0);
        if (!threw)
            violation ("failed-stream", cat (d, ": no error"));
        evaluated (cat ("failing ", how, " ", compressing, " ", b.size ()));
        count ("failing_streams");
    }
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    struct item { size_t n; int kind, level; bool all; };
    std::vector<item> items;
    const size_t B = 1 << 20;
    for (size_t n : {0, 1, 2, 7, 8, 255, 256, 4096, 32767, 32768, 65535, 65536})
        for (int level = -1; level <= 9; ++level)
            items.push_back ({n, int (n + level + 20) % 6, level, true});
    rng r0 (o.seed, 6);
    for (size_t n : {B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 5 * B + 17})
        for (int kind = 0; kind < 6; ++kind)
            for (int level : (o.thorough ? std::vector<int> {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int> {int (r0.below (11)) - 1, 0}))
                items.push_back ({n, kind, level, false});
    // sizes whose compressed form crosses the buffer size one byte at a time
    for (size_t d = 0; d < 220; ++d)
        items.push_back ({B - d, 1, 0, false});
    for (size_t d = 300; d < 400; d += o.thorough ? 1 : 3)
    {
        items.push_back ({B - d, 1, -1, false});
        items.push_back ({2 * B - 300 - d, 1, 1, false});
    }
    for (int k = 0; k < (o.thorough ? 6000 : 300); ++k)
        items.push_back ({size_t (r0.below (k % 10 ? 5000 : 300000)), int (r0.below (6)), int (r0.below (11)) - 1, k % 10 != 0});
    for (size_t it = o.shard; it < items.size (); it += o.shards)
    {
        const auto &t = items[it];
        rng r (o.seed, it, 66);
        const auto b = gen (r, t.n, t.kind);
        for (size_t zi = 0; zi < 4; ++zi)
        {
            if (!t.all && zi != it / o.shards % 4 && zi != (it / o.shards + 1) % 4)
                continue;
            const auto d = cat (Z[zi].first, " of ", t.n, " bytes of kind ", t.kind, " at level ", t.level);
            at (d);
            bytes z, ref;
            try { z = Z[zi].second (b, t.level); }
            catch (const std::exception &e) { violation ("compress-threw", cat (d, ": ", e.what ())); continue; }
            count ("compressed");
            if (z.size () % B == 0 && !z.empty ())
                count ("compressed_size_is_a_multiple_of_the_buffer");
            if (!reference_inflate (z, ref, b.size ()) || ref != b)
                violation ("not-zlib", cat (d, ": zlib does not restore the original from the ", z.size (), " bytes"));
            for (size_t ui = 0; ui < 4; ++ui)
                if (t.all || ui == (zi + it) % 4 || (t.n % B == 0 && t.kind < 2))
                {
                    consume (b, z, d, U[ui].second, U[ui].first);
                    evaluated (cat (t.n, ":", t.kind, ":", t.level, ":", zi, ":", ui));
                }
        }
        // foreign zlib streams
        {
            const int wb = 9 + r.below (7), mem = 1 + r.below (9), st = r.below (5), lv = int (r.below (11)) - 1;
            const auto z = reference_deflate (b, lv, wb == 8 ? 9 : wb, mem, st);
            const size_t ui = r.below (4);
            consume (b, z, cat ("a foreign stream of ", t.n, " bytes, level ", lv, " window ", wb, " memory ", mem, " strategy ", st), U[ui].second, U[ui].first);
            evaluated ();
            count ("foreign_streams");
            // damaged streams must be refused
            if (t.n && z.size () > 6)
            {
                auto y = z;
                const int how = r.below (3);
                if (how == 0) y.resize (r.below (y.size ()));
                else if (how == 1) y[y.size () - 1 - r.below (4)] ^= 1 << r.below (8);
                else y[r.below (2)] ^= 0x55;
                for (size_t u2 = 0; u2 < 4; ++u2)
                {
                    bool threw = false;
                    bytes g;
                    try { g = U[u2].second (y, t.n); }
                    catch (const std::logic_error &) { violation ("guard", "destination overrun"); }
                    catch (const std::exception &) { threw = true; }
                    evaluated ();
                    if (!threw && g != b)
                        violation ("damage-accepted", cat (U[u2].first, " accepts a damaged stream (", how, ") of ", t.n, " bytes and returns ", g.size (), " bytes"));
                    count ("damaged_streams");
                }
            }
            // a wrong destination size must be refused
            for (long dn : {-1, 1, 100})
                if (long (t.n) + dn >= 0 && t.n < 100000)
                {
                    bool threw = false;
                    try { u_pointer (z, t.n + dn); }
                    catch (const std::logic_error &) { violation ("guard", "destination overrun"); }
                    catch (const std::exception &) { threw = true; }
                    evaluated ();
                    if (!threw)
                        violation ("wrong-size", cat ("decompress accepts a destination of ", t.n + dn, " bytes for ", t.n));
                }
        }
    }
    if (o.shard == 0)
        for (int level : {-2, 10, 11, 100, -100})
            for (auto &z : Z)
            {
                bool threw = false;
                try { z.second (bytes (100, 7), level); }
                catch (const std::exception &) { threw = true; }
                evaluated ();
                if (!threw)
                    violation ("bad-level", cat (z.first, " accepts level ", level));
            }
    failing (o);
    sample ("every compressor x every decompressor x zlib, levels -1..9, sizes around the 1 MiB buffer");
    done ();
}
