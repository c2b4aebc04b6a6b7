// C01: write-read round trips, bit exact, both encodings, several streams.
#include "cloud.h"
#include <unistd.h>
using namespace hk;

static const std::string TAIL ("\x01TAIL-after-the-file\xff\x00Z", 22);

static std::string write_it (const sfile &f, int how, const std::string &tmp)
{
    if (how == 0)
    {
        std::ostringstream s;
        spoc::io::write_spoc_file (s, f);
        return s.str ();
    }
    if (how == 1)
    {
        std::ostringstream s;
        if (f.get_compressed ())
            spoc::io::write_spoc_file_compressed (s, f);
        else
            spoc::io::write_spoc_file_uncompressed (s, f);
        return s.str ();
    }
    {
        std::ofstream s (tmp);
        spoc::io::write_spoc_file (s, f);
    }
    return slurp (tmp);
}

static sfile read_it (std::istream &s, bool compressed, int how)
{
    if (how == 0)
        return spoc::io::read_spoc_file (s);
    return compressed ? spoc::io::read_spoc_file_compressed (s) : spoc::io::read_spoc_file_uncompressed (s);
}

static void one (rng &r, const std::string &wkt, const records &orig, bool compressed, const std::string &tmp,
    const std::string &what)
{
    at (what);
    try
    {
        const records keep (orig);
        const sfile f (wkt, compressed, orig);
        const int wh = int (r.below (3));
        const std::string b = write_it (f, wh, tmp);
        if (!difference (keep, f.get_point_records ()).empty ())
            violation ("writer-changed-argument", what);
        for (int rh = 0; rh < 2; ++rh)
        {
            // in memory, followed by other data
            std::istringstream is (b + TAIL);
            sfile g = read_it (is, compressed, rh);
            const auto d = difference (keep, g.get_point_records ());
            if (!d.empty ())
                violation (cat (compressed ? "compressed" : "uncompressed", "-records"), cat (what, ": ", d));
            if (g.get_wkt () != wkt)
                violation ("wkt", cat (what, ": WKT of ", g.get_wkt ().size (), " bytes instead of ", wkt.size ()));
            if (g.get_compressed () != compressed)
                violation ("flag", what);
            std::string rest (std::istreambuf_iterator<char> (is), {});
            if (rest != TAIL)
                violation ("position", cat (what, ": ", rest.size (), " bytes left instead of ", TAIL.size ()));
            count ("reads");
            if (rh == 0)
            {
                const std::string b2 = write_it (g, 0, tmp);
                if (b2 != b)
                    violation ("rewrite", cat (what, ": writing what was read gives other bytes (", b2.size (), " vs ",
                                              b.size (), ")"));
                // the other encoding of the same cloud
                g.set_compressed (!compressed);
                const std::string b3 = write_it (g, 1, tmp);
                std::istringstream is3 (b3);
                const sfile h = read_it (is3, !compressed, 1);
                const auto d3 = difference (keep, h.get_point_records ());
                if (!d3.empty ())
                    violation ("reencoded-records", cat (what, ": ", d3));
                if (h.get_compressed () == compressed || h.get_wkt () != wkt)
                    violation ("reencoded-header", what);
                count ("reads");
            }
        }
        // record by record
        if (!compressed && orig.size () < 3000)
        {
            std::istringstream is (b + TAIL);
            const auto h = spoc::header::read_header (is);
            if (h.total_points != keep.size () || h.wkt != wkt || h.compressed)
                violation ("header", what);
            records got;
            for (size_t i = 0; i < h.total_points; ++i)
                got.push_back (spoc::point_record::read_point_record (is, h.extra_fields));
            const auto d = difference (keep, got);
            if (!d.empty ())
                violation ("streamed-records", cat (what, ": ", d));
            std::string rest (std::istreambuf_iterator<char> (is), {});
            if (rest != TAIL)
                violation ("streamed-position", what);
            std::ostringstream os;
            spoc::header::write_header (os, h);
            for (auto &p : got)
                spoc::point_record::write_point_record (os, p);
            if (os.str () != b)
                violation ("streamed-rewrite", what);
            count ("streamed_reads");
        }
        // from a file and in fragments
        if (wh == 2)
        {
            std::ifstream is (tmp);
            const sfile g = read_it (is, compressed, 0);
            const auto d = difference (keep, g.get_point_records ());
            if (!d.empty () || g.get_wkt () != wkt)
                violation ("file-records", cat (what, ": ", d));
            count ("file_reads");
        }
        if (r.chance (.4))
        {
            fragment_buf fb (b, r.next (), r.chance (.5) ? 7 : 900);
            std::istream is (&fb);
            const sfile g = read_it (is, compressed, 0);
            const auto d = difference (keep, g.get_point_records ());
            if (!d.empty () || g.get_wkt () != wkt)
                violation ("fragmented-records", cat (what, ": ", d));
            count ("fragmented_reads");
        }
    }
    catch (const std::exception &e)
    {
        violation ("exception", cat (what, ": ", e.what ()));
    }
    evaluated (orig.empty () ? "" : what);
    count ("records", orig.size ());
    if (orig.size () == 3)
        sample (what + ": " + show (orig[2]));
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const std::string tmp = o.str ("tmp", "/tmp/c01") + cat (".", o.shard, ".spoc");
    struct spec { size_t n, ne; int reps; };
    std::vector<spec> specs;
    for (size_t ne = 0; ne < 256; ++ne)
        specs.push_back ({1 + ne % 3, ne, o.thorough ? 6 : 1});
    for (size_t ne : {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 59, 60, 61, 121, 122, 123, 124, 125, 126, 127, 128, 200, 250, 251, 252, 253, 254, 255})
        for (size_t n : {0, 1, 2, 3, 4, 5, 8, 13, 14, 27})
            specs.push_back ({n, ne, o.thorough ? 8 : 1});
    for (size_t n : {0, 1, 2, 3, 12, 23, 24, 25, 26, 27, 49, 50, 51, 52, 75, 76, 99, 100, 101, 255, 256, 257, 511, 512, 513})
        for (size_t ne : {0, 1, 2, 5})
            specs.push_back ({n, ne, o.thorough ? 60 : 6});
    for (size_t n : {1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384})
        for (size_t ne : {0, 1, 3})
            specs.push_back ({n, ne, o.thorough ? 20 : 1});
    for (size_t n : {32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145, 524288})
        specs.push_back ({n, size_t (n == 65536 ? 2 : n == 131072 ? 1 : 0), o.thorough ? 8 : 1});
    const size_t stride = o.get ("stride", 1);
    size_t id = 0;
    for (const auto &s : specs)
        for (int rep = 0; rep < s.reps; ++rep, ++id)
        {
            if (id % o.shards != o.shard || (id / o.shards + o.seed) % stride != 0)
                continue;
            rng r (o.seed, 1, id);
            size_t wl = r.below (40);
            if (s.n < 200 && r.chance (.5))
                wl = r.pick (std::vector<size_t> {0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 40000, 65534, 65535});
            const auto wkt = gen_wkt (r, wl);
            const auto p = gen_records (r, s.n, s.ne);
            for (int c = 0; c < 2; ++c)
                one (r, wkt, p, c, tmp, cat ("case ", id, ": n=", s.n, " extra=", s.ne, " wkt=", wl, " compressed=", c));
        }
    // every WKT length near the limits of its length field, and a stride through the others
    for (size_t wl = 0; wl <= 65535; wl += (wl < 1100 || wl > 65400) ? (o.thorough ? 1 : 7) : (o.thorough ? 97 : 1499), ++id)
    {
        if (id % o.shards != o.shard)
            continue;
        rng r (o.seed, 2, wl);
        const auto wkt = gen_wkt (r, wl);
        const auto p = gen_records (r, r.below (3), r.below (3));
        one (r, wkt, p, wl & 1, tmp, cat ("wkt case ", wl, ": n=", p.size (), " wkt=", wl));
    }
    unlink (tmp.c_str ());
    done ();
}
