// Incremental record streaming and reading from streams that deliver bytes in arbitrary fragments.
#include "cloud.h"
using namespace hk;

// hands out bytes exactly as demanded: after every call of the reader it is known how far the reader looked
struct demand_buf : std::streambuf
{
    std::string d;
    size_t pos = 0;
    char c = 0;
    explicit demand_buf (const std::string &d) : d (d) {}
    int_type underflow () override
    {
        if (pos >= d.size ())
            return traits_type::eof ();
        c = d[pos++];
        setg (&c, &c, &c + 1);
        return traits_type::to_int_type (c);
    }
};

static std::string outcome (std::istream &s, int how)
{
    try
    {
        std::ostringstream o;
        switch (how)
        {
            case 0: spoc::io::write_spoc_file (o, spoc::io::read_spoc_file (s)); break;
            case 1: spoc::io::write_spoc_file (o, spoc::io::read_spoc_file_uncompressed (s)); break;
            case 2: spoc::io::write_spoc_file (o, spoc::io::read_spoc_file_compressed (s)); break;
            case 3: spoc::header::write_header (o, spoc::header::read_header (s)); break;
            default:
            {
                const auto h = spoc::header::read_header (s);
                spoc::header::write_header (o, h);
                for (size_t k = 0; k < h.total_points; ++k)
                    spoc::point_record::write_point_record (o, spoc::point_record::read_point_record (s, h.extra_fields));
            }
        }
        return cat ("ok ", s.good () ? "" : "!", o.str ());
    }
    catch (const std::exception &e) { return "error"; }
}
static const char *names[] = {"read_spoc_file", "read_spoc_file_uncompressed", "read_spoc_file_compressed", "read_header", "record streaming"};

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const size_t items = o.get ("items", 200);
    for (size_t it = o.shard; it < items; it += o.shards)
    {
        rng r (o.seed, it, 14);
        const size_t n = r.pick (std::vector<size_t> {0, 1, 2, 5, 40, 300, 3000}), ne = r.pick (std::vector<size_t> {0, 0, 1, 3, 40});
        const auto p = gen_records (r, n, ne);
        const auto wkt = gen_wkt (r, r.pick (std::vector<size_t> {0, 1, 100, 5000}));
        for (int comp = 0; comp < 2; ++comp)
        {
            sfile f (wkt, comp, p);
            std::ostringstream os;
            spoc::io::write_spoc_file (os, f);
            // bytes after the file must not matter, nor must a missing end
            std::string d = os.str () + (r.chance (.5) ? std::string () : gen_wkt (r, r.below (50)));
            if (r.chance (.15))
                d = d.substr (0, r.below (d.size ()));
            at (cat ("item ", it, " points ", n, " extra ", ne, " compressed ", comp));
            for (int how = 0; how < 5; ++how)
            {
                if (how == 4 && comp)
                    continue;
                std::istringstream w (d);
                const auto want = outcome (w, how);
                for (size_t frag : {1, 2, 3, 7, 8, 41, 100, 4096})
                {
                    if (n > 300 && frag < 7 && how != 4)
                        continue;
                    fragment_buf b (d, it * 10 + frag, frag);
                    std::istream s (&b);
                    const auto got = outcome (s, how);
                    evaluated (cat (it, ":", comp, ":", how, ":", frag));
                    count ("fragmented_reads");
                    if (got != want)
                        violation ("fragments", cat (names[how], " on ", n, " points, ", ne, " extra fields, ", comp ? "compressed" : "uncompressed",
                            ", in fragments of up to ", frag, " bytes differs from one delivery: ", got.substr (0, 5), "(", got.size (), ") instead of ",
                            want.substr (0, 5), "(", want.size (), ")"));
                }
            }
        }
        // how far the streaming reader looks, and when the streaming writer has passed on its record
        {
            sfile f (wkt, false, p);
            std::ostringstream os;
            spoc::io::write_spoc_file (os, f);
            const std::string d = os.str () + "more input";
            demand_buf b (d);
            std::istream s (&b);
            const auto h = spoc::header::read_header (s);
            const size_t hs = 18 + wkt.size (), rs = 40 + 8 * (n ? ne : 0);
            if (b.pos != hs)
                violation ("demand", cat ("read_header took ", b.pos, " bytes of input for a header of ", hs));
            std::ostringstream out;
            spoc::header::write_header (out, h);
            for (size_t k = 0; k < h.total_points; ++k)
            {
                const auto q = spoc::point_record::read_point_record (s, h.extra_fields);
                count ("records_streamed");
                if (b.pos != hs + (k + 1) * rs)
                {
                    violation ("demand", cat ("after record ", k, " the reader has taken ", b.pos, " bytes instead of ", hs + (k + 1) * rs));
                    break;
                }
                if (!same (q, p[k]))
                {
                    violation ("record", cat ("record ", k, " read as ", show (q), " instead of ", show (p[k])));
                    break;
                }
                spoc::point_record::write_point_record (out, q);
                if (size_t (out.tellp ()) != b.pos)
                {
                    violation ("emit", cat ("after record ", k, " the writer has passed on ", size_t (out.tellp ()), " bytes instead of ", b.pos));
                    break;
                }
            }
            evaluated (cat (it, ":demand"));
        }
        sample (cat (n, " points, ", ne, " extra fields, WKT of ", wkt.size (), " bytes"));
    }
    done ();
}
