// Every library writer on streams that refuse everything after k bytes, for every k: it must throw or leave the
// stream failed, and a writer that reports success must have delivered everything.
#include "cloud.h"
#include "spoc/compression.h"
using namespace hk;

// buffers like a file, fails when the buffer is flushed beyond the limit
struct buffered_limited : std::streambuf
{
    std::string d;
    size_t limit;
    std::vector<char> b;
    buffered_limited (size_t limit, size_t bs) : limit (limit), b (bs) { setp (b.data (), b.data () + bs); }
    bool spill ()
    {
        const size_t n = pptr () - pbase (), k = std::min (n, limit - d.size ());
        d.append (pbase (), k);
        if (k < n)
        {
            // what could not be written stays, as in a file buffer
            memmove (b.data (), b.data () + k, n - k);
            setp (b.data (), b.data () + b.size ());
            pbump (int (n - k));
            return false;
        }
        setp (b.data (), b.data () + b.size ());
        return true;
    }
    int_type overflow (int_type c) override
    {
        if (!spill ())
            return traits_type::eof ();
        if (!traits_type::eq_int_type (c, traits_type::eof ()))
            sputc (traits_type::to_char_type (c));
        return traits_type::not_eof (c);
    }
    int sync () override { return spill () ? 0 : -1; }
};

using writer = std::function<void (std::ostream &)>;

static void probe (const std::string &name, const writer &w, const options &o, size_t stride, const std::string &key)
{
    std::ostringstream full;
    w (full);
    const std::string want = full.str ();
    rng r (o.seed, want.size (), hash_str (name + key));
    std::set<size_t> ks;
    for (size_t k = r.below (stride); k < want.size (); k += stride)
        ks.insert (k);
    for (size_t k = 0; k < 3; ++k)
    {
        if (k < want.size ())
            ks.insert (want.size () - 1 - k);
        ks.insert (want.size () + k * 100);
    }
    for (size_t k : ks)
    {
        if (k % o.shards != o.shard)
            continue;
        for (int kind = 0; kind < 3; ++kind)
        {
            bool threw = false, failed = false;
            std::string got;
            auto go = [&] (auto &buf)
            {
                std::ostream s (&buf);
                try { w (s); }
                catch (const std::exception &) { threw = true; }
                failed = !s || !s.flush ();
                got = buf.d;
            };
            if (kind == 0)
            {
                limited_buf b (k);
                go (b);
            }
            else
            {
                buffered_limited b (k, kind == 1 ? 64 : 8192);
                go (b);
            }
            evaluated (cat (name, ":", key, ":", k * 40 / (want.size () + 1), ":", kind));
            count (k < want.size () ? "failures_injected" : "enough_room");
            if (k < want.size () && !threw && !failed)
                violation ("silent", cat (name, " (", key, ") reports success although only ", got.size (), " of ", want.size (),
                    " bytes could be written, stream kind ", kind, ", limit ", k));
            if (k >= want.size () && (threw || failed))
                violation ("spurious", cat (name, " (", key, ") fails although there is room, stream kind ", kind));
            if (k >= want.size () && got != want)
                violation ("incomplete", cat (name, " (", key, ") wrote ", got.size (), " bytes instead of ", want.size ()));
            if (k < want.size () && want.compare (0, got.size (), got) != 0)
                violation ("garbled", cat (name, " (", key, ") wrote other bytes before the failure"));
        }
    }
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    rng r (o.seed, 5);
    const size_t extra_stride = o.get ("stride", 1);
    for (size_t n : {0, 1, 2, 7, 40, 300})
        for (size_t ne : {0, 1, 5, 255})
        {
            if (n * ne > 400)
                continue;
            for (int comp = 0; comp < 2; ++comp)
            {
                const sfile f (gen_wkt (r, r.below (60)), comp, gen_records (r, n, ne));
                const auto key = cat ("n=", n, " extra=", ne, comp ? " compressed" : "");
                at (key);
                const size_t stride = extra_stride * (comp ? (n > 50 ? 16 : 6) : n > 50 ? 8 : 1);
                probe ("write_spoc_file", [&] (std::ostream &s) { spoc::io::write_spoc_file (s, f); }, o, stride, key);
                if (comp)
                    probe ("write_spoc_file_compressed", [&] (std::ostream &s) { spoc::io::write_spoc_file_compressed (s, f); }, o, stride * 2, key);
                else
                {
                    probe ("write_spoc_file_uncompressed", [&] (std::ostream &s) { spoc::io::write_spoc_file_uncompressed (s, f); }, o, stride, key);
                    probe ("write_header", [&] (std::ostream &s) { spoc::header::write_header (s, f.get_header ()); }, o, 1, key);
                    if (n)
                        probe ("write_point_record", [&] (std::ostream &s) { spoc::point_record::write_point_record (s, f.get_point_record (0)); }, o, ne > 9 ? 7 : 1, key);
                }
            }
        }
    for (size_t len : {0, 1, 100, 5000})
    {
        std::string d (len, 'a');
        for (auto &c : d)
            c = char (r.next ());
        const auto key = cat ("length ", len);
        at (key);
        probe ("compress (stream)", [&] (std::ostream &s) { std::istringstream i (d); spoc::compression::compress (i, s, 6); }, o, 1 + len / 20, key);
        const auto z = spoc::compression::compress (reinterpret_cast<const uint8_t *> (d.data ()), d.size (), -1);
        const std::string zs (z.begin (), z.end ());
        probe ("decompress (stream)", [&] (std::ostream &s) { std::istringstream i (zs); spoc::compression::decompress (i, s); }, o, 1 + len / 20, key);
    }
    sample ("each writer, each number of accepted bytes, three kinds of stream");
    done ();
}
