// Every truncation of every given file through every reader of the library.
#include "cloud.h"
#include <filesystem>
using namespace hk;

enum how { GENERIC, SPECIFIC, HEADER, STREAMED, NHOW };
static const char *names[] = {"read_spoc_file", "the encoding-specific reader", "read_header", "record streaming"};

// what the reader did: "" = reported an error
static std::string attempt (std::istream &s, int how, bool comp)
{
    try
    {
        switch (how)
        {
            case GENERIC: return cat ("returned ", spoc::io::read_spoc_file (s).get_point_records ().size (), " records");
            case SPECIFIC:
                return cat ("returned ", (comp ? spoc::io::read_spoc_file_compressed (s)
                    : spoc::io::read_spoc_file_uncompressed (s)).get_point_records ().size (), " records");
            case HEADER: { const auto h = spoc::header::read_header (s); return s ? cat ("returned a header of ", h.total_points, " points") : std::string (); }
            default:
            {
                const auto h = spoc::header::read_header (s);
                for (size_t k = 0; k < h.total_points; ++k)
                {
                    spoc::point_record::read_point_record (s, h.extra_fields);
                    if (!s)
                        return "";
                }
                return s ? cat ("streamed ", h.total_points, " records") : std::string ();
            }
        }
    }
    catch (const std::exception &) { return ""; }
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    std::vector<std::string> files;
    for (auto &e : std::filesystem::directory_iterator (o.str ("dir")))
        files.push_back (e.path ().string ());
    std::sort (files.begin (), files.end ());
    const size_t budget = o.get ("budget", 3000), stride0 = o.get ("stride", 1);
    for (size_t n = 0; n < files.size (); ++n)
    {
        const auto d = slurp (files[n]);
        const size_t wl = (unsigned char) d.at (6) | ((unsigned char) d.at (7) << 8), hs = 8 + wl + 10;
        const bool comp = d[hs - 1];
        // every cut when the file is small enough, otherwise the ends, the header, and an even spread
        rng r (o.seed, n, 3);
        std::set<size_t> cuts;
        if (d.size () <= budget * stride0)
        {
            for (size_t k = stride0 > 1 ? r.below (stride0) : 0; k < d.size (); k += stride0)
                cuts.insert (k);
        }
        else
            for (size_t k = 0; k < budget; ++k)
                cuts.insert (r.below (d.size ()));
        for (size_t k = 1; k <= 12 && k <= d.size (); ++k)
        {
            cuts.insert (d.size () - k);
            if (hs + k < d.size ()) cuts.insert (hs + k);
            if (hs >= k) cuts.insert (hs - k);
        }
        if (hs < d.size ()) cuts.insert (hs);
        for (size_t cut : cuts)
        {
            if (cut % o.shards != o.shard)
                continue;
            const std::string part = d.substr (0, cut);
            if (cut % 64 == 0 || d.size () > 100000)
                at (cat (files[n], " cut at ", cut));
            for (int how = 0; how < NHOW; ++how)
            {
                if (how == STREAMED && comp)
                    continue;
                std::string got;
                const int delivery = int (r.below (4));
                if (delivery == 0)
                {
                    std::istringstream s (part);
                    got = attempt (s, how, comp);
                }
                else
                {
                    fragment_buf b (part, cut, delivery == 1 ? 7 : 4096);
                    b.fails = delivery == 3;
                    std::istream s (&b);
                    got = attempt (s, how, comp);
                    count ("input_errors", delivery == 3);
                }
                evaluated (cat (n, ":", cut * 100 / (d.size () + 1), ":", how, ":", delivery));
                count (names[how]);
                const bool expect_error = how != HEADER || cut < hs;
                if (expect_error != got.empty ())
                    violation (expect_error ? "accepted" : "refused-header",
                        cat (names[how], " ", expect_error ? got : "reported an error", " for the first ", cut, " of ",
                            d.size (), " bytes (header: ", hs, ") of ", files[n], comp ? ", compressed" : ", uncompressed"));
            }
            count ("cuts");
        }
        count ("files_cut");
        sample (cat (files[n], " of ", d.size (), " bytes, header ", hs, comp ? ", compressed, " : ", uncompressed, ", cuts.size (), " cuts"));
    }
    done ();
}
