// Batch driver: turns neutral column dumps into SPOC files and back with the library. The judge is elsewhere.
// Commands on stdin:  w IN OUT HOW | r IN OUT HOW | h IN OUT | q IN OUT
#include "cloud.h"
using namespace hk;

template<typename T> static void get (const std::string &b, size_t &o, T *p, size_t n)
{
    if (o + n * sizeof (T) > b.size ())
        throw std::logic_error ("short neutral file");
    if (n)
        memcpy (p, b.data () + o, n * sizeof (T));
    o += n * sizeof (T);
}

static records parse_neutral (const std::string &b, std::string &wkt, bool &comp)
{
    size_t o = 0;
    uint64_t wl, n, ne;
    uint8_t c;
    get (b, o, &wl, 1);
    wkt.resize (wl);
    get (b, o, wkt.data (), wl);
    get (b, o, &n, 1);
    get (b, o, &ne, 1);
    get (b, o, &c, 1);
    comp = c;
    records p (n, record (size_t (ne)));
    std::vector<uint64_t> u (n);
    std::vector<uint32_t> v (n);
    std::vector<uint16_t> w (n);
    get (b, o, u.data (), n); for (size_t k = 0; k < n; ++k) p[k].x = from_bits (u[k]);
    get (b, o, u.data (), n); for (size_t k = 0; k < n; ++k) p[k].y = from_bits (u[k]);
    get (b, o, u.data (), n); for (size_t k = 0; k < n; ++k) p[k].z = from_bits (u[k]);
    get (b, o, v.data (), n); for (size_t k = 0; k < n; ++k) p[k].c = v[k];
    get (b, o, v.data (), n); for (size_t k = 0; k < n; ++k) p[k].p = v[k];
    get (b, o, w.data (), n); for (size_t k = 0; k < n; ++k) p[k].i = w[k];
    get (b, o, w.data (), n); for (size_t k = 0; k < n; ++k) p[k].r = w[k];
    get (b, o, w.data (), n); for (size_t k = 0; k < n; ++k) p[k].g = w[k];
    get (b, o, w.data (), n); for (size_t k = 0; k < n; ++k) p[k].b = w[k];
    for (size_t j = 0; j < ne; ++j)
    {
        get (b, o, u.data (), n);
        for (size_t k = 0; k < n; ++k)
            p[k].extra[j] = u[k];
    }
    return p;
}

template<typename T> static void put (std::string &b, T v) { b.append (reinterpret_cast<const char *> (&v), sizeof (T)); }

static std::string dump_neutral (const sfile &f)
{
    std::string b;
    const auto wkt = f.get_wkt ();
    const auto &p = f.get_point_records ();
    put<uint64_t> (b, wkt.size ());
    b += wkt;
    put<uint64_t> (b, p.size ());
    const size_t ne = p.empty () ? 0 : p[0].extra.size ();
    put<uint64_t> (b, ne);
    put<uint8_t> (b, f.get_compressed ());
    for (auto &q : p) put (b, q.x);
    for (auto &q : p) put (b, q.y);
    for (auto &q : p) put (b, q.z);
    for (auto &q : p) put (b, q.c);
    for (auto &q : p) put (b, q.p);
    for (auto &q : p) put (b, q.i);
    for (auto &q : p) put (b, q.r);
    for (auto &q : p) put (b, q.g);
    for (auto &q : p) put (b, q.b);
    for (size_t j = 0; j < ne; ++j)
        for (auto &q : p)
            put (b, q.extra.at (j));
    return b;
}

static void spit (const std::string &fn, const std::string &b)
{
    std::ofstream f (fn, std::ios::binary);
    f.write (b.data (), b.size ());
    f.close ();
    if (!f)
        throw std::logic_error ("cannot write " + fn);
}

int main ()
{
    std::string cmd, in, out, how;
    while (std::cin >> cmd >> in >> out >> how)
    {
        std::string res = "OK";
        printf ("AT %s %s %s\n", cmd.c_str (), in.c_str (), how.c_str ());
        fflush (stdout);
        try
        {
            const auto b = slurp (in);
            if (cmd == "w")
            {
                std::string wkt;
                bool comp;
                const auto p = parse_neutral (b, wkt, comp);
                const sfile f (wkt, comp, p);
                std::ostringstream s;
                if (how == "generic")
                    spoc::io::write_spoc_file (s, f);
                else if (how == "compressed")
                    spoc::io::write_spoc_file_compressed (s, f);
                else if (how == "uncompressed")
                    spoc::io::write_spoc_file_uncompressed (s, f);
                else // streamed
                {
                    spoc::header::write_header (s, f.get_header ());
                    for (auto &q : p)
                        spoc::point_record::write_point_record (s, q);
                }
                spit (out, s.str ());
            }
            else if (cmd == "r")
            {
                std::istringstream s (b);
                sfile f;
                if (how == "generic")
                    f = spoc::io::read_spoc_file (s);
                else if (how == "compressed")
                    f = spoc::io::read_spoc_file_compressed (s);
                else if (how == "uncompressed")
                    f = spoc::io::read_spoc_file_uncompressed (s);
                else // streamed
                {
                    const auto h = spoc::header::read_header (s);
                    if (h.compressed)
                        throw std::runtime_error ("compressed");
                    f = sfile (h.wkt, false);
                    for (size_t k = 0; k < h.total_points; ++k)
                        f.push_back (spoc::point_record::read_point_record (s, h.extra_fields));
                }
                spit (out, dump_neutral (f));
            }
            else if (cmd == "h") // header in the file -> "fields" text
            {
                std::istringstream s (b);
                const auto h = spoc::header::read_header (s);
                std::ostringstream t;
                t << int (h.major_version) << " " << int (h.minor_version) << " " << unsigned (h.extra_fields) << " "
                  << h.total_points << " " << int (h.compressed) << " " << s.tellg () << "\n" << h.wkt;
                spit (out, t.str ());
            }
            else if (cmd == "g") // "ne total comp\nwkt" -> header bytes
            {
                std::istringstream s (b);
                unsigned ne, comp;
                uint64_t total;
                s >> ne >> total >> comp;
                s.get ();
                const std::string wkt (std::istreambuf_iterator<char> (s), {});
                const spoc::header::header h (wkt, ne, total, comp);
                std::ostringstream t;
                spoc::header::write_header (t, h);
                spit (out, t.str ());
            }
        }
        catch (const std::logic_error &e)
        {
            // std::length_error and std::invalid_argument are also logic errors of the library
            res = std::string ("ERR logic ") + e.what ();
        }
        catch (const std::exception &e)
        {
            res = std::string ("ERR ") + e.what ();
        }
        for (auto &c : res)
            if (c == '\n')
                c = ' ';
        printf ("RES %s\n", res.c_str ());
        fflush (stdout);
    }
    printf ("DONE\n");
}
