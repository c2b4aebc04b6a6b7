// Common part of the in-process monitors: seeded choices, reporting, streams, clouds.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace hk
{

struct rng
{
    uint64_t s;
    explicit rng (uint64_t a, uint64_t b = 0, uint64_t c = 0)
    {
        s = a * 0x9E3779B97F4A7C15ull + b * 0xBF58476D1CE4E5B9ull + c * 0x94D049BB133111EBull + 12345;
        next ();
        next ();
    }
    uint64_t next ()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below (uint64_t n) { return n ? next () % n : 0; }
    int64_t range (int64_t a, int64_t b) { return a + int64_t (below (uint64_t (b - a + 1))); }
    double unit () { return double (next () >> 11) / 9007199254740992.0; }
    double uniform (double a, double b) { return a + (b - a) * unit (); }
    bool chance (double p) { return unit () < p; }
    template<typename T> const T &pick (const std::vector<T> &v) { return v[below (v.size ())]; }
};

struct options
{
    std::map<std::string, std::string> m;
    uint64_t seed = 1, shard = 0, shards = 1;
    bool thorough = false;
    long get (const std::string &k, long d) const
    {
        auto i = m.find (k);
        return i == m.end () ? d : atol (i->second.c_str ());
    }
    std::string str (const std::string &k, const std::string &d = "") const
    {
        auto i = m.find (k);
        return i == m.end () ? d : i->second;
    }
};

inline options parse (int argc, char **argv)
{
    options o;
    for (int i = 1; i < argc; ++i)
    {
        const char *e = strchr (argv[i], '=');
        if (e)
            o.m[std::string (argv[i], e - argv[i])] = e + 1;
    }
    o.seed = o.get ("seed", 1);
    o.shard = o.get ("shard", 0);
    o.shards = o.get ("shards", 1);
    o.thorough = o.get ("tier", 0);
    return o;
}

inline std::mutex &mtx () { static std::mutex m; return m; }
struct report_state
{
    uint64_t cases = 0, nkeys = 0, viol = 0;
    std::map<std::string, uint64_t> counts;
    std::set<uint64_t> keys;
    int samples = 0;
    std::string at;
};
inline report_state &st () { static report_state s; return s; }

inline void flush_counts ()
{
    printf ("CASE %" PRIu64 "\n", st ().cases);
    for (auto &c : st ().counts)
        printf ("COUNT %s %" PRIu64 "\n", c.first.c_str (), c.second);
    for (auto k : st ().keys)
        printf ("KEY %016" PRIx64 "\n", k);
    fflush (stdout);
}
inline void done ()
{
    flush_counts ();
    printf ("DONE\n");
    fflush (stdout);
}
inline uint64_t hash_str (const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
inline void count (const char *n, uint64_t k = 1) { st ().counts[n] += k; }
inline void evaluated (const std::string &key = "", uint64_t n = 1)
{
    st ().cases += n;
    if (!key.empty ())
        st ().keys.insert (hash_str (key));
}
inline void sample (const std::string &s)
{
    if (st ().samples++ < 1)
        printf ("SAMPLE %s\n", s.c_str ());
}
// what is being executed, for reports about crashes
inline void at (const std::string &s)
{
    printf ("AT %s\n", s.c_str ());
    fflush (stdout);
}
inline void violation (const std::string &key, std::string text)
{
    std::lock_guard<std::mutex> l (mtx ());
    for (auto &c : text)
        if (c == '\n')
            c = ' ';
    printf ("VIOLATION %s | %s\n", key.c_str (), text.c_str ());
    fflush (stdout);
    if (++st ().viol >= 5)
    {
        flush_counts ();
        printf ("DONE\n");
        fflush (stdout);
        _Exit (0);
    }
}
template<typename... A>
inline std::string cat (const A &...a)
{
    std::ostringstream s;
    s.precision (17);
    ((s << a), ...);
    return s.str ();
}

// An input stream buffer that hands out its bytes in fragments
struct fragment_buf : std::streambuf
{
    std::string d;
    size_t pos = 0;
    rng r;
    size_t maxfrag;
    bool fails = false; // an error, not the end of the file, comes after the bytes
    fragment_buf (const std::string &d, uint64_t seed, size_t maxfrag) : d (d), r (seed, 77), maxfrag (maxfrag) {}
    int_type underflow () override
    {
        if (pos >= d.size ())
        {
            if (fails)
                throw std::runtime_error ("input error");
            return traits_type::eof ();
        }
        size_t k = 1 + r.below (maxfrag);
        if (k > d.size () - pos)
            k = d.size () - pos;
        setg (&d[pos], &d[pos], &d[pos] + k);
        pos += k;
        return traits_type::to_int_type (*gptr ());
    }
};

// An output stream buffer that refuses everything after 'limit' bytes
struct limited_buf : std::streambuf
{
    std::string d;
    size_t limit;
    explicit limited_buf (size_t limit) : limit (limit) {}
    int_type overflow (int_type c) override
    {
        if (traits_type::eq_int_type (c, traits_type::eof ()))
            return traits_type::not_eof (c);
        if (d.size () >= limit)
            return traits_type::eof ();
        d.push_back (traits_type::to_char_type (c));
        return c;
    }
    std::streamsize xsputn (const char *s, std::streamsize n) override
    {
        std::streamsize k = std::min<std::streamsize> (n, std::streamsize (limit - d.size ()));
        d.append (s, k);
        return k;
    }
    int sync () override { return d.size () > limit ? -1 : 0; }
};

inline uint64_t bits (double d)
{
    uint64_t u;
    memcpy (&u, &d, 8);
    return u;
}
inline double from_bits (uint64_t u)
{
    double d;
    memcpy (&d, &u, 8);
    return d;
}
inline bool same (double a, double b) { return bits (a) == bits (b); }

inline std::string slurp (const std::string &fn)
{
    std::ifstream f (fn, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf ();
    return s.str ();
}

} // namespace hk
