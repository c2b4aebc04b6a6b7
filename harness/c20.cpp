// Random JSON trees, printed by the library in both ways, next to a plain dump of what they hold.
#include "hk.h"
#include "spoc/json.h"
using namespace hk;
using namespace spoc;

static std::string hex (const std::string &s)
{
    std::string h;
    char b[4];
    for (unsigned char c : s) { snprintf (b, sizeof b, "%02x", c); h += b; }
    return h;
}
static std::string text (rng &r)
{
    static const std::vector<std::string> t {"", "x", "PROJCS[\"NAD83\"]", "it's", "a\\b", "line\nbreak\ttab", "'", "\\'", "\xc3\xa9", "true", "1",
        " : ", "{ }", ", "};
    return r.pick (t);
}
static json::value gen (rng &r, int depth, std::string &dump, int &nodes);
static json::object gen_object (rng &r, int depth, std::string &dump, int &nodes)
{
    json::object o;
    const size_t n = r.below (5);
    std::map<std::string, std::string> d;
    for (size_t k = 0; k < n; ++k)
    {
        const std::string key = r.chance (.2) ? text (r) : cat ("k", r.below (100));
        std::string s;
        o[key] = gen (r, depth - 1, s, nodes);
        d[key] = s;
    }
    dump += "{";
    for (auto &e : d)
        dump += "s" + hex (e.first) + " " + e.second;
    dump += "} ";
    return o;
}
static json::array gen_array (rng &r, int depth, std::string &dump, int &nodes)
{
    json::array a;
    const size_t n = r.below (5);
    dump += "[";
    for (size_t k = 0; k < n; ++k)
        a.push_back (gen (r, depth - 1, dump, nodes));
    dump += "] ";
    return a;
}
static json::value gen (rng &r, int depth, std::string &dump, int &nodes)
{
    ++nodes;
    auto num = [&] (const auto &v) { std::ostringstream s; s.precision (17); s << "n" << v << " "; dump += s.str (); };
    switch (r.below (depth > 0 ? 15 : 12))
    {
        default:
        case 0: { int v = r.pick (std::vector<int> {0, 1, -1, 2147483647, -2147483647 - 1, int (r.next ())}); num (v); return v; }
        case 1: { char v = char (r.below (128)); num (int (v)); return v; }
        case 2: { uint8_t v = r.next (); num (int (v)); return v; }
        case 3: { uint16_t v = r.next (); num (v); return v; }
        case 4: { uint32_t v = uint32_t (r.chance (.3) ? ~0ull : r.next ()); num (v); return v; }
        case 5: { uint64_t v = r.chance (.3) ? ~0ull : r.next (); num (v); return v; }
        case 6: { float v = float (r.uniform (-1e6, 1e6)); num (v); return v; }
        case 7: { double v = r.chance (.3) ? std::ldexp (r.uniform (-1, 1), int (r.range (-1000, 1000))) : r.uniform (-1e7, 1e7); num (v); return v; }
        case 8: { bool v = r.chance (.5); dump += v ? "true " : "false "; return v; }
        case 9: { std::string v = text (r); dump += "s" + hex (v) + " "; return v; }
        case 10: { const char *v = "a literal's"; dump += "s" + hex (v) + " "; return v; }
        case 11:
        {
            double v = r.pick (std::vector<double> {INFINITY, -INFINITY, NAN});
            dump += "s" + hex (std::isnan (v) ? "nan" : v > 0 ? "inf" : "-inf") + " ";
            return v;
        }
        case 12: case 13: return gen_object (r, depth, dump, nodes);
        case 14: return gen_array (r, depth, dump, nodes);
    }
}

int main (int argc, char **argv)
{
    const options o = parse (argc, argv);
    const long items = o.get ("items", 100);
    for (long it = o.shard; it < items; it += o.shards)
    {
        rng r (o.seed, it, 20);
        std::string dump;
        int nodes = 0;
        const json::object j = gen_object (r, 4, dump, nodes);
        std::ostringstream a, b;
        a.precision (17);
        b.precision (17);
        json::operator<< (a, j);
        json::pretty_print (b, j, 0);
        printf ("TREE %d %s|%s|%s\n", nodes, dump.c_str (), hex (a.str ()).c_str (), hex (b.str ()).c_str ());
    }
    done ();
}
