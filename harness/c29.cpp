// The work and memory of library operations on n and k n points.
#include "cloud.h"
#include "work.h"
#include "spoc/subsampling.h"
#include "spoc/radius_search.h"
#include "spoc/affine.h"
#include "spoc/compression.h"
#include <algorithm>
#include <array>
#include <memory>
using namespace hk;
using points = std::vector<spoc::point::point<double>>;

static const std::vector<std::string> DIST {"volume", "dense", "grid", "negative-grid", "ground", "wall-x", "wall-y", "line-x", "line-y",
    "line-z", "diagonal", "antidiagonal", "duplicates", "pairs", "clusters", "scattered", "half-grid", "far-grid"};
// of a density that does not depend on the number of points
static bool sparse (const std::string &d) { return d != "dense" && d != "duplicates" && d != "clusters"; }

static void locate (const std::string &d, rng &r, size_t t, size_t n, double &x, double &y, double &z)
{
    const size_t c = std::ceil (std::cbrt (double (n))), s = std::ceil (std::sqrt (double (n)));
    const double e = std::cbrt (double (n));
    x = y = z = 0;
    if (d == "volume") { x = r.uniform (0, e); y = r.uniform (0, e); z = r.uniform (0, e); }
    else if (d == "dense") { x = r.uniform (500000, 500010); y = r.uniform (500000, 500010); z = r.uniform (0, 10); }
    else if (d == "grid") { x = t % c; y = t / c % c; z = t / c / c; }
    else if (d == "half-grid") { x = .5 * (t % c); y = .5 * (t / c % c); z = .5 * (t / c / c); }
    else if (d == "far-grid") { x = 356000 + 1024. * (t % c); y = 4e6 + 1024. * (t / c % c); z = 16. * (t / c / c); }
    else if (d == "negative-grid") { x = -3. * (t % c); y = -3. * (t / c % c); z = -3. * (t / c / c); }
    else if (d == "ground") { x = t % s; y = t / s; z = r.uniform (0, .1); }
    else if (d == "wall-x") { x = 7; y = t % s; z = t / s; }
    else if (d == "wall-y") { x = t % s; y = -7; z = t / s; }
    else if (d == "line-x") x = t;
    else if (d == "line-y") y = double (n - t);
    else if (d == "line-z") z = t;
    else if (d == "diagonal") x = y = z = t;
    else if (d == "antidiagonal") { x = t; y = -double (t); }
    else if (d == "duplicates") x = y = z = 1.5;
    else if (d == "pairs") { x = t / 2 * .5; y = t / 2 * .25; }
    else if (d == "clusters") { x = r.uniform (0, 1) + 1000. * r.below (40); y = r.uniform (0, 1) + 1000. * r.below (40); z = r.uniform (0, 1); }
    else { x = r.uniform (-1e5, 1e5); y = r.uniform (-1e5, 1e5); z = r.uniform (-1e5, 1e5); }
}

// everything an operation may need, made before the measurement
struct world
{
    size_t n, ne;
    std::string dist;
    points p;
    records q;
    std::unique_ptr<sfile> f, g;
    std::string u, c;               // the file, in both encodings
    std::vector<spoc::voxel::voxel_index> v;
    std::vector<uint8_t> bytes, packed;
    std::unique_ptr<std::istringstream> head;
};

static world make (uint64_t seed, const std::string &dist, int ints, size_t n, size_t ne)
{
    world w;
    w.n = n; w.ne = ne; w.dist = dist;
    rng r (seed, 29);
    for (size_t t = 0; t < n; ++t)
    {
        record a (ne);
        locate (dist, r, t, n, a.x, a.y, a.z);
        auto val = [&] { return ints == 0 ? r.below (6) : ints == 1 ? t : ints == 2 ? 1 : ints == 3 ? 0 : r.next (); };
        a.c = val (); a.p = val (); a.i = val (); a.r = val (); a.g = val (); a.b = val ();
        for (auto &e : a.extra) e = val ();
        w.q.push_back (a);
        w.p.push_back ({a.x, a.y, a.z});
    }
    for (int compressed = 0; compressed < 2; ++compressed)
    {
        w.f = std::make_unique<sfile> ("WKT", compressed, w.q);
        std::ostringstream o;
        spoc::io::write_spoc_file (o, *w.f);
        (compressed ? w.c : w.u) = o.str ();
    }
    w.head = std::make_unique<std::istringstream> (w.c);
    w.f->set_compressed (false);
    w.g = std::make_unique<sfile> (*w.f);
    w.v = spoc::voxel::get_voxel_indexes (w.p, 1.0);
    w.bytes.assign (w.u.begin (), w.u.end ());
    w.packed = spoc::compression::compress (w.bytes, 1);
    return w;
}

struct cost { uint64_t work = 0, peak = 0; };
struct operation
{
    const char *name;
    enum { LINEAR, CONSTANT } kind;
    std::function<void (world &)> run;
    double radius = 0;              // of a search: the work may be proportional to the points of the 27 cells around each point
};
static volatile size_t sink;

static cost measure (const operation &o, world &w)
{
    work::now.peak = work::now.live;
    const auto a = work::now;
    o.run (w);
    const auto b = work::now;
    return {work::total (b) - work::total (a), b.peak - a.live};
}

// points, and points of the cells around each point
static double candidates (const points &p, double radius)
{
    std::map<std::array<long, 3>, double> m;
    auto cell = [=] (const auto &a) { return std::array<long, 3> {long (std::floor (a.x / radius)), long (std::floor (a.y / radius)), long (std::floor (a.z / radius))}; };
    for (const auto &a : p)
        ++m[cell (a)];
    double t = p.size () * 100.0;
    for (const auto &c : m)
        for (int n = 0; n < 27; ++n)
        {
            const auto i = m.find ({c.first[0] + n / 9 - 1, c.first[1] + n / 3 % 3 - 1, c.first[2] + n % 3 - 1});
            if (i != m.end ())
                t += c.second * i->second;
        }
    return t;
}

static std::vector<operation> operations ()
{
    using namespace spoc;
    using O = operation;
    auto noop = [] (size_t, const std::vector<size_t> &n) { sink = sink + n.size (); };
    std::vector<operation> L {
        {"extent::get_extent", O::LINEAR, [] (world &w) { sink = extent::get_extent (w.q).maxp.x > 0; }},
        {"extent::rescale and restore", O::LINEAR, [] (world &w) {
            const auto e = extent::get_extent (w.p);
            sink = extent::restore (extent::rescale (w.p, e), e).size (); }},
        {"voxel::get_voxel_indexes", O::LINEAR, [] (world &w) { sink = voxel::get_voxel_indexes (w.q, .7).size (); }},
        {"voxel::get_voxel_index_set", O::LINEAR, [] (world &w) { sink = voxel::get_voxel_index_set (w.v).size (); }},
        {"voxel::get_voxel_index_map", O::LINEAR, [] (world &w) { sink = voxel::get_voxel_index_map (w.v).size (); }},
        {"subsampling::get_subsample_indexes", O::LINEAR, [] (world &w) { sink = subsampling::get_subsample_indexes (w.q, 1.0, 0).size (); }},
        {"subsampling::get_subsample_indexes fine", O::LINEAR, [] (world &w) { sink = subsampling::get_subsample_indexes (w.p, .125, 7).size (); }},
        {"subsampling::get_unique_xyz_indexes", O::LINEAR, [] (world &w) { sink = subsampling::get_unique_xyz_indexes (w.q, 0).size (); }},
        {"subsampling::subsample_points", O::LINEAR, [] (world &w) { sink = subsampling::subsample_points (w.p, 1.0, 3).size (); }},
        {"radius_search_all", O::LINEAR, [=] (world &w) { radius_search::radius_search_all (w.p, 1.5, noop); }, 1.5},
        {"radius_search_all, many neighbours", O::LINEAR, [=] (world &w) { radius_search::radius_search_all (w.q, 2.0, noop, 1000); }, 2.0},
        {"radius_search_get_neighbors", O::LINEAR, [] (world &w) { sink = radius_search::radius_search_get_neighbors (w.p, 1.0).size (); }, 1.0},
        {"radius_search_indexes", O::LINEAR, [=] (world &w) {
            std::vector<size_t> i;
            for (size_t k = 0; k < w.n; k += 2) i.push_back (k);
            radius_search::radius_search_indexes (w.p, i, 1.5, noop); }, 1.5},
        {"radius_search_all_neighbors", O::LINEAR, [=] (world &w) {
            std::vector<size_t> i;
            for (size_t k = 0; k < w.n; k += 3) i.push_back (k);
            radius_search::radius_search_all_neighbors (w.p, i, 1.5, noop, 20); }, 1.5},
        {"utils crop", O::LINEAR, [] (world &w) {
            auto e = extent::get_extent (w.p);
            e.maxp.x = (e.minp.x + e.maxp.x) / 2;
            sink = utils::crop (w.p, e).size (); }},
        {"point encoding", O::LINEAR, [] (world &w) { sink = point::decode_points<double> (point::encode_points (w.p)).size (); }},
        {"hashed set of points", O::LINEAR, [] (world &w) {
            std::unordered_set<point::point<double>, point::point_hash<double>> s (w.p.begin (), w.p.end ());
            sink = s.size (); }},
        {"hashed set of records", O::LINEAR, [] (world &w) {
            std::unordered_set<record, point_record::point_record_hash> s (w.q.begin (), w.q.end ());
            sink = s.size (); }},
        {"read uncompressed", O::LINEAR, [] (world &w) { std::istringstream s (w.u); sink = io::read_spoc_file (s).get_point_records ().size (); }},
        {"read compressed", O::LINEAR, [] (world &w) { std::istringstream s (w.c); sink = io::read_spoc_file (s).get_point_records ().size (); }},
        {"write uncompressed", O::LINEAR, [] (world &w) { std::ostringstream s; w.f->set_compressed (false); io::write_spoc_file (s, *w.f); sink = s.str ().size (); }},
        {"write compressed", O::LINEAR, [] (world &w) { std::ostringstream s; w.f->set_compressed (true); io::write_spoc_file (s, *w.f); sink = s.str ().size (); }},
        {"read header", O::CONSTANT, [] (world &w) { sink = header::read_header (*w.head).total_points; }},
        {"stream records", O::LINEAR, [] (world &w) {
            std::istringstream s (w.u);
            std::ostringstream o;
            const auto h = header::read_header (s);
            header::write_header (o, h);
            for (size_t k = 0; k < h.total_points; ++k)
                point_record::write_point_record (o, point_record::read_point_record (s, h.extra_fields)); }},
        {"compress in memory", O::LINEAR, [] (world &w) { sink = compression::compress (w.bytes, 1).size (); }},
        {"decompress in memory", O::LINEAR, [] (world &w) { sink = compression::decompress (w.packed).size (); }},
        {"compress streams", O::LINEAR, [] (world &w) { std::istringstream i (w.u); std::ostringstream o; compression::compress (i, o, 1); }},
        {"decompress streams", O::LINEAR, [] (world &w) {
            std::istringstream i (std::string (w.packed.begin (), w.packed.end ()));
            std::ostringstream o;
            compression::decompress (i, o); }},
        {"spoc_file construction and copies", O::LINEAR, [] (world &w) {
            sfile a ("WKT", true, w.q), b (a), c;
            c = b;
            sink = c.get_point_records ().size (); }},
        {"spoc_file::push_back of all", O::LINEAR, [] (world &w) { sfile a; for (const auto &r : w.q) a.push_back (r); sink = a.get_point_records ().size (); }},
        {"spoc_file::set_point_record of all", O::LINEAR, [] (world &w) {
            for (size_t k = 0; k < w.n; ++k) { auto r = w.f->get_point_record (k); r.c ^= 1; w.f->set_point_record (k, r); } }},
        {"spoc_file::set_point_records", O::LINEAR, [] (world &w) { w.f->set_point_records (w.q); }},
        {"spoc_file::resize_extra_fields", O::LINEAR, [] (world &w) { w.f->resize_extra_fields (w.ne + 2); w.f->resize_extra_fields (w.ne); }},
        {"spoc_file getters of columns", O::LINEAR, [] (world &w) {
            const auto &f = *w.f;
            sink = f.get_x ().size () + f.get_y ().size () + f.get_z ().size () + f.get_c ().size () + f.get_p ().size () + f.get_i ().size ()
                + f.get_r ().size () + f.get_g ().size () + f.get_b ().size ();
            for (size_t k = 0; k < w.ne; ++k) sink = f.get_extra (k).size (); }},
        {"headers and properties for all", O::LINEAR, [] (world &w) {
            for (size_t k = 0; k < w.n; ++k)
                sink = w.f->get_header ().total_points + w.f->get_extra_fields () + w.f->get_wkt ().size () + w.f->get_compressed (); }},
        {"comparison of equal files", O::LINEAR, [] (world &w) { sink = w.f->get_point_records () == w.g->get_point_records (); }},
        {"affine::*", O::LINEAR, [] (world &w) {
            affine::add_x (w.p, 1); affine::add_y (w.p, 1); affine::add_z (w.p, 1); affine::add (w.p, {1, 2, 3});
            affine::rotate_x (w.p, 3); affine::rotate_y (w.p, 3); affine::rotate_z (w.p, 3);
            affine::scale_x (w.p, 2); affine::scale_y (w.p, 2); affine::scale_z (w.p, 2); }},
        {"utils::quantize", O::LINEAR, [] (world &w) { utils::quantize (w.q, .1); }},
        {"flags and wkt", O::CONSTANT, [] (world &w) { w.f->set_compressed (true); w.f->set_wkt ("OTHER"); sink = w.f->get_header ().total_points; }},
        {"spoc_file::swap", O::CONSTANT, [] (world &w) { w.f->swap (*w.g); }},
        {"spoc_file::move_point_records", O::LINEAR, [] (world &w) { w.f->move_point_records (w.q); }},
    };
    return L;
}

int main (int argc, char **argv)
{
    const auto o = parse (argc, argv);
    const size_t n = o.get ("n", 800), k = o.get ("k", 16);
    const bool show = o.get ("show", 0);
    const auto L = operations ();
    std::ostringstream warm;
    warm << 1.5;
    size_t item = 0;
    for (const auto &d : DIST)
        for (int ints = 0; ints < 5; ++ints)
        {
            if (item++ % o.shards != o.shard)
                continue;
            const size_t ne = (item + o.seed) % 3;
            auto a = make (o.seed, d, ints, n, ne), b = make (o.seed, d, ints, n * k, ne);
            for (const auto &op : L) // those that change something come last
            {
                if (op.radius > 0 && (!sparse (d) || ints > 1))
                    continue;
                at (cat (op.name, " on ", d));
                const auto x = measure (op, a), y = measure (op, b);
                const auto text = cat (op.name, " on \"", d, "\" points (values ", ints, ", ", ne, " extra fields): ", n, " points: work ", x.work, ", peak ",
                    x.peak, " bytes; ", n * k, " points: work ", y.work, " (x ", double (y.work) / (x.work + 1), "), peak ", y.peak, " (x ", double (y.peak) / (x.peak + 1), ")");
                if (show) printf ("SHOW %.1f %.1f %s\n", double (y.work) / (x.work + 1), double (y.peak) / (x.peak + 1), text.c_str ());
                evaluated (cat (op.name, d, ints));
                count ("pairs_of_operations");
                sample (text);
                if (op.kind == operation::CONSTANT)
                {
                    if (y.work > x.work + 500)
                        violation ("constant", text + ": depends on the number of points");
                    continue;
                }
                const double grow = op.radius > 0 ? candidates (b.p, op.radius) / candidates (a.p, op.radius) : double (k);
                if (y.work > x.work * grow * (op.radius > 0 ? 3 : 1.6) + 5000)
                    violation ("work", text);
                if (y.peak > x.peak * k * 1.6 + 100000)
                    violation ("memory", text);
            }
        }
    done ();
}
