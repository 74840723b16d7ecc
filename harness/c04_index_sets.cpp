// C04: index selections, partitions and block decompositions.
// Oracle: plain nested loops over std::vector<long> index tuples.
#include "vp.hpp"
#include <array>
#include <algorithm>
#include <numeric>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"

template<std::size_t R> using tup = std::array<std::size_t, R>;

// every index of the selection in row-major order, by brute force
template<std::size_t R>
static std::vector<tup<R>> members(const tup<R>& start, const tup<R>& final, const tup<R>& jumps)
{
    std::vector<tup<R>> out { tup<R>{} };
    for (std::size_t a = 0; a < R; ++a)
    {
        std::vector<tup<R>> next;
        for (auto& t : out)
            for (std::size_t i = start[a]; i < final[a]; i += jumps[a]) { auto u = t; u[a] = i; next.push_back(u); }
        out = next;
    }
    return out;
}

template<std::size_t R> static nd::index_t<R> idx(const tup<R>& t) { nd::index_t<R> r; for (std::size_t a = 0; a < R; ++a) r[a] = t[a]; return r; }
template<std::size_t R> static tup<R> tupof(const nd::index_t<R>& t) { tup<R> r; for (std::size_t a = 0; a < R; ++a) r[a] = t[a]; return r; }
template<std::size_t R> static std::string str(const tup<R>& t) { std::string s = "("; for (auto x : t) s += std::to_string(x) + ","; return s + ")"; }

template<std::size_t R>
static void selection_case(vp::rng_t& rng)
{
    tup<R> shape, start, final, jumps;
    long cap = R == 1 ? 40 : R == 2 ? 12 : R == 3 ? 7 : 5;
    for (std::size_t a = 0; a < R; ++a)
    {
        shape[a] = rng.chance(0.1) ? rng.range(0, 1) : rng.range(1, cap);
        start[a] = rng.chance(0.3) ? 0 : rng.range(0, shape[a]);
        final[a] = rng.chance(0.3) ? shape[a] : rng.range(start[a], shape[a]);
        if (rng.chance(0.06)) final[a] = start[a];
        jumps[a] = rng.chance(0.5) ? 1 : rng.range(1, 5);
    }
    vp::context("shape=" + str<R>(shape) + " start=" + str<R>(start) + " final=" + str<R>(final) + " jumps=" + str<R>(jumps));
    auto ref = members<R>(start, final, jumps);
    nd::access_pattern_t<R> p;
    nd::jumps_t<R> J;
    for (std::size_t a = 0; a < R; ++a) J[a] = jumps[a];
    nd::shape_t<R> S;
    for (std::size_t a = 0; a < R; ++a) S[a] = shape[a];
    p = p.with_start(idx<R>(start)).with_final(idx<R>(final)).with_jumps(J);

    tup<R> want_shape;
    for (std::size_t a = 0; a < R; ++a) { want_shape[a] = 0; for (std::size_t i = start[a]; i < final[a]; i += jumps[a]) want_shape[a]++; }

    for (std::size_t a = 0; a < R; ++a)
        VP_CHECK(p.shape()[a] == want_shape[a], "selection-shape", "axis %zu: shape %zu want %zu", a, p.shape()[a], want_shape[a]);
    VP_CHECK(p.size() == ref.size(), "selection-size", "size %zu want %zu", p.size(), ref.size());
    VP_CHECK(p.empty() == ref.empty(), "selection-empty", "empty %d, %zu members", int(p.empty()), ref.size());

    // iteration: exactly the members, in order. Bounded, so a runaway iteration is reported, not suffered.
    std::size_t n = 0;
    bool runaway = false, mismatch = false;
    for (auto i : p)
    {
        if (n >= ref.size()) { runaway = true; break; }
        if (tupof<R>(i) != ref[n]) { mismatch = true; }
        ++n;
    }
    VP_CHECK(! runaway, "iteration-extra", "iteration yields more than the %zu members", ref.size());
    VP_CHECK(! mismatch, "iteration-order", "iteration is not the row-major member list");
    VP_CHECK(n == ref.size(), "iteration-count", "visited %zu of %zu", n, ref.size());
    vp::observe("index-visited", n);
    if (ref.empty()) vp::observe("empty-selection");

    // advance() by hand
    if (! ref.empty())
    {
        auto cur = idx<R>(start);
        std::size_t steps = 1;
        while (p.advance(cur) && steps <= ref.size()) { if (! VP_CHECK(tupof<R>(cur) == ref[steps], "advance", "advance step %zu", steps)) break; ++steps; }
        VP_CHECK(steps == ref.size(), "advance-count", "advance visited %zu of %zu", steps, ref.size());
    }

    // membership, forward and inverse maps
    std::set<tup<R>> in(ref.begin(), ref.end());
    tup<R> one; one.fill(1); tup<R> zero; zero.fill(0);
    tup<R> hi; for (std::size_t a = 0; a < R; ++a) hi[a] = shape[a] + 2;
    for (auto& t : members<R>(zero, hi, one))
    {
        bool g = p.generates(idx<R>(t));
        if (! VP_CHECK(g == bool(in.count(t)), "generates", "generates%s = %d", str<R>(t).c_str(), int(g))) break;
        bool c = true;
        for (std::size_t a = 0; a < R; ++a) c = c && t[a] < want_shape[a];
        if (! VP_CHECK(p.contains(idx<R>(t)) == c, "contains", "contains%s", str<R>(t).c_str())) break;
    }
    std::size_t k = 0;
    for (auto& t : members<R>(zero, want_shape, one))
    {
        auto m = p.map_index(idx<R>(t));
        if (! VP_CHECK(k < ref.size() && tupof<R>(m) == ref[k], "map-index", "map_index%s", str<R>(t).c_str())) break;
        if (! VP_CHECK(tupof<R>(p.inverse_map_index(m)) == t, "inverse-map", "inverse_map_index of image of %s", str<R>(t).c_str())) break;
        if (! VP_CHECK(p.generates(m), "map-generates", "image not generated")) break;
        ++k;
    }

    // within(): exactly when every generated index lies in the given shape
    for (int q = 0; q < 6; ++q)
    {
        tup<R> ps; nd::shape_t<R> P;
        for (std::size_t a = 0; a < R; ++a)
        {
            long lo = q == 0 ? long(shape[a]) : std::max(0L, long(final[a]) - 3), h = q == 0 ? long(shape[a]) : long(final[a]) + 1;
            ps[a] = rng.range(lo, h); P[a] = ps[a];
        }
        if (ref.empty()) continue; // an empty selection generates nothing: either answer
        bool all = true;
        for (auto& t : ref) for (std::size_t a = 0; a < R; ++a) all = all && t[a] < ps[a];
        VP_CHECK(p.within(P) == all, "within", "within%s = %d, but all generated indexes contained = %d", str<R>(ps).c_str(), int(p.within(P)), int(all));
    }

    // equality
    auto p2 = p;
    VP_CHECK(p2 == p && ! (p2 != p), "pattern-equality", "copy compares unequal");
    p2.final[rng.range(0, R - 1)] += 1;
    VP_CHECK(p2 != p && ! (p2 == p), "pattern-equality", "changed copy compares equal");

    // flat offsets: row-major enumeration of the whole shape
    auto strides = nd::make_strides_row_major(S);
    std::size_t off = 0;
    for (auto& t : members<R>(zero, shape, one))
    {
        if (! VP_CHECK(strides.compute_offset(idx<R>(t)) == off, "offset", "offset of %s is %zu, want %zu", str<R>(t).c_str(), strides.compute_offset(idx<R>(t)), off)) break;
        if (! VP_CHECK(S.contains(idx<R>(t)), "shape-contains", "shape does not contain %s", str<R>(t).c_str())) break;
        ++off;
    }
    VP_CHECK(S.volume() == off, "volume", "volume %zu want %zu", S.volume(), off);
    auto out = shape; out[rng.range(0, R - 1)] = shape[0] + shape[R - 1] + 50;
    VP_CHECK(! S.contains(idx<R>(out)), "shape-contains", "shape contains %s", str<R>(out).c_str());

    if (! ref.empty()) vp::signature(str<R>(shape) + str<R>(start) + str<R>(final) + str<R>(jumps));
}

VP_SECTION("selection-1d", 6000, 200000) { selection_case<1>(rng); }
VP_SECTION("selection-2d", 5000, 120000) { selection_case<2>(rng); }
VP_SECTION("selection-3d", 2500, 60000)  { selection_case<3>(rng); }
VP_SECTION("selection-4d", 1000, 20000)   { selection_case<4>(rng); }

// ---------------------------------------------------------------------------
// partition of a shape on its first axis
template<std::size_t N, std::size_t R>
static void partition_case(vp::rng_t& rng)
{
    nd::shape_t<R> S; tup<R> s;
    for (std::size_t a = 0; a < R; ++a) S[a] = s[a] = (a == 0 ? rng.range(0, 40) : rng.range(1, 4));
    vp::context(vp::fmt("N=%zu shape=", N) + str<R>(s));
    std::vector<int> hits(S.volume(), 0);
    auto strides = nd::make_strides_row_major(S);
    auto parts = nd::partition_shape<N>(S);
    std::size_t lo = ~std::size_t(0), hi = 0, count = 0, total = 0, last_end = 0;
    for (auto& p : parts)
    {
        ++count;
        auto rows = p.final[0] - p.start[0];
        VP_CHECK(p.start[0] == last_end, "partition-order", "part %zu starts at %zu, previous ended at %zu", count, p.start[0], last_end);
        last_end = p.final[0];
        lo = std::min(lo, rows); hi = std::max(hi, rows);
        std::size_t visited = 0;
        for (auto i : p)
        {
            if (++visited > S.volume()) { VP_CHECK(false, "partition-runaway", "part %zu iterates past its end", count); break; }
            if (! VP_CHECK(S.contains(i), "partition-bounds", "index outside shape")) break;
            hits[strides.compute_offset(i)]++;
        }
        total += p.size();
    }
    VP_CHECK(count == N, "partition-count", "%zu parts, want %zu", count, N);
    VP_CHECK(total == S.volume(), "partition-total", "parts have %zu elements, shape has %zu", total, S.volume());
    for (std::size_t k = 0; k < hits.size(); ++k) if (! VP_CHECK(hits[k] == 1, "partition-cover", "element %zu covered %d times", k, hits[k])) break;
    VP_CHECK(S[0] == 0 || hi - lo <= 1, "partition-balance", "rows per part range from %zu to %zu", lo, hi);
    vp::observe("partition", N);
    if (S[0] < N) vp::observe("fewer-rows-than-parts");
    vp::signature(vp::fmt("part N=%zu ", N) + str<R>(s));
}

VP_SECTION("partition", 1500, 30000)
{
    partition_case<1, 1>(rng); partition_case<2, 1>(rng); partition_case<3, 2>(rng); partition_case<4, 2>(rng);
    partition_case<7, 2>(rng); partition_case<8, 3>(rng); partition_case<12, 2>(rng); partition_case<13, 3>(rng); partition_case<16, 1>(rng);
}

// ---------------------------------------------------------------------------
VP_SECTION("divvy", 3000, 60000)
{
    long n = rng.chance(0.1) ? rng.range(0, 3) : rng.range(0, 60), g = rng.range(1, 24);
    vp::context(vp::fmt("size=%ld groups=%ld", n, g));
    std::vector<double> src; for (long i = 0; i < n; ++i) src.push_back(rng.range(-1000, 1000));
    auto groups = nd::make_array_from(src) | nd::divvy(g);
    VP_CHECK(groups.size() == std::size_t(g), "divvy-count", "%zu groups", groups.size());
    std::vector<double> cat; std::size_t lo = 1000000, hi = 0, ng = 0;
    for (auto group : groups)
    {
        ++ng;
        std::size_t m = 0;
        for (auto x : group) { cat.push_back(x); if (++m > src.size()) break; }
        VP_CHECK(m == group.size(), "divvy-group-size", "group iterates %zu of %zu", m, group.size());
        lo = std::min(lo, m); hi = std::max(hi, m);
    }
    VP_CHECK(ng == std::size_t(g), "divvy-count", "%zu groups iterated", ng);
    VP_CHECK(cat == src, "divvy-cover", "groups do not concatenate to the original (%zu of %zu)", cat.size(), src.size());
    VP_CHECK(hi - lo <= 1, "divvy-balance", "group sizes %zu..%zu", lo, hi);
    vp::observe("divvy-group", ng);
    vp::signature(vp::fmt("divvy %ld/%ld", n, g));
}

// ---------------------------------------------------------------------------
template<std::size_t R>
static void blocks_case(vp::rng_t& rng)
{
    nd::shape_t<R> G, B; tup<R> g, b;
    for (std::size_t a = 0; a < R; ++a) { G[a] = g[a] = rng.range(1, R == 1 ? 40 : R == 2 ? 14 : 8); B[a] = b[a] = rng.range(1, G[a]); }
    vp::context("global=" + str<R>(g) + " blocks=" + str<R>(b));
    auto blocks = mara::create_access_pattern_array(G, B);
    VP_CHECK(blocks.shape() == B, "block-array-shape", "wrong block array shape");
    std::vector<int> hits(G.volume(), 0);
    auto strides = nd::make_strides_row_major(G);
    for (std::size_t a = 0; a < R; ++a)
    {
        // balance on each axis
        std::size_t lo = 1000000, hi = 0;
        for (auto i : blocks.indexes()) { auto p = blocks(i); auto m = p.final[a] - p.start[a]; lo = std::min(lo, m); hi = std::max(hi, m); }
        VP_CHECK(hi - lo <= 1, "block-balance", "axis %zu block extents %zu..%zu", a, lo, hi);
    }
    std::size_t nb = 0;
    for (auto i : blocks.indexes())
    {
        auto p = blocks(i);
        ++nb;
        for (auto j : p) { if (! VP_CHECK(G.contains(j), "block-bounds", "block index outside the domain")) break; hits[strides.compute_offset(j)]++; }
        for (std::size_t a = 0; a < R; ++a) if (i[a] + 1 < B[a]) { auto q = blocks(i.next_on(a)); VP_CHECK(q.start[a] == p.final[a], "block-order", "neighbouring blocks not adjacent on axis %zu", a); }
    }
    VP_CHECK(nb == B.volume(), "block-count", "%zu blocks", nb);
    for (std::size_t k = 0; k < hits.size(); ++k) if (! VP_CHECK(hits[k] == 1, "block-cover", "zone %zu covered %d times", k, hits[k])) break;
    // outside the block array: rejected
    auto bad = nd::make_uniform_index<R>(0); auto ax = rng.range(0, R - 1); bad[ax] = B[ax] + rng.range(0, 2);
    VP_CHECK(vp::throws([&] { blocks(bad); }), "block-range", "block index beyond the block array accepted");
    // more blocks than zones on an axis: rejected
    auto B2 = B; B2[ax] = G[ax] + rng.range(1, 3);
    VP_CHECK(vp::throws_as<std::logic_error>([&] { mara::create_access_pattern_array(G, B2); }), "block-too-many", "more blocks than zones accepted");
    vp::observe("block", nb);
    vp::signature("blocks " + str<R>(g) + str<R>(b));
}
VP_SECTION("blocks", 1500, 30000) { blocks_case<1>(rng); blocks_case<2>(rng); blocks_case<3>(rng); }

VP_SECTION("decomposition", 3000, 60000)
{
    long n = index + 1;
    auto d1 = mara::propose_block_decomposition<1>(n);
    auto d2 = mara::propose_block_decomposition<2>(n);
    auto d3 = mara::propose_block_decomposition<3>(n);
    VP_CHECK(d1[0] == std::size_t(n), "decomposition-product", "1d of %ld gives %zu", n, d1[0]);
    VP_CHECK(d2[0] * d2[1] == std::size_t(n), "decomposition-product", "2d of %ld gives %zu x %zu", n, d2[0], d2[1]);
    VP_CHECK(d3[0] * d3[1] * d3[2] == std::size_t(n), "decomposition-product", "3d of %ld gives %zu x %zu x %zu", n, d3[0], d3[1], d3[2]);
    // "sizes on each axis as similar as possible": a prime to the power of the rank is cut evenly
    auto prime = [] (long p) { for (long q = 2; q * q <= p; ++q) if (p % q == 0) return false; return p > 1; };
    if (prime(n) && n < 20000) { auto e2 = mara::propose_block_decomposition<2>(n * n); VP_CHECK(e2[0] == std::size_t(n) && e2[1] == std::size_t(n), "decomposition-even", "2d of %ld^2 gives %zu x %zu", n, e2[0], e2[1]); vp::observe("even-decomposition"); }
    if (prime(n) && n < 1200) { auto e3 = mara::propose_block_decomposition<3>(n * n * n); VP_CHECK(e3[0] == std::size_t(n) && e3[1] == std::size_t(n) && e3[2] == std::size_t(n), "decomposition-even", "3d of %ld^3 gives %zu x %zu x %zu", n, e3[0], e3[1], e3[2]); }
    // many subdomains
    long big = rng.chance(0.5) ? rng.range(1, 2000000000) : rng.range(3000, 200000);
    auto b1 = mara::propose_block_decomposition<1>(big); auto b2 = mara::propose_block_decomposition<2>(big); auto b3 = mara::propose_block_decomposition<3>(big);
    VP_CHECK(b1[0] == std::size_t(big) && b2[0] * b2[1] == std::size_t(big) && b3[0] * b3[1] * b3[2] == std::size_t(big), "decomposition-product", "%ld gives %zu, %zu x %zu, %zu x %zu x %zu", big, b1[0], b2[0], b2[1], b3[0], b3[1], b3[2]);
    vp::observe("decomposition");
    vp::signature(vp::fmt("decompose %ld", n));
}

// large shapes: sizes beyond 32 bits are counted exactly
VP_SECTION("large", 1000, 20000)
{
    std::size_t a = rng.range(1, 1 << 20), b = rng.range(1, 1 << 20), c = rng.range(1, 1 << 10);
    vp::context(vp::fmt("%zu x %zu x %zu", a, b, c));
    VP_CHECK(nd::make_shape(a, b, c).volume() == a * b * c, "volume-large", "volume %zu want %zu", nd::make_shape(a, b, c).volume(), a * b * c);
    VP_CHECK(nd::make_access_pattern(a, b, c).size() == a * b * c, "volume-large", "access pattern size");
    VP_CHECK(nd::make_strides_row_major(nd::make_shape(a, b, c)).compute_offset(a - 1, b - 1, c - 1) == a * b * c - 1, "offset-large", "offset of the last element");
    vp::observe("large-shape");
    vp::signature(vp::fmt("large %zu %zu %zu", a, b, c));
}

// index and shape algebra used by freezing, collecting and neighbour lookups
VP_SECTION("index-algebra", 3000, 60000)
{
    tup<4> v; for (auto& x : v) x = rng.range(0, 30);
    auto I = idx<4>(v);
    auto S = nd::make_shape(v[0], v[1], v[2], v[3]);
    std::size_t a = rng.range(0, 3), b = (a + rng.range(1, 3)) % 4;
    if (a > b) std::swap(a, b);
    vp::context(vp::fmt("axes %zu %zu of ", a, b) + str<4>(v));
    std::vector<std::size_t> rest;
    for (std::size_t n = 0; n < 4; ++n) if (n != a && n != b) rest.push_back(v[n]);
    auto ri = I.remove_elements(nd::make_index(a, b));
    auto rs = S.remove_elements(nd::make_index(a, b));
    VP_CHECK(ri[0] == rest[0] && ri[1] == rest[1], "remove-elements", "index");
    VP_CHECK(rs[0] == rest[0] && rs[1] == rest[1], "remove-elements", "shape");
    VP_CHECK(ri.insert_elements(nd::make_index(a, b), nd::make_index(v[a], v[b])) == I, "insert-elements", "removing then inserting does not restore the index");
    VP_CHECK(rs.insert_elements(nd::make_index(a, b), nd::make_index(v[a], v[b])) == S, "insert-elements", "removing then inserting does not restore the shape");
    auto n1 = I.next_on(a); auto w = v; w[a]++;
    VP_CHECK(tupof<4>(n1) == w, "next-on", "next_on");
    VP_CHECK(n1.prev_on(a) == I, "prev-on", "prev_on does not undo next_on");
    VP_CHECK(vp::throws_as<std::invalid_argument>([&] { I.next_on(4 + rng.range(0, 3)); }), "next-on-axis", "axis beyond the rank accepted");
    VP_CHECK(vp::throws_as<std::invalid_argument>([&] { I.prev_on(4 + rng.range(0, 3)); }), "next-on-axis", "axis beyond the rank accepted");
    tup<4> u = v; for (auto& x : u) x += rng.range(-1, 1) + 1; u[b] = v[b] + rng.range(0, 1);
    auto J = idx<4>(u);
    bool lt = true, le = true, gt = true, ge = true, eq = true;
    for (int n = 0; n < 4; ++n) { lt &= v[n] < u[n]; le &= v[n] <= u[n]; gt &= v[n] > u[n]; ge &= v[n] >= u[n]; eq &= v[n] == u[n]; }
    VP_CHECK((I < J) == lt && (I <= J) == le && (I > J) == gt && (I >= J) == ge && (I == J) == eq && (I != J) == ! eq, "index-order", "component-wise comparison with %s", str<4>(u).c_str());
    VP_CHECK(I.as_tuple() == std::make_tuple(v[0], v[1], v[2], v[3]), "as-tuple", "as_tuple");
    auto L = S.last_index();
    VP_CHECK(tupof<4>(L) == v, "last-index", "last_index");
    VP_CHECK(vp::throws([&] { nd::index_t<3>::from_range(I); }), "from-range", "range of the wrong length accepted");
    VP_CHECK(nd::index_t<4>::from_range(S) == I, "from-range", "from_range");
    vp::observe("index-algebra");
    vp::signature(vp::fmt("%zu %zu", a, b) + str<4>(v));
}

VP_MAIN()
