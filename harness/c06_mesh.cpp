// C06: adaptive meshes and block data against brute force on leaf positions.
#include "vp.hpp"
#include <algorithm>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_sequence.hpp"
#include "core_tree.hpp"
#include "mesh_tree_operators.hpp"

struct pos_t { int l = 0; long x = 0, y = 0; bool operator<(const pos_t& o) const { return std::tie(l, x, y) < std::tie(o.l, o.x, o.y); } bool operator==(const pos_t& o) const { return l == o.l && x == o.x && y == o.y; } };
static pos_t up(pos_t p) { return {p.l - 1, p.x >> 1, p.y >> 1}; }
static pos_t down(pos_t p, int i) { return {p.l + 1, 2 * p.x + (i & 1), 2 * p.y + (i >> 1)}; }
static mara::tree_index_t<2> ix(pos_t p) { mara::tree_index_t<2> i; i.level = p.l; i.coordinates[0] = p.x; i.coordinates[1] = p.y; return i; }
static pos_t ps(const mara::tree_index_t<2>& i) { return {int(i.level), long(i.coordinates[0]), long(i.coordinates[1])}; }
static std::string show(pos_t p) { return vp::fmt("%d:%ld,%ld", p.l, p.x, p.y); }
typedef std::set<pos_t> leaves_t;

static bool is_node(const leaves_t& s, pos_t p) { for (auto& q : s) if (q.l >= p.l && (q.x >> (q.l - p.l)) == p.x && (q.y >> (q.l - p.l)) == p.y) return true; return false; }
static int depth_below(const leaves_t& s, pos_t p) { int d = 0; for (auto& q : s) if (q.l >= p.l && (q.x >> (q.l - p.l)) == p.x && (q.y >> (q.l - p.l)) == p.y) d = std::max(d, q.l - p.l); return d; }
static pos_t side(pos_t p, int k) { long w = 1l << p.l; switch (k) { case 0: p.x = (p.x + 1) % w; break; case 1: p.x = (p.x + w - 1) % w; break; case 2: p.y = (p.y + 1) % w; break; case 3: p.y = (p.y + w - 1) % w; break; } return p; }
static bool over(const leaves_t& s, pos_t p) { for (int k = 0; k < 4; ++k) if (is_node(s, side(p, k)) && depth_below(s, side(p, k)) > 1) return true; return false; }
static leaves_t balanced(leaves_t s) { while (true) { leaves_t n; bool changed = false; for (auto& p : s) if (over(s, p)) { for (int i = 0; i < 4; ++i) n.insert(down(p, i)); changed = true; } else n.insert(p); s = n; if (! changed) return s; } }
static leaves_t leaves_of(const mara::amr_types::vertex_2d_tree_t& t) { leaves_t s; t.indexes().sink([&] (auto i) { s.insert(ps(i)); }); return s; }
// geometric: two leaves that share (part of) an edge, with periodic wrap-around
static bool adjacent(pos_t a, pos_t b)
{
    const long M = 1l << 20; auto lo = [M] (long c, int l) { return c * (M >> l); }; auto touch = [M] (long a0, long a1, long b0, long b1) { return (a1 % M) == (b0 % M) || (b1 % M) == (a0 % M); }; auto overlap = [] (long a0, long a1, long b0, long b1) { return std::max(a0, b0) < std::min(a1, b1); };
    long ax0 = lo(a.x, a.l), ax1 = lo(a.x + 1, a.l), ay0 = lo(a.y, a.l), ay1 = lo(a.y + 1, a.l), bx0 = lo(b.x, b.l), bx1 = lo(b.x + 1, b.l), by0 = lo(b.y, b.l), by1 = lo(b.y + 1, b.l);
    return (touch(ax0, ax1, bx0, bx1) && overlap(ay0, ay1, by0, by1)) || (touch(ay0, ay1, by0, by1) && overlap(ax0, ax1, bx0, bx1));
}
struct mesh_t { mara::amr_types::vertex_2d_tree_t tree; leaves_t leaves; std::size_t nx, ny; std::string name; };

static mesh_t make_mesh(vp::rng_t& rng, bool examine)
{
    mesh_t m; int depth = rng.chance(0.05) ? 0 : rng.range(1, rng.chance(0.3) ? 5 : 4); if (rng.chance(0.5)) depth = std::max(depth, 3); m.nx = rng.range(1, 5); m.ny = rng.chance(0.5) ? m.nx : rng.range(1, 5); if (rng.chance(0.3)) { m.nx *= 2; m.ny *= 2; }
    int kind = rng.chance(0.1) ? 3 : rng.range(0, 2); double p1 = rng.uniform(0.0, 1.5), p2 = rng.uniform(0.0, 1.5); std::uint64_t salt = rng.next();
    auto level_at = [=] (double r) -> int { if (r < 1e-9) return p2 < 0.1 ? 0 : 9; if (kind < 3 && std::fabs(r - std::sqrt(0.5)) < 1e-9) return p2 < 0.4 ? 1 : 9; switch (kind) { case 0: return int((0.3 + p1) / (r + 0.05) * 1.5); case 1: return r > p1 && r < p1 + p2 * 0.5 ? 9 : int(vp::mix(salt + std::uint64_t(r * 40)) % 2); case 2: return int(vp::mix(salt + std::uint64_t(std::llround(r * 1e6))) % 6); default: return depth; } };
    std::function<bool(std::size_t, double)> rule = [level_at] (std::size_t l, double r) { return int(l) < level_at(r); };
    m.name = vp::fmt("depth=%d %zux%zu rule %d %.3f %.3f %llx", depth, m.nx, m.ny, kind, p1, p2, (unsigned long long) (kind == 1 || kind == 2 ? salt : 0)); vp::context(m.name);
    m.tree = m.nx == m.ny && rng.chance(0.5) ? mara::create_vertex_quadtree(rule, m.nx, depth) : mara::create_vertex_quadtree(rule, m.nx, m.ny, depth); m.leaves = leaves_of(m.tree);
    if (! examine) return m;
    leaves_t base; std::function<void(pos_t)> grow = [&] (pos_t p) { double w = 2.0 / (1l << p.l), cx = -1 + (p.x + 0.5) * w, cy = -1 + (p.y + 0.5) * w, r = std::sqrt(cx * cx + cy * cy); if (p.l < depth && rule(p.l, r)) for (int i = 0; i < 4; ++i) grow(down(p, i)); else base.insert(p); };
    bool sharp = kind >= 1 && kind <= 2; (void) sharp; grow({});
    auto want = balanced(base); VP_CHECK(m.leaves == want, "mesh-structure", "%zu leaves, the rule and balance ask for %zu", m.leaves.size(), want.size());
    for (auto& p : m.leaves) { VP_CHECK(p.l <= depth, "too-deep", "leaf %s below the maximum depth %d", show(p).c_str(), depth); for (auto& q : m.leaves) if (std::abs(p.l - q.l) > 1 && adjacent(p, q)) { VP_CHECK(false, "unbalanced", "adjacent leaves %s and %s", show(p).c_str(), show(q).c_str()); } vp::observe("adjacency", m.leaves.size()); }
    double area = 0; for (auto& p : m.leaves) { area += std::pow(0.25, p.l); auto q = p; while (q.l > 0) { q = up(q); VP_CHECK(! m.leaves.count(q), "tiling", "leaf %s lies inside leaf %s", show(p).c_str(), show(q).c_str()); } } VP_CHECK(area == 1.0, "tiling", "leaves cover %.17g of the domain", area);
    m.tree.pair_indexes().sink([&] (auto iv) { auto p = ps(iv.first); auto v = iv.second; if (! VP_CHECK(v.shape(0) == m.nx + 1 && v.shape(1) == m.ny + 1, "block-shape", "%s: %zu x %zu", show(p).c_str(), v.shape(0), v.shape(1))) return; double w = 2.0 / (1l << p.l); double err = 0; for (std::size_t i = 0; i <= m.nx; ++i) for (std::size_t j = 0; j <= m.ny; ++j) { double x = -1 + (p.x + double(i) / m.nx) * w, y = -1 + (p.y + double(j) / m.ny) * w; err = std::max({err, std::fabs(v(i, j)[0].value - x), std::fabs(v(i, j)[1].value - y)}); } VP_CHECK(err < 1e-13, "vertex-position", "%s: off by %.3g", show(p).c_str(), err); vp::observe("block"); });
    vp::signature(m.name); vp::observe(m.leaves.size() > 1 ? "mesh-refined" : "mesh-single"); if (want != base) vp::observe("mesh-balanced"); std::set<int> lv; for (auto& p : m.leaves) lv.insert(p.l); if (lv.size() > 1) vp::observe("mesh-mixed-levels"); vp::observe(vp::fmt("mesh-levels:%zu", lv.size())); return m;
}
VP_SECTION("meshes", 250, 8000) { make_mesh(rng, true); }

// balancing arbitrary (also badly unbalanced) vertex trees
VP_SECTION("balance", 150, 5000)
{
    std::size_t n = rng.range(1, 3); auto x = nd::linspace(-1, 1, n + 1); auto tree = mara::tree_of<2>(nd::cartesian_product(x, x) | nd::apply([] (auto a, auto b) { return mara::amr_types::vertex_2d_t {a, b}; }) | nd::to_shared());
    int passes = rng.range(1, 6); std::string name = vp::fmt("n=%zu ", n);
    for (int q = 0; q < passes; ++q)
    {
        auto s = leaves_of(tree); std::vector<pos_t> v(s.begin(), s.end()); pos_t target = v[rng.range(0, v.size() - 1)]; if (rng.chance(0.6)) for (auto& p : v) if (p.l > target.l) target = p; double w = 2.0 / (1l << target.l), tx = -1 + target.x * w, ty = -1 + target.y * w; if (target.l > 6) break;
        tree = tree.bifurcate_if([&] (auto b) { return std::fabs(b(0, 0)[0].value - tx) < 1e-9 && std::fabs(b(0, 0)[1].value - ty) < 1e-9 && std::fabs(b(n, n)[0].value - tx - w) < 1e-9; }, [] (auto b) { return (b | mara::refine_verts<2>()).map(nd::to_shared()); }); name += show(target) + " ";
    }
    vp::context(name); vp::signature(name); auto before = leaves_of(tree);
    auto flags = mara::over_refined_neighbors(tree); std::map<pos_t, bool> got; flags.pair_indexes().sink([&] (auto p) { got[ps(p.first)] = p.second; }); bool any = false;
    for (auto& p : before) { bool want = over(before, p); any |= want; VP_CHECK(got.count(p) && got[p] == want, "over-refined-flag", "%s flagged %d, want %d", show(p).c_str(), int(got[p]), int(want)); }
    auto fixed = mara::ensure_valid_quadtree(tree); auto after = leaves_of(fixed); VP_CHECK(after == balanced(before), "balance-structure", "%zu leaves become %zu, want %zu", before.size(), after.size(), balanced(before).size());
    for (auto& p : after) for (auto& q : after) if (std::abs(p.l - q.l) > 1 && adjacent(p, q)) VP_CHECK(false, "unbalanced", "adjacent leaves %s and %s", show(p).c_str(), show(q).c_str());
    VP_CHECK(leaves_of(tree) == before, "argument-changed", "balancing changed its argument"); VP_CHECK(! mara::over_refined_neighbors(fixed).any(), "over-refined-flag", "balanced tree still flagged"); vp::observe(any ? "unbalanced-input" : "balanced-input");
}

typedef nd::shared_array<double, 2> block_t;
typedef mara::arithmetic_binary_tree_t<block_t, 2> cells_t;
typedef std::vector<double> flat_t;
static flat_t flat(const block_t& b) { flat_t v; for (std::size_t i = 0; i < b.shape(0); ++i) for (std::size_t j = 0; j < b.shape(1); ++j) v.push_back(b(i, j)); return v; }
static block_t unflat(const flat_t& v, std::size_t nx, std::size_t ny) { auto p = nd::make_unique_array<double>(nx, ny); for (std::size_t i = 0; i < nx; ++i) for (std::size_t j = 0; j < ny; ++j) p(i, j) = v[i * ny + j]; return std::move(p).shared(); }

struct ref_cells_t
{
    std::map<pos_t, flat_t> data; std::size_t nx, ny;
    flat_t block(pos_t p) const
    {
        auto it = data.find(p); if (it != data.end()) return it->second;
        if (p.l > 0 && (it = data.find(up(p))) != data.end()) { flat_t v(nx * ny); for (std::size_t i = 0; i < nx; ++i) for (std::size_t j = 0; j < ny; ++j) v[i * ny + j] = it->second[(((p.x & 1) * nx + i) / 2) * ny + ((p.y & 1) * ny + j) / 2]; return v; }
        flat_t v(nx * ny, 0.0); for (int c = 0; c < 4; ++c) { auto f = block(down(p, c)); for (std::size_t i = 0; i < nx; ++i) for (std::size_t j = 0; j < ny; ++j) v[(((c & 1) * nx + i) / 2) * ny + ((c >> 1) * ny + j) / 2] += 0.25 * f[i * ny + j]; } return v;
    }
};
VP_SECTION("cell-blocks", 120, 5000)
{
    auto m = make_mesh(rng, false); ref_cells_t ref {{}, m.nx, m.ny}; bool uniform = rng.chance(0.15); double u = rng.uniform(-3, 3);
    for (auto& p : m.leaves) { flat_t v(m.nx * m.ny); for (auto& x : v) x = uniform ? u : rng.uniform(-2, 5); ref.data[p] = v; }
    cells_t cells = m.tree.indexes().map([&] (auto i) { return unflat(ref.data.at(ps(i)), m.nx, m.ny); }); vp::signature(m.name);
    std::set<pos_t> ask; for (auto& p : m.leaves) { ask.insert(p); for (int k = 0; k < 4; ++k) { ask.insert(side(p, k)); if (rng.chance(0.3)) ask.insert(side(side(p, k), 2 - 2 * (k / 2))); } if (p.l > 0) ask.insert(up(p)); ask.insert(down(p, rng.range(0, 3))); if (rng.chance(0.1)) { auto q = p; while (q.l > 0) { q = up(q); ask.insert(q); } } }
    for (auto& p : ask)
    {
        bool available = is_node(m.leaves, p) || (p.l > 0 && m.leaves.count(up(p))); const char* kind = m.leaves.count(p) ? "leaf" : is_node(m.leaves, p) ? "branch" : available ? "below-leaf" : "unavailable";
        block_t got; bool threw = vp::throws([&] { got = mara::get_cell_block(cells, ix(p)); });
        if (! available) { VP_CHECK(threw, "block-invented", "data at %s, which no leaf or parent covers at one level, was returned", show(p).c_str()); vp::observe("block-refused"); continue; }
        if (! VP_CHECK(! threw, std::string("block-refused/") + kind, "no data at %s (%s)", show(p).c_str(), kind)) continue;
        if (! VP_CHECK(got.shape(0) == m.nx && got.shape(1) == m.ny, "block-shape", "%s: %zu x %zu", show(p).c_str(), got.shape(0), got.shape(1))) continue;
        auto want = ref.block(p); auto have = flat(got); bool exact = m.leaves.count(p) || (p.l > 0 && m.leaves.count(up(p))) || uniform; for (std::size_t n = 0; n < want.size(); ++n) if (! VP_CHECK(exact ? have[n] == want[n] : std::fabs(have[n] - want[n]) <= 1e-13 * 8, std::string("block-value/") + kind, "%s cell %zu is %.17g, want %.17g", show(p).c_str(), n, have[n], want[n])) break;
        vp::observe(std::string("block:") + kind);
        if (m.nx > 1) { auto sel = mara::get_cell_block(cells, ix(p), [] (auto&& b) { return b | nd::select_final(1, 0) | nd::to_shared(); }); VP_CHECK(sel.shape(0) == 1 && sel.shape(1) == m.ny && sel(0, m.ny - 1) == got(m.nx - 1, m.ny - 1) && sel(0, 0) == got(m.nx - 1, 0), "block-selection", "%s", show(p).c_str()); auto sf = mara::get_cell_block(cells, ix(p), [] (auto&& b) { return b | nd::select_first(1, 1) | nd::to_shared(); }); VP_CHECK(sf.shape(1) == 1 && sf.shape(0) == m.nx && sf(m.nx - 1, 0) == got(m.nx - 1, 0), "block-selection", "%s", show(p).c_str()); }
    }
    // the whole domain coarsened to one block keeps the total
    double total = 0; for (auto& e : ref.data) for (double x : e.second) total += x * std::pow(0.25, e.first.l); if (m.leaves.size() > 1) { auto root = mara::get_cell_block(cells, mara::tree_index_t<2>()); double t = 0; for (double x : flat(root)) t += x; VP_CHECK(std::fabs(t - total) <= 1e-12 * m.nx * m.ny * 5, "total-changed", "coarsened total %.17g, want %.17g", t, total); vp::observe("total"); }
    // far-away positions are refused, not searched for ever
    { pos_t p = *m.leaves.begin(); p = down(down(down(p, 1), 2), 0); bool threw = vp::throws([&] { mara::get_cell_block(cells, ix(p)); }); VP_CHECK(threw, "block-invented", "data three levels below a leaf at %s", show(p).c_str()); p = *m.leaves.begin(); p.x += 1l << p.l; threw = vp::throws([&] { mara::get_cell_block(cells, ix(p)); }); VP_CHECK(threw, "block-invented", "data outside the domain at %s", show(p).c_str()); }
}
VP_SECTION("vertex-blocks", 80, 3000)
{
    auto m = make_mesh(rng, false); vp::signature(m.name); std::set<pos_t> ask; for (auto& p : m.leaves) { ask.insert(p); for (int k = 0; k < 4; ++k) ask.insert(side(p, k)); ask.insert(down(p, rng.range(0, 3))); auto q = p; while (q.l > 0) { q = up(q); if (rng.chance(0.3)) ask.insert(q); } }
    for (auto& p : ask)
    {
        bool available = is_node(m.leaves, p) || (p.l > 0 && m.leaves.count(up(p))); mara::amr_types::vertex_2d_shared_array_t v; bool threw = vp::throws([&] { v = mara::get_vertex_block(m.tree, ix(p)); });
        if (! available) { VP_CHECK(threw, "vertex-block-invented", "%s", show(p).c_str()); continue; } if (! VP_CHECK(! threw, "vertex-block-refused", "%s", show(p).c_str())) continue;
        double w = 2.0 / (1l << p.l), err = 0; if (! VP_CHECK(v.shape(0) == m.nx + 1 && v.shape(1) == m.ny + 1, "block-shape", "%s", show(p).c_str())) continue; for (std::size_t i = 0; i <= m.nx; ++i) for (std::size_t j = 0; j <= m.ny; ++j) err = std::max({err, std::fabs(v(i, j)[0].value - (-1 + (p.x + double(i) / m.nx) * w)), std::fabs(v(i, j)[1].value - (-1 + (p.y + double(j) / m.ny) * w))});
        VP_CHECK(err < 1e-13, "vertex-block-value", "%s: off by %.3g", show(p).c_str(), err); vp::observe("vertex-block");
    }
}

// one-level operators in 1, 2 and 3 dimensions
template<std::size_t R> nd::shared_array<double, R> random_array(vp::rng_t& rng, nd::shape_t<R> s) { auto p = nd::make_unique_array<double>(s); for (std::size_t n = 0; n < s.volume(); ++n) p.data()[n] = rng.uniform(-4, 4); return std::move(p).shared(); }
template<std::size_t R> bool equal(const nd::shared_array<double, R>& a, const nd::shared_array<double, R>& b, double tol) { if (! (a.shape() == b.shape())) return false; for (std::size_t n = 0; n < a.size(); ++n) if (! (std::fabs(a.data()[n] - b.data()[n]) <= tol)) return false; return true; }
template<std::size_t R> nd::shape_t<R> shape_of(vp::rng_t& rng, long lo, long hi) { nd::shape_t<R> s; for (std::size_t a = 0; a < R; ++a) s[a] = rng.range(lo, hi); return s; }
template<std::size_t R> double total(const nd::shared_array<double, R>& a) { double t = 0; for (std::size_t n = 0; n < a.size(); ++n) t += a.data()[n]; return t; }

template<std::size_t R> void one_level(vp::rng_t& rng)
{
    auto s = shape_of<R>(rng, 1, R == 3 ? 4 : 7); auto c = random_array<R>(rng, s); std::string name = vp::fmt("rank %d shape", int(R)); for (std::size_t a = 0; a < R; ++a) name += vp::fmt(" %zu", s[a]); vp::context(name); vp::signature(name);
    auto fine = (c | mara::refine_cells<R>()).map(nd::to_shared()); double t = 0; bool shapes = true; for (std::size_t n = 0; n < (1 << R); ++n) { t += total<R>(fine[n]); shapes = shapes && fine[n].shape() == s; }
    if (VP_CHECK(shapes, "refine-shape", "refined blocks do not have the shape of their parent")) { VP_CHECK(std::fabs(t / (1 << R) - total<R>(c)) < 1e-12 * c.size() * 4, "refine-total", "refinement changed the total by %.3g", t / (1 << R) - total<R>(c)); auto back = mara::combine_cells(fine) | mara::coarsen_cells<R>() | nd::to_shared(); VP_CHECK(equal<R>(back, c, 1e-14), "refine-coarsen-cells", "coarsening the refined cells does not give them back"); }
    auto g = random_array<R>(rng, [&] { auto d = s; for (std::size_t a = 0; a < R; ++a) d[a] *= 2; return d; }()); auto co = g | mara::coarsen_cells<R>() | nd::to_shared(); VP_CHECK(co.shape() == s && std::fabs(total<R>(co) * (1 << R) - total<R>(g)) < 1e-12 * g.size() * 4, "coarsen-total", "coarsening changed the total");
    bool each = co.shape() == s; if (each) for (auto i : nd::make_access_pattern(s)) { double w = 0; for (int b = 0; b < (1 << R); ++b) { auto f = i; for (std::size_t a = 0; a < R; ++a) f[a] = 2 * i[a] + ((b >> a) & 1); w += g(f); } each = each && std::fabs(co(i) - w / (1 << R)) < 1e-14 * 8; } VP_CHECK(each, "coarsen-average", "a coarsened cell is not the average of its children");
    for (std::size_t a = 0; a < R; ++a) { auto e = g | mara::restrict_extrinsic(a) | nd::to_shared(); bool ok = e.shape(a) * 2 == g.shape(a); if (ok) for (auto i : nd::make_access_pattern(e.shape())) { auto l = i, r = i; l[a] = 2 * i[a]; r[a] = l[a] + 1; ok = ok && e(i) == g(l) + g(r); } VP_CHECK(ok, "restrict-extrinsic", "axis %zu", a); auto h0 = g | mara::bisect_cells_lower(a) | nd::to_shared(); auto h1 = g | mara::bisect_cells_upper(a) | nd::to_shared(); auto j = h0 | nd::concat(h1).on_axis(a) | nd::to_shared(); VP_CHECK(h0.shape() == h1.shape() && equal<R>(j, g, 0), "bisect-cells", "axis %zu", a); }
    auto vs = s; for (std::size_t a = 0; a < R; ++a) vs[a] += 1; auto v = random_array<R>(rng, vs); auto fv = (v | mara::refine_verts<R>()).map(nd::to_shared()); bool ok = true;
    for (std::size_t n = 0; n < (1 << R); ++n) { ok = ok && fv[n].shape() == vs; if (! ok) break; for (auto i : nd::make_access_pattern(vs)) { double w = 0; for (int b = 0; b < (1 << R); ++b) { auto k = i; for (std::size_t a = 0; a < R; ++a) { std::size_t f = ((n >> a) & 1) * s[a] + i[a]; k[a] = f / 2 + (((b >> a) & 1) ? f % 2 : 0); } w += v(k); } ok = ok && std::fabs(fv[n](i) - w / (1 << R)) < 1e-13; bool shared = true; auto k = i; for (std::size_t a = 0; a < R; ++a) { std::size_t f = ((n >> a) & 1) * s[a] + i[a]; shared = shared && f % 2 == 0; k[a] = f / 2; } if (shared) ok = ok && fv[n](i) == v(k); } }
    VP_CHECK(ok, "refine-verts", "refined vertices are not the interpolated ones");
    if constexpr (R < 3) { auto back = mara::combine_verts(fv) | mara::coarsen_verts<R>() | nd::to_shared(); VP_CHECK(equal<R>(back, v, 0), "refine-coarsen-verts", "coarsening the refined vertices does not give them back"); }
    for (std::size_t a = 0; a < R; ++a) { bool t1 = vp::throws([&] { auto q = v | mara::bisect_cells(a); (void) q; }), t2 = vp::throws([&] { auto q = v | mara::bisect_verts(a); (void) q; }); VP_CHECK(t1 == (vs[a] % 2 != 0) && t2 == (vs[a] % 2 == 0), "bisect-parity", "%zu elements: cells %s, vertices %s", vs[a], t1 ? "refused" : "accepted", t2 ? "refused" : "accepted"); }
    vp::observe("one-level");
}
VP_SECTION("one-level-1d", 150, 8000) { one_level<1>(rng); }
VP_SECTION("one-level-2d", 150, 8000) { one_level<2>(rng); }
VP_SECTION("one-level-3d", 60, 3000) { one_level<3>(rng); }
VP_MAIN()
