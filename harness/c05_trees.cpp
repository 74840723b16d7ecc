// C05: refinement trees of rank 1 to 3 in lock-step with a std::map from leaf
// positions to values.
#include "vp.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
#include "core_sequence.hpp"
#include "core_tree.hpp"

template<std::size_t R> struct pos_t { int level = 0; std::array<long, R> c {}; bool operator<(const pos_t& o) const { return level != o.level ? level < o.level : c < o.c; } bool operator==(const pos_t& o) const { return level == o.level && c == o.c; } };
template<std::size_t R> using ref_t = std::map<pos_t<R>, long>;
template<std::size_t R> using tree_t = mara::arithmetic_binary_tree_t<long, R>;
template<std::size_t R> using idx_t = mara::tree_index_t<R>;

template<std::size_t R> idx_t<R> ix(const pos_t<R>& k) { idx_t<R> i; i.level = k.level; for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = k.c[a]; return i; }
template<std::size_t R> pos_t<R> ky(const idx_t<R>& i) { pos_t<R> k; k.level = int(i.level); for (std::size_t a = 0; a < R; ++a) k.c[a] = long(i.coordinates[a]); return k; }
template<std::size_t R> pos_t<R> up(pos_t<R> k) { k.level--; for (auto& x : k.c) x >>= 1; return k; }
template<std::size_t R> pos_t<R> down(pos_t<R> k, int i) { k.level++; for (std::size_t a = 0; a < R; ++a) k.c[a] = 2 * k.c[a] + ((i >> a) & 1); return k; }
template<std::size_t R> bool in_domain(const pos_t<R>& k) { for (auto x : k.c) if (x < 0 || x >= (1l << k.level)) return false; return true; }
template<std::size_t R> bool below(pos_t<R> k, const pos_t<R>& anc) { while (k.level > anc.level) k = up(k); return k == anc; }
template<std::size_t R> bool is_node(const ref_t<R>& r, const pos_t<R>& k) { for (auto& e : r) if (e.first.level >= k.level && below(e.first, k)) return true; return false; }
template<std::size_t R> std::string show(const pos_t<R>& k) { std::string s = vp::fmt("%d:", k.level); for (auto x : k.c) s += vp::fmt("%ld,", x); return s; }
// depth-first order, child i at bit a of i along axis a
template<std::size_t R> void walk(const ref_t<R>& r, pos_t<R> k, std::vector<std::pair<pos_t<R>, long>>& out) { auto it = r.find(k); if (it != r.end()) { out.push_back({k, it->second}); return; } if (k.level > 40) return; for (int i = 0; i < (1 << R); ++i) walk(r, down(k, i), out); }

template<std::size_t R> bool same(const tree_t<R>& t, const ref_t<R>& r, const char* op)
{
    std::vector<std::pair<pos_t<R>, long>> want; walk(r, pos_t<R>(), want); std::vector<long> got; std::vector<pos_t<R>> gk;
    t.sink([&] (auto v) { got.push_back(v); }); t.indexes().sink([&] (auto i) { gk.push_back(ky(i)); });
    bool ok = VP_CHECK(got.size() == want.size() && gk.size() == want.size() && t.size() == want.size(), std::string("leaf-count/") + op, "%s: %zu values, %zu positions, size %zu, want %zu", op, got.size(), gk.size(), t.size(), want.size());
    for (std::size_t n = 0; ok && n < want.size(); ++n)
    {
        ok = VP_CHECK(gk[n] == want[n].first, std::string("position/") + op, "%s: leaf %zu at %s, want %s", op, n, show(gk[n]).c_str(), show(want[n].first).c_str());
        ok = VP_CHECK(got[n] == want[n].second, std::string("value/") + op, "%s: leaf %s holds %ld, want %ld", op, show(want[n].first).c_str(), got[n], want[n].second) && ok;
    }
    vp::observe("tree-compared"); vp::observe("leaf-compared", want.size()); return ok;
}
template<std::size_t R> void queries(vp::rng_t& rng, const tree_t<R>& t, const ref_t<R>& r)
{
    std::vector<std::pair<pos_t<R>, long>> dfs; walk(r, pos_t<R>(), dfs);
    int deepest = 0; long lo = dfs[0].second, hi = lo, sum = 0; bool any = false, all = true; for (auto& e : dfs) { deepest = std::max(deepest, e.first.level); lo = std::min(lo, e.second); hi = std::max(hi, e.second); sum += e.second; any |= e.second != 0; all &= e.second != 0; }
    VP_CHECK(int(t.depth()) == deepest && int(t.depth(3)) == deepest + 3, "depth", "depth %zu, want %d", t.depth(), deepest);
    VP_CHECK(t.front() == dfs[0].second, "front", "front %ld, want %ld", t.front(), dfs[0].second);
    VP_CHECK(t.min() == lo && t.max() == hi && t.sum() == sum && t.any() == any && t.all() == all, "reductions", "min %ld/%ld max %ld/%ld sum %ld/%ld any %d/%d all %d/%d", t.min(), lo, t.max(), hi, t.sum(), sum, t.any(), any, t.all(), all);
    for (int q = 0; q < 12; ++q)
    {
        pos_t<R> k = dfs[rng.range(0, dfs.size() - 1)].first; int kind = rng.range(0, 4); const char* what = "leaf";
        if (kind == 1 && k.level > 0) { int n = rng.range(1, k.level); while (n--) k = up(k); what = "ancestor"; }
        if (kind == 2) { int n = rng.range(1, 3); while (n--) k = down(k, rng.range(0, (1 << R) - 1)); what = "descendant"; }
        if (kind == 3) { k.level = rng.range(0, deepest + 2); for (auto& x : k.c) x = rng.range(0, (1l << k.level) - 1); what = "random"; }
        if (kind == 4) { k.c[rng.range(0, R - 1)] += (1l << k.level) * rng.range(1, 3); what = "outside"; }
        auto it = r.find(k); bool leaf = it != r.end(), node = in_domain(k) && is_node(r, k); auto i = ix(k);
        VP_CHECK(t.contains(i) == leaf, std::string("contains/") + what, "%s position %s: contains %d", what, show(k).c_str(), int(t.contains(i)));
        VP_CHECK(t.contains_node(i) == node, std::string("contains-node/") + what, "%s position %s: contains_node %d", what, show(k).c_str(), int(t.contains_node(i)));
        std::optional<long> f; bool threw = vp::throws([&] { f = t.find(i); });
        VP_CHECK(! threw && f.has_value() == leaf && (! leaf || *f == it->second), std::string("find/") + what, "%s position %s: %s", what, show(k).c_str(), threw ? "find threw" : f ? "a value" : "nothing");
        if (leaf) { long v = 0; VP_CHECK(! vp::throws([&] { v = t.at(i); }) && v == it->second && t.node_at(i).has_value() && t.node_at(i).size() == 1, std::string("at/") + what, "position %s holds %ld, want %ld", show(k).c_str(), v, it->second); }
        else { bool refused = vp::throws([&] { t.at(i); }); VP_CHECK(refused, std::string("at/") + what, "%s position %s is not a leaf but at() returned", what, show(k).c_str()); vp::observe("lookup-refused"); }
        if (node) { std::size_t n = 0; for (auto& e : r) if (e.first.level >= k.level && below(e.first, k)) ++n; VP_CHECK(t.node_at(i).size() == n, "node-at", "subtree at %s has %zu leaves, want %zu", show(k).c_str(), t.node_at(i).size(), n); }
        else { bool refused = vp::throws([&] { t.node_at(i); }); VP_CHECK(refused, "node-at", "no node at %s but node_at() returned", show(k).c_str()); }
        if (leaf) { bool refused = vp::throws([&] { t.at(i.with_level(i.level)); t.node_at(i).children(); }); VP_CHECK(refused, "leaf-children", "children() of the leaf %s returned", show(k).c_str()); }
        else if (node) { bool refused = vp::throws([&] { t.node_at(i).value(); }); VP_CHECK(refused, "branch-value", "value() of the branch %s returned", show(k).c_str()); }
        if (node)
        {
            auto d = down(k, rng.range(0, (1 << R) - 1)); mara::arithmetic_sequence_t<bool, R> bits; for (std::size_t n = 0; n < R; ++n) bits[n] = (d.c[n] - 2 * k.c[n]) != 0;
            auto by_bits = [&] () -> decltype(auto) { if constexpr (R == 1) return t.node_at(i).child_at(int(bits[0])); else if constexpr (R == 2) return t.node_at(i).child_at(int(bits[0]), int(bits[1])); else return t.node_at(i).child_at(int(bits[0]), int(bits[1]), int(bits[2])); };
            if (leaf) VP_CHECK(vp::throws([&] { t.node_at(i).child_at(bits); }) && vp::throws([&] { by_bits(); }), "child-of-leaf", "child_at() of the leaf %s returned", show(k).c_str());
            else { long sum = 0; std::size_t n = 0; for (auto& e : r) if (e.first.level >= d.level && below(e.first, d)) { ++n; sum += e.second; } const auto& one = t.node_at(i).child_at(bits); const auto& two = by_bits(); VP_CHECK(one.size() == n && two.size() == n && one.sum() == sum && two.sum() == sum && one.front() == t.node_at(ix(d)).front() && two.front() == one.front(), "child-at", "the child of %s at %s is another", show(k).c_str(), show(d).c_str()); vp::observe("child"); }
        }
        vp::observe(std::string("lookup:") + what);
    }
}
template<std::size_t R> void history(vp::rng_t& rng)
{
    typedef tree_t<R> T; std::vector<std::pair<T, ref_t<R>>> pool; std::string trail = vp::fmt("r%d,", int(R));
    { long v = rng.range(-5, 20); pool.push_back({mara::tree_of<R>(v), {{pos_t<R>(), v}}}); }
    { mara::arithmetic_sequence_t<long, 1 << R> s; ref_t<R> r; for (int i = 0; i < (1 << R); ++i) { s[i] = rng.range(0, 50); r[down(pos_t<R>(), i)] = s[i]; } pool.push_back({mara::tree_of<R>(s), r}); }
    int steps = rng.range(4, 14); std::size_t limit = R == 3 ? 200 : 120;
    for (int s = 0; s < steps; ++s)
    {
        auto& src = pool[rng.range(0, pool.size() - 1)]; T t = src.first; auto r = src.second; const char* op = ""; long calls = 0;
        std::vector<pos_t<R>> leaves; for (auto& e : r) leaves.push_back(e.first); auto some_leaf = leaves[rng.range(0, leaves.size() - 1)];
        int which = rng.range(0, 9);
        if (r.size() > limit && (which <= 2 || which == 3)) which = 4;
        switch (which)
        {
        case 0: case 1: { op = "bifurcate_if"; long m = rng.range(2, 5), z = rng.range(0, m - 1); auto pred = [m, z] (long v) { return ((v % m) + m) % m == z; };
            t = src.first.bifurcate_if([&] (long v) { ++calls; return pred(v); }, [] (long v) { return mara::iota<1 << R>().map([v] (std::size_t i) { return long(v * 3 + long(i)); }); });
            VP_CHECK(calls == long(r.size()), "calls/bifurcate_if", "predicate called %ld times for %zu leaves", calls, r.size()); ref_t<R> n; for (auto& e : r) if (pred(e.second)) for (int i = 0; i < (1 << R); ++i) n[down(e.first, i)] = e.second * 3 + i; else n.insert(e); r = n; break; }
        case 2: { op = "bifurcate_all"; if (r.size() << R > 600) { op = ""; break; } t = src.first.bifurcate_all([] (long v) { return mara::iota<1 << R>().map([v] (std::size_t i) { return long(v - long(i)); }); }); ref_t<R> n; for (auto& e : r) for (int i = 0; i < (1 << R); ++i) n[down(e.first, i)] = e.second - i; r = n; break; }
        case 3: { op = "insert"; pos_t<R> k = some_leaf; int extra = rng.range(0, 3); while (extra--) k = down(k, rng.range(0, (1 << R) - 1)); long v = rng.range(100, 999); t = src.first.insert(ix(k), v); auto it = r.find(some_leaf); if (! (k == some_leaf)) { r.erase(it); auto p = k; while (! (p == some_leaf)) { auto q = up(p); for (int i = 0; i < (1 << R); ++i) if (! (down(q, i) == p)) r[down(q, i)] = 0; p = q; } } r[k] = v; vp::observe(k == some_leaf ? "insert-replace" : "insert-deeper"); break; }
        case 4: { op = "insert-refused"; if (some_leaf.level == 0) { op = ""; break; } pos_t<R> k = some_leaf; int n = rng.range(1, k.level); while (n--) k = up(k); bool refused = vp::throws([&] { src.first.insert(ix(k), 5l); }); VP_CHECK(refused, "insert-on-branch", "inserting at the branch %s was accepted", show(k).c_str()); k.c[0] += 1l << k.level; refused = vp::throws([&] { src.first.insert(ix(k), 5l); }); VP_CHECK(refused, "insert-outside", "inserting outside the domain at %s was accepted", show(k).c_str()); vp::observe("insert-refused"); break; }
        case 5: { op = "update"; pos_t<R> k = some_leaf; int n = rng.range(0, k.level); while (n--) k = up(k); t = src.first.update(ix(k), [] (long v) { return v * 7 + 1; }); for (auto& e : r) if (e.first.level >= k.level && below(e.first, k)) e.second = e.second * 7 + 1; auto d = down(some_leaf, 0); bool refused = vp::throws([&] { src.first.update(ix(d), [] (long v) { return v; }); }); VP_CHECK(refused, "update-missing", "updating the missing node %s was accepted", show(d).c_str()); break; }
        case 6: { op = "map"; int how = rng.range(0, 2); std::atomic<long> n {0}; auto f = [&n] (long v) -> long { ++n; return v * v - 3; };
            if (how == 0) t = src.first.map(f); else if (how == 1) { T c = src.first; t = c.map([&n] (long v) -> long { ++n; return v * v - 3; }, std::launch::deferred); } else { if (r.size() > 40) t = src.first.map(f); else { T c = src.first; t = c.map([&n] (long v) -> long { ++n; return v * v - 3; }, std::launch::async); vp::observe("map-async"); } }
            VP_CHECK(n == long(r.size()), "calls/map", "function called %ld times for %zu leaves", long(n), r.size()); for (auto& e : r) e.second = e.second * e.second - 3; break; }
        case 7: { op = "operators"; auto g = [] (long v) -> long { return v > 0 && v % 3 == 1 ? v : v % 7 + 8; }; auto o = src.first.map(g); auto& x = src.first; long c = rng.range(1, 9);
            switch (rng.range(0, 9)) { case 0: t = x + o; for (auto& e : r) e.second += g(e.second); break; case 1: t = x - o; for (auto& e : r) e.second -= g(e.second); break; case 2: t = x * o; for (auto& e : r) e.second *= g(e.second); break; case 3: t = x / o; for (auto& e : r) e.second /= g(e.second); break; case 4: t = x + c; for (auto& e : r) e.second += c; break; case 5: t = x - c; for (auto& e : r) e.second -= c; break; case 6: t = x * c; for (auto& e : r) e.second *= c; break; case 7: t = x / c; for (auto& e : r) e.second /= c; break; case 8: t = -x; for (auto& e : r) e.second = -e.second; break; case 9: t = +x; break; }
            auto ask = [&] (auto tree, auto f, const char* name) { auto rr = r; (void) rr; std::map<pos_t<R>, bool> got; tree.pair_indexes().sink([&] (auto p) { got[ky(p.first)] = p.second; }); bool ok = got.size() == src.second.size(); for (auto& e : src.second) ok = ok && got.count(e.first) && got[e.first] == f(e.second); VP_CHECK(ok, std::string("compare/") + name, "%s differs", name); };
            ask(x < o, [g] (long v) { return v < g(v); }, "<"); ask(x > o, [g] (long v) { return v > g(v); }, ">"); ask(x <= c, [c, g] (long v) { return v <= c; }, "<=scalar"); ask(x >= c, [c, g] (long v) { return v >= c; }, ">=scalar"); ask(x == c, [c, g] (long v) { return v == c; }, "==scalar"); ask(x != o, [g] (long v) { return v != g(v); }, "!="); ask(x == o, [g] (long v) { return v == g(v); }, "=="); ask(x <= o, [g] (long v) { return v <= g(v); }, "<="); ask(x >= o, [g] (long v) { return v >= g(v); }, ">="); ask((x < c) && (x > 0l), [c, g] (long v) { return v < c && v > 0; }, "&&"); ask((x < c) || (x > o), [c, g] (long v) { return v < c || v > g(v); }, "||"); ask(x < c, [c, g] (long v) { return v < c; }, "<scalar"); ask(x > c, [c, g] (long v) { return v > c; }, ">scalar"); ask(x != c, [c, g] (long v) { return v != c; }, "!=scalar"); break; }
        case 8: { op = "pair-apply"; long n = 0; auto o = src.first.map([] (long v) { return v + 1000; }); t = src.first.pair(o).apply([&n] (long a, long b) -> long { ++n; return 2 * a - b; }); for (auto& e : r) e.second = 2 * e.second - (e.second + 1000); VP_CHECK(n == long(r.size()), "calls/apply", "function called %ld times for %zu leaves", n, r.size());
            auto fns = o.map([] (long b) { return std::function<long(long)>([b] (long a) { return 2 * a - b; }); }); same<R>(fns.apply_to(src.first), r, "apply_to"); same<R>(src.first.binary_op(o, [] (long a, long b) { return 2 * a - b; }), r, "binary_op");
            auto q = src.first.pair_indexes().map([] (auto p) { return long(p.first.level * 1000) + p.second; }); auto rq = src.second; for (auto& e : rq) e.second += e.first.level * 1000; same<R>(q, rq, "pair_indexes"); break; }
        case 9: { op = "shape-mismatch"; auto& other = pool[rng.range(0, pool.size() - 1)]; bool same_shape = other.second.size() == r.size(); if (same_shape) for (auto& e : r) same_shape = same_shape && other.second.count(e.first); bool refused = vp::throws([&] { auto u = src.first + other.first; (void) u; }); VP_CHECK(refused == ! same_shape, "shape-mismatch", "adding trees of %s shape was %s", same_shape ? "equal" : "different", refused ? "refused" : "accepted"); vp::observe(refused ? "shape-refused" : "shape-accepted"); break; }
        }
        if (! *op) continue;
        trail += op; trail += ","; vp::context(trail);
        for (auto& e : r) e.second %= 100000; t = t.map([] (long v) { return v % 100000; }); // keep the numbers small
        if (! same<R>(t, r, op)) break;
        queries<R>(rng, t, r); pool.push_back({t, r});
        for (auto& e : pool) if (! same<R>(e.first, e.second, "older-tree")) { s = steps; break; }
    }
    vp::signature(trail); vp::observe("history");
}
VP_SECTION("rank1", 250, 12000) { history<1>(rng); }
VP_SECTION("rank2", 250, 12000) { history<2>(rng); }
VP_SECTION("rank3", 120, 6000) { history<3>(rng); }

template<std::size_t R> void algebra(vp::rng_t& rng)
{
    pos_t<R> k; k.level = rng.range(0, rng.chance(0.1) ? 28 : 8); for (auto& x : k.c) { x = rng.range(0, (1l << k.level) - 1); if (rng.chance(0.3)) x = rng.chance(0.5) ? 0 : (1l << k.level) - 1; }
    auto i = ix(k); auto name = show(k); vp::context(name); vp::signature(vp::fmt("%d ", int(R)) + name);
    VP_CHECK(i.valid(), "valid", "%s", name.c_str()); { auto o = i; o.coordinates[rng.range(0, R - 1)] = (1l << k.level) + rng.range(0, 5); VP_CHECK(! o.valid(), "valid", "%s made invalid", name.c_str()); VP_CHECK(o != i && ! (o == i), "index-equality", "%s", name.c_str()); }
    auto ch = i.child_indexes(); std::set<pos_t<R>> distinct;
    for (int n = 0; n < (1 << R); ++n) { VP_CHECK(ky(ch[n]) == down(k, n), "child", "child %d of %s is %s", n, name.c_str(), show(ky(ch[n])).c_str()); VP_CHECK(ch[n].parent_index() == i, "parent", "parent of child %d of %s", n, name.c_str()); distinct.insert(ky(ch[n]));
        auto rel = ch[n].relative_to_parent(); VP_CHECK(rel.level == 1 && mara::to_integral(rel.orthant()) == std::size_t(n), "relative", "child %d of %s", n, name.c_str()); }
    VP_CHECK(distinct.size() == std::size_t(1) << R, "child", "children of %s coincide", name.c_str());
    for (std::size_t a = 0; a < R; ++a)
    {
        long w = 1l << k.level; auto n = k, p = k; n.c[a] = (k.c[a] + 1) % w; p.c[a] = (k.c[a] + w - 1) % w; VP_CHECK(ky(i.next_on(a)) == n && ky(i.prev_on(a)) == p, "neighbour", "neighbours of %s on axis %zu are %s and %s", name.c_str(), a, show(ky(i.next_on(a))).c_str(), show(ky(i.prev_on(a))).c_str());
        VP_CHECK(i.next_on(a).prev_on(a) == i && i.prev_on(a).next_on(a) == i, "neighbour", "%s", name.c_str()); vp::observe(k.c[a] == 0 || k.c[a] == w - 1 ? "wrapped-neighbour" : "inner-neighbour");
    }
    if (k.level > 0) { std::size_t bits = 0; auto q = k; for (std::size_t a = 0; a < R; ++a) { bool b = k.c[a] >> (k.level - 1) & 1; bits |= std::size_t(b) << a; q.c[a] -= long(b) << (k.level - 1); } q.level--; VP_CHECK(mara::to_integral(i.orthant()) == bits && ky(i.advance_level()) == q, "descent", "%s descends through %zu to %s", name.c_str(), mara::to_integral(i.orthant()), show(ky(i.advance_level())).c_str()); }
    auto other = k; other.c[rng.range(0, R - 1)] ^= 1; VP_CHECK(! (ix(other) == i) && ix(other) != i && i.with_level(k.level + 1) != i && i.with_level(k.level) == i && ix(k) == i && ! (ix(k) != i), "index-equality", "%s", name.c_str());
    vp::observe("index-algebra");
}
VP_SECTION("algebra", 6000, 300000) { algebra<1>(rng); algebra<2>(rng); algebra<3>(rng);
    std::size_t v = rng.range(0, 1 << 12), w = v & 255; auto b = mara::binary_repr<8>(v); std::size_t back = mara::to_integral(b); VP_CHECK(back == w, "binary", "%zu -> %zu", w, back); for (int n = 0; n < 8; ++n) { bool bit = b[n]; VP_CHECK(bit == bool(v >> n & 1), "binary", "bit %d of %zu", n, v); }
    auto m = mara::make_tree_index(v, w, 3).with_level(13); VP_CHECK(m.level == 13 && m.coordinates[0] == v && m.coordinates[1] == w && m.coordinates[2] == 3, "make-index", "%zu %zu", v, w); }

// the Hilbert index of level L visits every position once, moving to an edge neighbour each time
// Deep levels, around random positions: the curve goes on to a neighbour in both directions, and no two positions share an index.
VP_SECTION("hilbert deep", 300, 6000)
{
    int L = int(rng.range(7, 15)); long n = 1l << L, x = rng.range(0, n - 1), y = rng.range(0, n - 1); vp::context(vp::fmt("level %d position %ld %ld", L, x, y)); vp::signature(vp::S().context);
    auto h = [L] (long x, long y) { return long(mara::hilbert_index(ix(pos_t<2> {L, {x, y}}))); };
    long d = h(x, y), up = 0, down = 0;
    for (auto [a, b] : std::vector<std::pair<long, long>> {{x - 1, y}, {x + 1, y}, {x, y - 1}, {x, y + 1}}) if (a >= 0 && b >= 0 && a < n && b < n) { up += h(a, b) == d + 1; down += h(a, b) == d - 1; }
    VP_CHECK(d >= 0 && d < n * n && up == (d < n * n - 1) && down == (d > 0), "hilbert-adjacent", "index %ld: %ld neighbours have the next one, %ld the one before", d, up, down);
    for (int b = 0; b < L; ++b) VP_CHECK(h(x ^ (1l << b), y) != d && h(x, y ^ (1l << b)) != d, "hilbert-bijection", "index %ld is shared with the position that differs in bit %d", d, b);
    vp::observe("hilbert-deep");
}
VP_SECTION("hilbert", 8, 11)
{
    int L = int(index); std::map<std::size_t, std::pair<long, long>> at; long n = 1l << L; vp::context(vp::fmt("level %d", L)); vp::signature(vp::fmt("hilbert %d", L));
    for (long x = 0; x < n; ++x) for (long y = 0; y < n; ++y) at[mara::hilbert_index(ix(pos_t<2> {L, {x, y}}))] = {x, y};
    if (! VP_CHECK(long(at.size()) == n * n && at.rbegin()->first == std::size_t(n * n - 1), "hilbert-bijection", "level %d: %zu distinct indexes for %ld positions", L, at.size(), n * n)) return;
    for (auto it = at.begin(), nx = std::next(it); nx != at.end(); ++it, ++nx) { long d = std::labs(it->second.first - nx->second.first) + std::labs(it->second.second - nx->second.second); if (! VP_CHECK(d == 1, "hilbert-adjacent", "level %d: positions %zu and %zu are %ld apart", L, it->first, nx->first, d)) break; }
    vp::observe("hilbert-position", n * n);
}
VP_MAIN()
