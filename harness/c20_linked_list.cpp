// C20: persistent list against std::vector, with live-object accounting.
#include "vp.hpp"
#include <algorithm>
#include <stdexcept>
#include <iterator>
#include "core_linked_list.hpp"

struct val_t
{
    static long live;
    int x = 0; int magic = 0x5eed;
    val_t() { ++live; } val_t(int x) : x(x) { ++live; } val_t(const val_t& o) : x(o.x), magic(o.magic) { ++live; if (o.magic != 0x5eed) std::abort(); }
    val_t& operator=(const val_t& o) { x = o.x; if (o.magic != 0x5eed || magic != 0x5eed) std::abort(); return *this; }
    ~val_t() { --live; magic = 0; }
    bool operator==(const val_t& o) const { return x == o.x; }
    bool operator!=(const val_t& o) const { return x != o.x; }
};
long val_t::live = 0;
typedef mara::linked_list_t<val_t> list_t;
typedef std::vector<int> ref_t;

static bool same(const list_t& l, const ref_t& r, const char* op)
{
    ref_t got; std::size_t n = 0;
    for (const auto& v : l) { got.push_back(v.x); if (++n > r.size() + 5) break; }
    bool ok = VP_CHECK(got == r, std::string("contents/") + op, "%s: %zu elements, want %zu", op, got.size(), r.size());
    ok = VP_CHECK(l.size() == r.size() && l.empty() == r.empty(), std::string("size/") + op, "%s: size %zu want %zu", op, l.size(), r.size()) && ok;
    vp::observe("list-compared");
    return ok;
}

VP_SECTION("histories", 1500, 40000)
{
    long before = val_t::live;
    {
        std::vector<std::pair<list_t, ref_t>> pool { { list_t(), ref_t() } };
        std::string trail; int steps = rng.range(5, 40);
        for (int s = 0; s < steps; ++s)
        {
            auto k = rng.range(0, pool.size() - 1), m = rng.range(0, pool.size() - 1);
            auto l = pool[k].first; auto r = pool[k].second; auto& o = pool[m];
            int v = rng.range(0, 9);
            const char* op = "";
            switch (rng.range(0, 11))
            {
            case 0: case 1: l = l.prepend(v); r.insert(r.begin(), v); op = "prepend"; break;
            case 2: case 3: l = l.append(v); r.push_back(v); op = "append"; break;
            case 4: l = l.concat(o.first); r.insert(r.end(), o.second.begin(), o.second.end()); op = "concat"; break;
            case 5: l = l.reverse(); std::reverse(r.begin(), r.end()); op = "reverse"; break;
            case 6: if (! r.empty()) { l = l.tail(); r.erase(r.begin()); op = "tail"; } break;
            case 7: { l = list_t(r.begin(), r.end()); op = "from-iterators"; break; }
            case 8: l = list_t { v, v + 1, v + 2 }; r = { v, v + 1, v + 2 }; op = "initializer"; break;
            case 9: l = list_t(val_t(v), l); r.insert(r.begin(), v); op = "cons"; break;
            case 10: { bool eq = pool[k].second == o.second; VP_CHECK((pool[k].first == o.first) == eq && (pool[k].first != o.first) == ! eq, "equality", "lists of %zu and %zu elements", r.size(), o.second.size()); op = "compare"; break; }
            default: pool.erase(pool.begin() + k); if (pool.empty()) pool.push_back({ list_t(), ref_t() }); op = "drop"; continue;
            }
            if (r.size() > 60) { l = list_t(); r = {}; }
            { // iterators are equal exactly where they stand at the same element
                auto i = l.begin(), j = l.begin(); std::size_t steps_i = rng.range(0, r.size()), steps_j = rng.range(0, r.size()); for (std::size_t n = 0; n < steps_i; ++n) ++i; for (std::size_t n = 0; n < steps_j; ++n) ++j;
                VP_CHECK((i == j) == (steps_i == steps_j) && (i != j) == (steps_i != steps_j) && (i == l.end()) == (steps_i == r.size()) && (i != l.end()) == (steps_i != r.size()), "iterator-equality", "iterators %zu and %zu steps into a list of %zu", steps_i, steps_j, r.size()); vp::observe("iterator-compared");
            }
            trail += op; trail += ","; vp::context(trail);
            same(l, r, op);
            if (r.empty()) { VP_CHECK(vp::throws_as<std::out_of_range>([&] { l.head(); }) && vp::throws_as<std::out_of_range>([&] { l.tail(); }), "empty-access", "head or tail of an empty list"); vp::observe("empty-access"); }
            else VP_CHECK(l.head().x == r[0], "head", "head %d want %d", l.head().x, r[0]);
            list_t copy(r.begin(), r.end()); VP_CHECK(copy == l && ! (copy != l), "equality", "rebuilt list differs");
            if (! r.empty()) { auto q = r; q[rng.range(0, q.size() - 1)] += 100; VP_CHECK(! (list_t(q.begin(), q.end()) == l), "equality", "list with one changed element compares equal"); q = r; q.pop_back(); VP_CHECK(list_t(q.begin(), q.end()) != l && l != list_t(q.begin(), q.end()), "equality", "shorter list compares equal"); }
            // lists that share elements: every pair, and those that share all but the first element
            for (auto& e : pool) { bool eq = r == e.second; VP_CHECK((l == e.first) == eq && (e.first == l) == eq && (l != e.first) == ! eq, "equality", "lists of %zu and %zu elements, with a common history", r.size(), e.second.size()); }
            if (! r.empty()) { auto t = l.tail(); auto other = t.prepend(r[0] + 1); auto again = t.prepend(r[0]); VP_CHECK(! (other == l) && ! (l == other) && other != l && again == l && ! (l != again), "equality", "lists of %zu elements that share all but the first", r.size()); VP_CHECK(! (t == l) && t != l, "equality", "a list of %zu elements equals its tail", r.size()); vp::observe("shared-tail-compared"); }
            // an iteration goes on over the sequence it was started on, whatever happens to the variable
            {
                auto var = l; auto it = var.begin(); auto end = var.end(); ref_t got; std::size_t cut = r.empty() ? 0 : rng.range(0, r.size()), n = 0; int how = rng.range(0, 2);
                if (how == 0 && cut == 0) var = list_t {1000, 1001};
                while (it != end && n <= r.size() + 3) { got.push_back((*it).x); ++it; ++n; if (n == cut) { if (how == 0) var = list_t {1000, 1001}; else if (how == 1) var = list_t(); else while (! var.empty()) var = var.tail(); } }
                VP_CHECK(got == r, "iterator-outlives-variable", "iterating while the list variable is reassigned gave %zu elements, want %zu", got.size(), r.size()); vp::observe("iterator-kept");
            }
            pool.push_back({ l, r });
            // every older list, sharing structure or not, is what it was
            for (auto& e : pool) if (! same(e.first, e.second, "older-list")) { s = steps; break; }
        }
        vp::signature(trail);
        vp::observe("history");
    }
    VP_CHECK(val_t::live == before, "lifetime", "%ld elements not released exactly once", val_t::live - before);
}

// long lists: every operation completes without exhausting the (8 MB) stack
VP_SECTION("long", 6, 40)
{
    long before = val_t::live;
    {
        static const std::vector<long> sizes {1000, 30000, 200000, 120000, 250000, 77777};
        long n = index < 6 ? sizes[index] : rng.range(1000, 400000);
        vp::context(vp::fmt("n=%ld", n));
        ref_t r; for (long i = 0; i < n; ++i) r.push_back(int(rng.range(0, 1 << 20)));
        list_t l(r.begin(), r.end());
        vp::observe("long-list");
        same(l, r, "long-build");
        auto a = l.append(7); r.push_back(7); same(a, r, "long-append"); r.pop_back();
        auto c = l.concat(l); auto rr = r; rr.insert(rr.end(), r.begin(), r.end()); same(c, rr, "long-concat");
        list_t l2(r.begin(), r.end());
        VP_CHECK(l2 == l && ! (l2 != l), "long-equality", "equal lists");
        if (n > 1) { r.back() += 1; list_t l3(r.begin(), r.end()); VP_CHECK(l3 != l, "long-equality", "lists differing in the last element"); r.back() -= 1; }
        std::reverse(r.begin(), r.end()); same(l.reverse(), r, "long-reverse");
        auto keep = l.tail().tail(); l = list_t(); c = list_t();            // release around a shared tail
        std::reverse(r.begin(), r.end()); r.erase(r.begin(), r.begin() + 2); same(keep, r, "long-shared-tail");
        vp::signature(vp::fmt("long %ld", n));
    }
    VP_CHECK(val_t::live == before, "lifetime", "%ld elements not released exactly once", val_t::live - before);
}
VP_MAIN()
