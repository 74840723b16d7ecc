// C03: array expressions. Every operation is applied to the real lazy array and
// to a plain reference (shape + flat values); chains of random operations are
// grown by type-erasing the lazy result, so laziness is kept through the chain.
#include "vp.hpp"
#include <array>
#include <algorithm>
#include <memory>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"

template<std::size_t R> using tup = std::array<std::size_t, R>;
template<std::size_t R> using lazy_t = nd::array_t<nd::basic_provider_t<std::function<double(const nd::index_t<R>&)>, R>>;

template<std::size_t R> struct ref_t
{
    tup<R> shape;
    std::vector<double> v;
    std::size_t off(const tup<R>& i) const { std::size_t o = 0; for (std::size_t a = 0; a < R; ++a) o = o * shape[a] + i[a]; return o; }
    double at(const tup<R>& i) const { for (std::size_t a = 0; a < R; ++a) if (i[a] >= shape[a]) { std::fprintf(stderr, "reference out of range\n"); std::abort(); } return v[off(i)]; }
};
template<std::size_t R> static std::size_t volume(const tup<R>& s) { std::size_t n = 1; for (auto x : s) n *= x; return n; }
template<std::size_t R> static tup<R> unflat(std::size_t o, const tup<R>& s) { tup<R> i; for (std::size_t a = R; a-- > 0;) { i[a] = o % s[a]; o /= s[a]; } return i; }
template<std::size_t R, typename F> static ref_t<R> make_ref(tup<R> shape, F f) { ref_t<R> r { shape, {} }; auto n = volume<R>(shape); for (std::size_t k = 0; k < n; ++k) r.v.push_back(f(unflat<R>(k, shape))); return r; }
template<std::size_t R> static nd::index_t<R> idx(const tup<R>& t) { nd::index_t<R> r; for (std::size_t a = 0; a < R; ++a) r[a] = t[a]; return r; }
template<std::size_t R> static nd::shape_t<R> shp(const tup<R>& t) { nd::shape_t<R> r; for (std::size_t a = 0; a < R; ++a) r[a] = t[a]; return r; }
template<std::size_t R> static nd::jumps_t<R> jmp(const tup<R>& t) { nd::jumps_t<R> r; for (std::size_t a = 0; a < R; ++a) r[a] = t[a]; return r; }
template<std::size_t R> static std::string str(const tup<R>& t) { std::string s = "("; for (auto x : t) s += std::to_string(x) + ","; return s + ")"; }

// the deciding monitor: the expression has the reference's shape and values,
// read lazily, evaluated to shared and to unique storage, and iterated
template<std::size_t R, typename A> bool matches(const A& e, const ref_t<R>& r, const std::string& op)
{
    bool ok = true;
    for (std::size_t a = 0; a < R && ok; ++a) ok = VP_CHECK(e.shape()[a] == r.shape[a] && e.shape(a) == r.shape[a], "shape/" + op, "axis %zu: extent %zu, want %zu", a, e.shape()[a], r.shape[a]);
    if (! ok) return false;
    ok = VP_CHECK(e.size() == r.v.size(), "size/" + op, "size %zu want %zu", e.size(), r.v.size());
    if (! ok) return false;
    for (std::size_t k = 0; k < r.v.size() && ok; ++k)
    {
        auto i = unflat<R>(k, r.shape);
        ok = VP_CHECK(double(e(idx<R>(i))) == r.v[k], "value/" + op, "element %s is %g, want %g", str<R>(i).c_str(), double(e(idx<R>(i))), r.v[k]);
    }
    auto s = e | nd::to_shared();
    auto u = e | nd::to_unique();
    for (std::size_t a = 0; a < R && ok; ++a) ok = VP_CHECK(s.shape(a) == r.shape[a] && u.shape(a) == r.shape[a], "evaluated-shape/" + op, "axis %zu", a);
    for (std::size_t k = 0; k < r.v.size() && ok; ++k)
    {
        ok = VP_CHECK(double(s.data()[k]) == r.v[k], "evaluated-shared/" + op, "flat element %zu is %g, want %g", k, double(s.data()[k]), r.v[k]) && ok;
        ok = VP_CHECK(double(u.data()[k]) == r.v[k], "evaluated-unique/" + op, "flat element %zu is %g, want %g", k, double(u.data()[k]), r.v[k]) && ok;
    }
    std::size_t n = 0;
    for (auto x : e)
    {
        if (! VP_CHECK(n < r.v.size(), "iteration/" + op, "iteration runs past the end")) { ok = false; break; }
        if (! VP_CHECK(double(x) == r.v[n], "iteration/" + op, "element %zu of the iteration", n)) { ok = false; break; }
        ++n;
    }
    ok = VP_CHECK(n == r.v.size() || ! ok, "iteration/" + op, "iterated %zu of %zu", n, r.v.size()) && ok;
    vp::observe("elements", r.v.size());
    vp::observe("expr:" + op);
    return ok;
}

template<std::size_t R, typename A> static lazy_t<R> erase(const A& e)
{
    auto p = std::make_shared<A>(e);
    return nd::make_array(std::function<double(const nd::index_t<R>&)>([p] (const nd::index_t<R>& i) { return double((*p)(i)); }), e.shape());
}

template<std::size_t R> static tup<R> random_shape(vp::rng_t& rng)
{
    tup<R> s; long cap = R == 1 ? 20 : R == 2 ? 9 : 5;
    for (auto& x : s) x = rng.chance(0.06) ? 0 : rng.chance(0.15) ? 1 : rng.range(1, cap);
    return s;
}
template<std::size_t R> static ref_t<R> random_ref(vp::rng_t& rng, tup<R> s) { return make_ref<R>(s, [&] (auto) { return double(rng.range(-9, 9)); }); }
template<std::size_t R> static nd::shared_array<double, R> to_nd(const ref_t<R>& r)
{
    auto u = nd::make_unique_array<double>(shp<R>(r.shape));
    for (std::size_t k = 0; k < r.v.size(); ++k) u(idx<R>(unflat<R>(k, r.shape))) = r.v[k];
    return std::move(u).shared();
}

// the variable state of a chain: one live array of rank 1, 2 or 3
template<std::size_t R> struct node_t { ref_t<R> r; lazy_t<R> a; };
struct chain_t
{
    int rank = 0;
    std::unique_ptr<node_t<1>> n1; std::unique_ptr<node_t<2>> n2; std::unique_ptr<node_t<3>> n3;
    std::string trail;
    bool ok = true;
    template<std::size_t R> void set(ref_t<R> r, lazy_t<R> a)
    {
        std::unique_ptr<node_t<R>> n(new node_t<R> { r, a });
        n1.reset(); n2.reset(); n3.reset(); rank = R;
        if constexpr (R == 1) n1 = std::move(n); else if constexpr (R == 2) n2 = std::move(n); else n3 = std::move(n);
    }
};
template<std::size_t R> static node_t<R>& node(chain_t& c) { if constexpr (R == 1) return *c.n1; else if constexpr (R == 2) return *c.n2; else return *c.n3; }

template<std::size_t R, typename A> void step(chain_t& c, const A& e, const ref_t<R>& r, const std::string& op)
{
    c.trail += "|" + op;
    vp::context(c.trail);
    auto l = erase<R>(e);
    c.ok = matches<R>(l, r, op);
    if (c.ok) c.set<R>(r, l);
}

template<std::size_t R, typename F> static ref_t<R> map2(const ref_t<R>& x, const ref_t<R>& y, F f) { auto z = x; for (std::size_t k = 0; k < x.v.size(); ++k) z.v[k] = f(x.v[k], y.v[k]); return z; }
template<std::size_t R, typename F> static ref_t<R> map1(const ref_t<R>& x, F f) { auto z = x; for (auto& q : z.v) q = f(q); return z; }
template<std::size_t R> static ref_t<R> slice(const ref_t<R>& x, std::size_t axis, std::size_t from, std::size_t to, std::size_t jump=1)
{
    auto s = x.shape; s[axis] = to > from ? (to - from + jump - 1) / jump : 0;
    return make_ref<R>(s, [&] (tup<R> i) { i[axis] = from + i[axis] * jump; return x.at(i); });
}
template<std::size_t R> static ref_t<R> cat(const ref_t<R>& x, const ref_t<R>& y, std::size_t axis)
{
    auto s = x.shape; s[axis] += y.shape[axis];
    return make_ref<R>(s, [&] (tup<R> i) { if (i[axis] < x.shape[axis]) return x.at(i); i[axis] -= x.shape[axis]; return y.at(i); });
}
static double clip(double x) { return std::fmod(x, 1000.0); }

template<std::size_t R> void one_step(chain_t& c, vp::rng_t& rng)
{
    auto& nodeR = node<R>(c);
    auto A = nodeR.a; auto r = nodeR.r;
    std::size_t axis = rng.range(0, R - 1), n = r.shape[axis];
    switch (rng.range(0, 33))
    {
    case 0: { auto y = random_ref<R>(rng, r.shape); auto B = to_nd<R>(y); step<R>(c, A + B, map2<R>(r, y, [] (double a, double b) { return a + b; }), "add"); break; }
    case 1: { auto y = random_ref<R>(rng, r.shape); auto B = to_nd<R>(y); step<R>(c, A - B, map2<R>(r, y, [] (double a, double b) { return a - b; }), "subtract"); break; }
    case 2: { auto y = random_ref<R>(rng, r.shape); auto B = to_nd<R>(y); step<R>(c, (A | nd::map([] (double x) { return clip(x); })) * B, map2<R>(r, y, [] (double a, double b) { return clip(a) * b; }), "multiply"); break; }
    case 3: { auto y = random_ref<R>(rng, r.shape); for (auto& q : y.v) if (q == 0) q = 4; auto B = to_nd<R>(y); step<R>(c, A / B, map2<R>(r, y, [] (double a, double b) { return a / b; }), "divide"); break; }
    case 4: { double k = rng.range(-5, 5); step<R>(c, A - k, map1<R>(r, [k] (double a) { return a - k; }), "subtract-scalar"); break; }
    case 5: { double k = rng.range(1, 5); step<R>(c, rng.chance(0.5) ? erase<R>(A / k) : erase<R>(A | nd::divide(k)), map1<R>(r, [k] (double a) { return a / k; }), "divide-scalar"); break; }
    case 6: { double k = rng.range(-2, 2); step<R>(c, A | nd::map([] (double x) { return clip(x); }) | nd::multiply(k), map1<R>(r, [k] (double a) { return clip(a) * k; }), "multiply-op"); break; }
    case 7: { auto y = random_ref<R>(rng, r.shape); for (auto& q : y.v) if (rng.chance(0.3)) q = 0; auto z = map1<R>(r, [] (double x) { return std::fmod(std::floor(x), 3); }); auto Z = A | nd::map([] (double x) { return std::fmod(std::floor(x), 3); }); auto B = to_nd<R>(y);
        switch (rng.range(0, 7)) {
        case 0: step<R>(c, Z == B, map2<R>(z, y, [] (double a, double b) { return double(a == b); }), "eq"); break;
        case 1: step<R>(c, Z != B, map2<R>(z, y, [] (double a, double b) { return double(a != b); }), "ne"); break;
        case 2: step<R>(c, Z <= B, map2<R>(z, y, [] (double a, double b) { return double(a <= b); }), "le"); break;
        case 3: step<R>(c, Z >= B, map2<R>(z, y, [] (double a, double b) { return double(a >= b); }), "ge"); break;
        case 4: step<R>(c, Z < B, map2<R>(z, y, [] (double a, double b) { return double(a < b); }), "lt"); break;
        case 5: step<R>(c, Z > B, map2<R>(z, y, [] (double a, double b) { return double(a > b); }), "gt"); break;
        case 6: step<R>(c, Z && B, map2<R>(z, y, [] (double a, double b) { return double(a && b); }), "and"); break;
        default: step<R>(c, Z || B, map2<R>(z, y, [] (double a, double b) { return double(a || b); }), "or"); break; } break; }
    case 8: step<R>(c, -A, map1<R>(r, [] (double a) { return -a; }), "negate"); break;
    case 9: step<R>(c, rng.chance(0.5) ? erase<R>(! A) : erase<R>(+ (! A)), map1<R>(r, [] (double a) { return double(! a); }), "not"); break;
    case 10: { auto y = random_ref<R>(rng, r.shape); auto B = to_nd<R>(y); step<R>(c, nd::zip(A, B, A) | nd::apply([] (double a, double b, double d) { return a - 2 * b + clip(d); }), map2<R>(r, y, [] (double a, double b) { return a - 2 * b + clip(a); }), "zip-apply"); break; }
    case 11: { auto y = random_ref<R>(rng, r.shape); auto B = to_nd<R>(y); auto z = nd::zip(A, B); auto t = nd::unzip(z);
        step<R>(c, nd::get<1>(z) - std::get<0>(t), map2<R>(r, y, [] (double a, double b) { return b - a; }), "zip-unzip-get"); break; }
    case 12: { tup<R> s, f, j, m; for (std::size_t a = 0; a < R; ++a) { s[a] = rng.range(0, r.shape[a]); f[a] = rng.range(s[a], r.shape[a]); j[a] = rng.range(1, 3); m[a] = (f[a] - s[a] + j[a] - 1) / j[a]; }
        auto want = make_ref<R>(m, [&] (tup<R> i) { for (std::size_t a = 0; a < R; ++a) i[a] = s[a] + j[a] * i[a]; return r.at(i); });
        auto P = nd::make_access_pattern(shp<R>(r.shape)).with_start(idx<R>(s)).with_final(idx<R>(f)).with_jumps(jmp<R>(j));
        c.trail += " s" + str<R>(s) + str<R>(f) + str<R>(j);
        if (rng.chance(0.5)) step<R>(c, A | nd::select(P), want, "select"); else step<R>(c, A | nd::select_from(idx<R>(s)).to(idx<R>(f)).jumping(jmp<R>(j)), want, "select-from-to"); break; }
    case 13: { std::size_t s = rng.range(0, n), f = rng.range(s, n), j = rng.range(1, 3); step<R>(c, A | nd::select_axis(axis).from(s).to(f).jumping(j), slice<R>(r, axis, s, f, j), "select-axis"); break; }
    case 14: { std::size_t s = rng.range(0, n), k = rng.range(0, n - s); step<R>(c, A | nd::select_axis(axis).from(s).to(k).from_the_end(), slice<R>(r, axis, s, n - k), "select-axis-from-end"); break; }
    case 15: { if (n < 2) break; long d = rng.range(0, n - 1); step<R>(c, A | nd::shift_by(-int(d)).along_axis(axis), slice<R>(r, axis, d, n), "shift"); break; }
    case 16: { if (n < 2) break; long d = rng.range(1, n - 1); step<R>(c, A | nd::shift_by(int(d)).along_axis(axis), slice<R>(r, axis, 0, n - d), "shift-positive"); break; }
    case 17: { auto s = r.shape; s[axis] = rng.range(0, 4); auto y = random_ref<R>(rng, s); if (volume<R>(s) + r.v.size() > 600) break; auto B = to_nd<R>(y); step<R>(c, A | nd::concat(B | nd::map([] (double x) { return x; })).on_axis(axis), cat<R>(r, y, axis), "concat"); break; }
    case 18: { tup<R> s, f, j, m; for (std::size_t a = 0; a < R; ++a) { s[a] = rng.range(0, r.shape[a]); f[a] = rng.range(s[a], r.shape[a]); j[a] = rng.range(1, 3); m[a] = (f[a] - s[a] + j[a] - 1) / j[a]; }
        auto y = random_ref<R>(rng, m); auto B = to_nd<R>(y);
        auto want = r; for (std::size_t k = 0; k < y.v.size(); ++k) { auto i = unflat<R>(k, m); for (std::size_t a = 0; a < R; ++a) i[a] = s[a] + j[a] * i[a]; want.v[want.off(i)] = y.v[k]; }
        auto P = nd::make_access_pattern(shp<R>(r.shape)).with_start(idx<R>(s)).with_final(idx<R>(f)).with_jumps(jmp<R>(j));
        c.trail += " r" + str<R>(s) + str<R>(f) + str<R>(j);
        if (rng.chance(0.5)) step<R>(c, A | nd::replace(P, B), want, "replace"); else step<R>(c, A | nd::replace_from(idx<R>(s)).to(idx<R>(f)).jumping(jmp<R>(j)).with(B), want, "replace-from-with"); break; }
    case 19: { if (n < 1) break; step<R>(c, A | nd::zip_adjacent2_on_axis(axis) | nd::apply([] (double a, double b) { return a + 2 * b; }), map2<R>(slice<R>(r, axis, 0, n - 1), slice<R>(r, axis, 1, n), [] (double a, double b) { return a + 2 * b; }), "adjacent2"); break; }
    case 20: { if (n < 2) break; auto x = slice<R>(r, axis, 0, n - 2), y = slice<R>(r, axis, 1, n - 1), z = slice<R>(r, axis, 2, n); auto w = x; for (std::size_t k = 0; k < w.v.size(); ++k) w.v[k] = x.v[k] + 2 * y.v[k] - 3 * z.v[k];
        step<R>(c, A | nd::zip_adjacent3_on_axis(axis) | nd::apply([] (double a, double b, double d) { return a + 2 * b - 3 * d; }), w, "adjacent3"); break; }
    case 21: { if (n < 1) break; step<R>(c, A | nd::midpoint_on_axis(axis), map2<R>(slice<R>(r, axis, 0, n - 1), slice<R>(r, axis, 1, n), [] (double a, double b) { return (a + b) * 0.5; }), "midpoint"); break; }
    case 22: { if (n < 1) break; step<R>(c, A | nd::difference_on_axis(axis), map2<R>(slice<R>(r, axis, 0, n - 1), slice<R>(r, axis, 1, n), [] (double a, double b) { return b - a; }), "difference"); break; }
    case 23: { std::size_t g = rng.range(0, n); if (r.v.size() > 300) break; step<R>(c, A | nd::extend_periodic_on_axis(axis, g), cat<R>(cat<R>(slice<R>(r, axis, n - g, n), r, axis), slice<R>(r, axis, 0, g), axis), "extend-periodic"); break; }
    case 24: { if (n < 1 || r.v.size() > 300) break; step<R>(c, A | nd::extend_zero_gradient(axis), cat<R>(cat<R>(slice<R>(r, axis, 0, 1), r, axis), slice<R>(r, axis, n - 1, n), axis), "extend-zero-gradient"); break; }
    case 25: { if (n < 1 || r.v.size() > 300) break; auto zero = map1<R>(slice<R>(r, axis, 0, 1), [] (double) { return 0.0; }); step<R>(c, A | nd::extend_zeros(axis), cat<R>(cat<R>(zero, r, axis), zero, axis), "extend-zeros"); break; }
    case 26: { std::size_t k = rng.range(0, n);
        switch (rng.range(0, 5)) {
        case 0: step<R>(c, A | nd::select_first(k, axis), slice<R>(r, axis, 0, k), "select-first"); break;
        case 1: step<R>(c, A | nd::select_final(k, axis), slice<R>(r, axis, n - k, n), "select-final"); break;
        case 2: if (n) step<R>(c, A | nd::take_first_on_axis(axis), slice<R>(r, axis, 0, 1), "take-first"); break;
        case 3: if (n) step<R>(c, A | nd::take_final_on_axis(axis), slice<R>(r, axis, n - 1, n), "take-final"); break;
        case 4: if (n) step<R>(c, A | nd::drop_first_on_axis(axis), slice<R>(r, axis, 1, n), "drop-first"); break;
        default: if (n) step<R>(c, A | nd::drop_final_on_axis(axis), slice<R>(r, axis, 0, n - 1), "drop-final"); break; } break; }
    case 27: step<R>(c, A | nd::bounds_check(), r, "bounds-check"); break;
    case 28: { // gather through an array of indexes; and where()
        if (rng.chance(0.5)) { auto W = A > 0.0; auto L = nd::where(W); ref_t<1> want; for (auto x : r.v) if (x > 0) want.v.push_back(x); want.shape = {want.v.size()};
            step<1>(c, A | nd::read_indexes(L), want, "where-read-indexes"); }
        else if (! r.v.empty()) { auto m = random_shape<2>(rng); std::vector<std::size_t> pick(volume<2>(m)); for (auto& p : pick) p = rng.range(0, r.v.size() - 1);
            auto I = nd::make_unique_array<nd::index_t<R>>(shp<2>(m)); for (std::size_t k = 0; k < pick.size(); ++k) I(idx<2>(unflat<2>(k, m))) = idx<R>(unflat<R>(pick[k], r.shape));
            ref_t<2> want { m, {} }; for (auto p : pick) want.v.push_back(r.v[p]);
            step<2>(c, A | nd::read_indexes(std::move(I).shared()), want, "read-indexes"); } break; }
    case 29: // to and fro between ranks through reshape of owned storage
        { if (r.v.size() > 400) break; auto s = A | nd::to_shared(); ref_t<1> want { {r.v.size()}, r.v };
          if (rng.chance(0.5)) step<1>(c, s | nd::reshape(r.v.size()), want, "reshape-flat");
          else { std::size_t f = 1; for (std::size_t d = 2; d <= 5; ++d) if (r.v.size() % d == 0 && rng.chance(0.7)) { f = d; break; } ref_t<2> w { {f, r.v.size() / f}, r.v }; auto u = A | nd::to_unique(); step<2>(c, u.shared() | nd::reshape(f, r.v.size() / f), w, "reshape"); } break; }
    case 30: { auto I = nd::index_array(shp<R>(r.shape)); step<R>(c, A + (I | nd::map([] (auto i) { double s = 0; for (std::size_t a = 0; a < R; ++a) s = s * 7 + i[a]; return s; })), make_ref<R>(r.shape, [&] (tup<R> i) { double s = 0; for (auto x : i) s = s * 7 + x; return r.at(i) + s; }), "index-array"); break; }
    case 31: // reductions
        { double s = 0; bool all = true, any = false; for (auto x : r.v) { s += x; all &= bool(x); any |= bool(x); }
          VP_CHECK(double(A | nd::sum()) == s, "sum", "sum %g want %g", double(A | nd::sum()), s);
          VP_CHECK((A | nd::all()) == all && (A | nd::any()) == any, "all-any", "all/any of %zu elements", r.v.size());
          std::size_t pos = 0; for (auto x : r.v) pos += x > 0;
          VP_CHECK(((A > 0.0) | nd::sum()) == pos, "sum-bool", "count of positives");
          if (! r.v.empty()) VP_CHECK((A | nd::min()) == *std::min_element(r.v.begin(), r.v.end()) && (A | nd::max()) == *std::max_element(r.v.begin(), r.v.end()), "min-max", "min %g max %g", double(A | nd::min()), double(A | nd::max()));
          if (! r.v.empty()) { auto k = rng.range(0, r.v.size() - 1); VP_CHECK((A | nd::read_index(idx<R>(unflat<R>(k, r.shape)))) == r.v[k], "read-index", "read_index"); }
          vp::observe("reduction"); break; }
    case 32: if constexpr (R > 1) { // freeze an axis
          if (n < 1) break; std::size_t at = rng.range(0, n - 1); tup<R - 1> s; for (std::size_t a = 0, b = 0; a < R; ++a) if (a != axis) s[b++] = r.shape[a];
          auto want = make_ref<R - 1>(s, [&] (tup<R - 1> i) { tup<R> k; for (std::size_t a = 0, b = 0; a < R; ++a) k[a] = a == axis ? at : i[b++]; return r.at(k); });
          step<R - 1>(c, A | nd::freeze_axis(axis).at_index(at), want, "freeze-axis"); } break;
    default: if constexpr (R > 1) { // reduce along an axis
          tup<R - 1> s; for (std::size_t a = 0, b = 0; a < R; ++a) if (a != axis) s[b++] = r.shape[a];
          int which = rng.range(0, 2); if (n < 1) which = 0;
          auto want = make_ref<R - 1>(s, [&] (tup<R - 1> i) { tup<R> k; double acc = 0; for (std::size_t q = 0; q < n; ++q) { for (std::size_t a = 0, b = 0; a < R; ++a) k[a] = a == axis ? q : i[b++]; double x = r.at(k); acc = which == 0 ? acc + x : q == 0 ? x : which == 1 ? std::min(acc, x) : std::max(acc, x); } return acc; });
          if (which == 0) step<R - 1>(c, A | nd::collect(nd::sum()).along_axis(axis), want, "collect-sum");
          if (which == 1) step<R - 1>(c, A | nd::collect(nd::min()).along_axis(axis), want, "collect-min");
          if (which == 2) step<R - 1>(c, A | nd::collect(nd::max()).along_axis(axis), want, "collect-max"); }
        else { // products raise the rank again
          if (r.v.size() > 20) break; auto y = random_ref<1>(rng, random_shape<1>(rng)); if (y.v.size() > 9) break; auto B = to_nd<1>(y);
          tup<2> s {r.v.size(), y.v.size()};
          if (rng.chance(0.3)) { auto z = random_ref<1>(rng, {std::size_t(rng.range(0, 4))}); auto Z = to_nd<1>(z); tup<3> s3 {r.v.size(), y.v.size(), z.v.size()};
              step<3>(c, nd::cartesian_product(A, B, Z) | nd::apply([] (double a, double b, double d) { return a + 2 * b - d; }), make_ref<3>(s3, [&] (tup<3> i) { return r.v[i[0]] + 2 * y.v[i[1]] - z.v[i[2]]; }), "cartesian-product-3"); }
          else if (rng.chance(0.5)) step<2>(c, nd::cartesian_product(A, B) | nd::apply([] (double a, double b) { return a + 2 * b; }), make_ref<2>(s, [&] (tup<2> i) { return r.v[i[0]] + 2 * y.v[i[1]]; }), "cartesian-product");
          else { auto g = nd::meshgrid(A, B); step<2>(c, std::get<0>(g) - std::get<1>(g), make_ref<2>(s, [&] (tup<2> i) { return r.v[i[0]] - y.v[i[1]]; }), "meshgrid"); } }
        break;
    }
}

// compiled in four pieces: the per-rank operation tables (c03_part*.cpp) and the sections
#ifdef VP_PART
template void one_step<VP_PART>(chain_t&, vp::rng_t&);
#else
extern template void one_step<1>(chain_t&, vp::rng_t&);
extern template void one_step<2>(chain_t&, vp::rng_t&);
extern template void one_step<3>(chain_t&, vp::rng_t&);

template<std::size_t R> static void chain_case(vp::rng_t& rng)
{
    chain_t c;
    auto base = random_ref<R>(rng, random_shape<R>(rng));
    auto owned = to_nd<R>(base);
    c.trail = "base" + str<R>(base.shape);
    vp::context(c.trail);
    c.set<R>(base, erase<R>(owned));
    int steps = rng.range(1, 7);
    for (int k = 0; k < steps && c.ok; ++k)
    {
        if (c.rank == 1) one_step<1>(c, rng);
        else if (c.rank == 2) one_step<2>(c, rng);
        else one_step<3>(c, rng);
    }
    // no operation changed its operand
    for (std::size_t k = 0; k < base.v.size(); ++k) if (! VP_CHECK(owned.data()[k] == base.v[k], "operand-changed", "element %zu of the original array changed", k)) break;
    vp::signature(c.trail);
}
VP_SECTION("chains-1d", 8000, 60000) { chain_case<1>(rng); }
VP_SECTION("chains-2d", 8000, 60000) { chain_case<2>(rng); }
VP_SECTION("chains-3d", 6000, 30000) { chain_case<3>(rng); }

// ---------------------------------------------------------------------------
// incompatible operands and out-of-range selections are refused
template<std::size_t R> static void reject_case(vp::rng_t& rng)
{
    tup<R> s; for (auto& x : s) x = rng.range(1, 6);
    auto t = s; std::size_t axis = rng.range(0, R - 1); t[axis] += rng.range(1, 3);
    auto A = to_nd<R>(random_ref<R>(rng, s)); auto B = to_nd<R>(random_ref<R>(rng, t));
    std::size_t n = s[axis], beyond = n + rng.range(1, 4), badaxis = R + rng.range(0, 3);
    vp::context("shape" + str<R>(s) + " other" + str<R>(t) + vp::fmt(" axis %zu", axis));
    auto reject = [&] (const char* name, auto&& f) { VP_CHECK(vp::throws_as<std::logic_error>(f), std::string("accepted/") + name, "%s was not refused", name); vp::observe("rejected"); };
    reject("add", [&] { A + B; });
    reject("compare", [&] { A == B; });
    reject("zip", [&] { nd::zip(A, B); });
    if (R > 1) reject("concat-shape", [&] { A | nd::concat(B).on_axis((axis + 1) % R); });
    reject("concat-axis", [&] { A | nd::concat(A).on_axis(badaxis); });
    reject("replace-shape", [&] { B | nd::replace(nd::make_access_pattern(shp<R>(t)), A); });
    reject("replace-outside", [&] { A | nd::replace(nd::make_access_pattern(shp<R>(t)), B); });
    reject("reshape", [&] { A | nd::reshape(volume<R>(s) + rng.range(1, 5)); });
    { auto f = idx<R>(s); f[axis] = beyond; reject("select", [&] { A | nd::select(nd::make_access_pattern(shp<R>(s)).with_final(f)); }); reject("select-from-to", [&] { A | nd::select_from(nd::make_uniform_index<R>(0)).to(f); }); }
    reject("select-axis", [&] { A | nd::select_axis(axis).from(0).to(beyond); });
    reject("select-axis-reversed", [&] { A | nd::select_axis(axis).from(n).to(n - 1); });
    reject("select-axis-from-end", [&] { A | nd::select_axis(axis).from(0).to(beyond).from_the_end(); });
    reject("select-axis-start", [&] { A | nd::select_axis(axis).from(beyond).to(0).from_the_end(); });
    reject("select-axis-axis", [&] { A | nd::select_axis(badaxis).from(0).to(1); });
    reject("select-first", [&] { A | nd::select_first(beyond, axis); });
    reject("select-final", [&] { A | nd::select_final(beyond, axis); });
    reject("shift", [&] { A | nd::shift_by(-int(beyond)).along_axis(axis); });
    reject("shift-axis", [&] { A | nd::shift_by(-1).along_axis(badaxis); });
    if constexpr (R > 1)
    {
        reject("freeze-axis", [&] { A | nd::freeze_axis(badaxis).at_index(0); });
        reject("freeze-index", [&] { A | nd::freeze_axis(axis).at_index(beyond - 1); });
        reject("collect-axis", [&] { A | nd::collect(nd::sum()).along_axis(badaxis); });
    }
    { auto i = nd::make_uniform_index<R>(0); i[axis] = n + rng.range(0, 3); auto C = A | nd::bounds_check(); VP_CHECK(vp::throws_as<std::out_of_range>([&] { C(i); }), "accepted/bounds-check", "read outside a bounds-checked array"); }
    // the same number of elements in another shape; one odd operand among several; fewer elements than there are
    if constexpr (R > 1) { auto w = s; std::swap(w[axis], w[(axis + 1) % R]); if (w != s) { auto C = to_nd<R>(random_ref<R>(rng, w)); reject("add-same-volume", [&] { A * C; }); reject("less-same-volume", [&] { A < C; }); reject("zip-same-volume", [&] { nd::zip(A, C); }); vp::observe("same-volume"); } }
    reject("zip-middle", [&] { nd::zip(A, B, A); }); reject("zip-last", [&] { nd::zip(A, A, B); }); reject("zip-first", [&] { nd::zip(B, A, A); });
    if (volume<R>(s) > 1) reject("reshape-fewer", [&] { A | nd::reshape(volume<R>(s) - rng.range(1, int(volume<R>(s)) - 1)); });
    if constexpr (R > 1) { tup<R> b = s, f = s; std::size_t other = (axis + 1) % R; b[other] = f[other] - 1; f[other] = b[other]; b[axis] = 0; f[axis] = n + 1 + rng.range(0, 3); reject("select-empty-outside", [&] { A | nd::select(nd::make_access_pattern(shp<R>(s)).with_start(idx<R>(b)).with_final(idx<R>(f))); }); }
    reject("storage-larger", [&] { nd::buffer_t<double> m(volume<R>(s) + rng.range(1, 4)); nd::unique_provider_t<double, R>(shp<R>(s), std::move(m)); });
    reject("storage-smaller", [&] { nd::buffer_t<double> m(volume<R>(s) - 1); nd::unique_provider_t<double, R>(shp<R>(s), std::move(m)); });
    // too few points for the stencil
    tup<R> one = s; one[axis] = 1; auto O = to_nd<R>(random_ref<R>(rng, one));
    reject("adjacent3-short", [&] { O | nd::zip_adjacent3_on_axis(axis); });
    vp::signature("reject" + str<R>(s) + str<R>(t));
}
VP_SECTION("reject", 300, 4000) { reject_case<1>(rng); reject_case<2>(rng); reject_case<3>(rng); }

// ---------------------------------------------------------------------------
// owned storage: value semantics of shared and unique arrays
struct counted_t { static long live; double x = 0; counted_t(double x=0) : x(x) { ++live; } counted_t(const counted_t& o) : x(o.x) { ++live; } counted_t& operator=(const counted_t&) = default; ~counted_t() { --live; } };
long counted_t::live = 0;

VP_SECTION("storage", 1500, 30000)
{
    auto s = random_shape<2>(rng); auto r = random_ref<2>(rng, s); auto n = r.v.size();
    vp::context("storage" + str<2>(s));
    auto u = nd::make_unique_array<double>(shp<2>(s));
    for (std::size_t k = 0; k < n; ++k) VP_CHECK(u.data()[k] == 0.0, "unique-initialised", "new array not value-initialised");
    for (std::size_t k = 0; k < n; ++k) u(idx<2>(unflat<2>(k, s))) = r.v[k];
    auto sh = u.shared();                     // a copy
    auto lz = sh | nd::map([] (double x) { return x + 1; });
    auto ev = lz | nd::to_shared();
    for (std::size_t k = 0; k < n; ++k) u(idx<2>(unflat<2>(k, s))) = -77.0;
    for (std::size_t k = 0; k < n; ++k) if (! VP_CHECK(sh.data()[k] == r.v[k] && ev.data()[k] == r.v[k] + 1, "shared-aliases-unique", "writing to the unique array changed a shared copy")) break;
    auto u2 = sh.unique();                    // copy back out
    if (n) { auto k = rng.range(0, n - 1); u2(idx<2>(unflat<2>(k, s))) = 1e9; VP_CHECK(sh.data()[k] == r.v[k], "unique-aliases-shared", "writing to a unique copy changed the shared array"); }
    auto moved = std::move(u);
    for (std::size_t k = 0; k < n; ++k) if (! VP_CHECK(moved.data()[k] == -77.0, "unique-move", "moved array lost its values")) break;
    auto sh2 = std::move(moved).shared();
    matches<2>(sh2, make_ref<2>(s, [] (auto) { return -77.0; }), "shared-from-moved");
    // reassignment through moves
    auto x = nd::make_unique_array<double>(shp<2>(s)); x = std::move(u2); VP_CHECK(x.size() == n, "unique-move-assign", "size");
    // element lifetimes
    {
        long before = counted_t::live;
        { auto c = nd::make_unique_array<counted_t>(shp<2>(s)); auto d = c.shared(); auto e = d | nd::to_shared(); auto f = std::move(c).shared(); auto g = f; VP_CHECK(counted_t::live >= before + long(3 * n) - 0 || n == 0, "element-lifetime", "too few live elements"); }
        VP_CHECK(counted_t::live == before, "element-lifetime", "%ld elements leaked", counted_t::live - before);
        vp::observe("lifetime");
    }
    // raw storage: filled, copied, moved and assigned over
    {
        long before = counted_t::live; double fill = rng.uniform(-9, 9); std::size_t m = rng.range(0, 40), m2 = rng.range(0, 40);
        { nd::buffer_t<counted_t> p(m, counted_t(fill)), q(m2, counted_t(fill + 1)); bool same = p.size() == m && q.size() == m2; for (std::size_t k = 0; k < m; ++k) same = same && p[k].x == fill; VP_CHECK(same, "storage-filled", "filled storage of %zu", m);
          nd::buffer_t<counted_t> c(p.begin(), p.end()); VP_CHECK(counted_t::live == before + long(2 * m + m2), "element-lifetime", "%ld elements live, expected %zu", counted_t::live - before, 2 * m + m2);
          q = std::move(c); same = q.size() == m; for (std::size_t k = 0; same && k < m; ++k) same = q[k].x == fill; VP_CHECK(same, "storage-assigned", "storage lost its values"); VP_CHECK(counted_t::live == before + long(2 * m), "element-lifetime", "%ld elements live after assignment, expected %zu", counted_t::live - before, 2 * m); }
        VP_CHECK(counted_t::live == before, "element-lifetime", "%ld elements leaked by raw storage", counted_t::live - before); vp::observe("raw-storage");
        auto w = nd::make_unique_array<double>(shp<2>(s)); for (std::size_t k = 0; k < n; ++k) w(idx<2>(unflat<2>(k, s))) = r.v[k];
        auto taken = nd::make_array(w.get_provider().shared()); auto folded = nd::make_array(w.get_provider().reshape(nd::make_shape(n))); bool kept = w.size() == n && (n == 0 || w.data()); for (std::size_t k = 0; kept && k < n; ++k) kept = w.data()[k] == r.v[k] && taken.data()[k] == r.v[k] && folded.data()[k] == r.v[k]; VP_CHECK(kept, "shared-takes-unique", "sharing a unique array emptied it");
    }
    // truth of numbers, and counts of more than fit a byte
    {
        auto count = rng.range(0, 900); auto flag = nd::make_array([] (auto i) { return i[0] % 2 == 0 || i[0] > 5; }, nd::make_shape(std::size_t(count))); unsigned long want = 0; for (int k = 0; k < count; ++k) want += k % 2 == 0 || k > 5; VP_CHECK((flag | nd::sum()) == want, "sum-of-bools", "%lu of %d, expected %lu", (unsigned long) (flag | nd::sum()), count, want);
        std::vector<std::size_t> at; for (std::size_t k = 0; k < n; ++k) if (r.v[k] != 0) at.push_back(k); auto found = nd::where(sh); if (VP_CHECK(found.size() == at.size(), "where-numbers", "%zu indexes, expected %zu", found.size(), at.size())) for (std::size_t k = 0; k < at.size(); ++k) if (! VP_CHECK(found(k) == idx<2>(unflat<2>(at[k], s)), "where-numbers", "index %zu", k)) break;
        vp::observe("truth");
    }
    // sources
    std::vector<double> src; for (auto q : r.v) src.push_back(q);
    matches<1>(nd::make_array_from(src), ref_t<1> { {n}, src }, "make-array-from");
    matches<2>(nd::zeros<double>(s[0], s[1]), make_ref<2>(s, [] (auto) { return 0.0; }), "zeros");
    matches<2>(nd::ones<double>(s[0], s[1]), make_ref<2>(s, [] (auto) { return 1.0; }), "ones");
    matches<2>(nd::promote(3.5, shp<2>(s)), make_ref<2>(s, [] (auto) { return 3.5; }), "promote");
    matches<2>(nd::promote(sh, shp<2>(s)), r, "promote-array");
    vp::signature("storage" + str<2>(s) + (n ? std::to_string(r.v[0]) : ""));
}

// ranges: arange [start, start + step .. final), linspace inclusive of both ends
VP_SECTION("ranges", 3000, 60000)
{
    int n = rng.range(0, 40);
    matches<1>(nd::arange(n), make_ref<1>({std::size_t(n)}, [] (tup<1> i) { return double(i[0]); }), "arange-count");
    int a = rng.range(-20, 20), step = rng.range(1, 7) * (rng.chance(0.3) ? -1 : 1), len = rng.range(0, 30), b = step > 0 ? a + len : a - len;
    vp::context(vp::fmt("arange(%d, %d, %d)", a, b, step));
    ref_t<1> w; for (int i = a; step > 0 ? i < b : i > b; i += step) w.v.push_back(i); w.shape = {w.v.size()};
    matches<1>(nd::arange(a, b, step), w, "arange");
    VP_CHECK(vp::throws([&] { nd::arange(a, b, 0); }), "accepted/arange-zero-step", "zero step accepted");
    if (len >= std::abs(step)) VP_CHECK(vp::throws([&] { nd::arange(b, a, step); }), "accepted/arange-wrong-way", "range running the wrong way accepted");
    double x0 = rng.uniform(-3, 3), x1 = rng.uniform(-3, 3); std::size_t m = rng.range(1, 40);
    vp::context(vp::fmt("linspace(%.17g, %.17g, %zu)", x0, x1, m));
    auto L = nd::linspace(x0, x1, m);
    VP_CHECK(L.size() == m, "linspace-size", "size %zu", L.size());
    for (std::size_t i = 0; i < m; ++i) if (! VP_CHECK(vp::close(L(i), m == 1 ? x0 : x0 + (x1 - x0) * double(i) / double(m - 1), 1e-14, 1e-14), "linspace-value", "element %zu is %g", i, L(i))) break;
    vp::observe("range");
    vp::signature(vp::fmt("arange(%d, %d, %d) linspace %zu", a, b, step, m));
}

VP_MAIN()
#endif
