// C19: sequences, tuples, quantities, unit vectors, matrices against plain loops.
#include "vp.hpp"
#include <array>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <tuple>
#include "core_sequence.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#include "core_geometric.hpp"
#include "core_matrix.hpp"

template<std::size_t N> using seq = mara::arithmetic_sequence_t<double, N>;
template<std::size_t N> struct derived_t : public mara::derivable_sequence_t<double, N, derived_t<N>> {};
static double draw(vp::rng_t& rng) { return rng.chance(0.15) ? 0.0 : double(rng.range(-40, 40)) / 4; }
static double draw_nz(vp::rng_t& rng) { double x = draw(rng); return x == 0 ? 1.25 : x; }
template<std::size_t N> static seq<N> rnd(vp::rng_t& rng, bool nz=false) { seq<N> s; for (std::size_t i = 0; i < N; ++i) s[i] = nz ? draw_nz(rng) : draw(rng); return s; }

template<typename S, typename F> static void each(const S& s, std::size_t n, const char* op, F want)
{
    VP_CHECK(s.size() == n, std::string("length/") + op, "%s", op);
    for (std::size_t i = 0; i < n; ++i) if (! VP_CHECK(double(s[i]) == double(want(i)), std::string("component/") + op, "%s: component %zu of %zu is %g, want %g", op, i, n, double(s[i]), double(want(i)))) break;
    vp::observe("components", n);
}

template<std::size_t N> static void sequence_case(vp::rng_t& rng)
{
    auto a = rnd<N>(rng), b = rnd<N>(rng), d = rnd<N>(rng, true); double k = draw_nz(rng);
    for (std::size_t i = 0; i < N; ++i) if (rng.chance(0.3)) b[i] = a[i];
    std::string sig; for (auto x : a) sig += vp::fmt("%g ", x); sig += "| "; for (auto x : b) sig += vp::fmt("%g ", x); vp::context(sig);
    each(a + b, N, "add", [&] (auto i) { return a[i] + b[i]; }); each(a - b, N, "subtract", [&] (auto i) { return a[i] - b[i]; });
    each(a * b, N, "multiply", [&] (auto i) { return a[i] * b[i]; }); each(a / d, N, "divide", [&] (auto i) { return a[i] / d[i]; });
    each(a + k, N, "add-scalar", [&] (auto i) { return a[i] + k; }); each(a - k, N, "subtract-scalar", [&] (auto i) { return a[i] - k; });
    each(a * k, N, "multiply-scalar", [&] (auto i) { return a[i] * k; }); each(a / k, N, "divide-scalar", [&] (auto i) { return a[i] / k; });
    each(-a, N, "negate", [&] (auto i) { return -a[i]; }); each(+a, N, "plus", [&] (auto i) { return a[i]; });
    each(a == b, N, "eq", [&] (auto i) { return a[i] == b[i]; }); each(a != b, N, "ne", [&] (auto i) { return a[i] != b[i]; });
    each(a < b, N, "lt", [&] (auto i) { return a[i] < b[i]; }); each(a > b, N, "gt", [&] (auto i) { return a[i] > b[i]; });
    each(a <= b, N, "le", [&] (auto i) { return a[i] <= b[i]; }); each(a >= b, N, "ge", [&] (auto i) { return a[i] >= b[i]; });
    each(a && b, N, "and", [&] (auto i) { return a[i] && b[i]; }); each(a || b, N, "or", [&] (auto i) { return a[i] || b[i]; });
    each(a < k, N, "lt-scalar", [&] (auto i) { return a[i] < k; }); each(a >= k, N, "ge-scalar", [&] (auto i) { return a[i] >= k; });
    double s = 0, mn = a[0], mx = a[0]; bool all = true, any = false;
    for (auto x : a) { s += x; mn = std::min(mn, x); mx = std::max(mx, x); all &= x != 0; any |= x != 0; }
    VP_CHECK(a.sum() == s, "sum", "sum %g want %g", a.sum(), s); VP_CHECK(a.min() == mn && a.max() == mx, "min-max", "%g %g want %g %g", a.min(), a.max(), mn, mx);
    VP_CHECK(a.all() == all && a.any() == any, "all-any", "all/any");
    int calls = 0; each(a.map([&] (double x) { ++calls; return 3 * x + 1; }), N, "map", [&] (auto i) { return 3 * a[i] + 1; }); VP_CHECK(calls == int(N), "map-calls", "%d calls for %zu components", calls, N);
    each(a.reverse(), N, "reverse", [&] (auto i) { return a[N - 1 - i]; });
    std::size_t at = rng.range(0, N - 1);
    each(a.set(at, k), N, "set", [&] (auto i) { return i == at ? k : a[i]; }); each(a.update(at, [] (double x) { return x * 2 - 1; }), N, "update", [&] (auto i) { return i == at ? a[i] * 2 - 1 : a[i]; });
    VP_CHECK(a.head() == a[0] && a.last() == a[N - 1] && a.at(at) == a[at], "head-last-at", "access");
    VP_CHECK(vp::throws_as<std::out_of_range>([&] { a.at(N + rng.range(0, 2)); }), "at-range", "at() beyond the end accepted");
    each(a.append(k), N + 1, "append", [&] (auto i) { return i < N ? a[i] : k; }); each(a.prepend(k), N + 1, "prepend", [&] (auto i) { return i ? a[i - 1] : k; });
    auto c3 = rnd<3>(rng); each(a.concat(c3), N + 3, "concat", [&] (auto i) { return i < N ? a[i] : c3[i - N]; });
    if constexpr (N > 1) { each(a.init(), N - 1, "init", [&] (auto i) { return a[i]; }); each(a.tail(), N - 1, "tail", [&] (auto i) { return a[i + 1]; }); }
    each(mara::iota<N>(), N, "iota", [&] (auto i) { return double(i); });
    std::size_t n = 0; for (auto x : a) { if (n < N) VP_CHECK(x == a[n], "iteration", "order"); ++n; } VP_CHECK(n == N, "iteration", "count");
    // transpose of a sequence of sequences
    mara::arithmetic_sequence_t<seq<3>, N> m; for (std::size_t i = 0; i < N; ++i) m[i] = rnd<3>(rng); auto t = m.transpose();
    VP_CHECK(t.size() == 3 && t[0].size() == N, "transpose-shape", "shape"); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3; ++j) VP_CHECK(t[j][i] == m[i][j], "transpose", "(%zu, %zu)", i, j);
    // functions applied componentwise
    mara::arithmetic_sequence_t<std::function<double(double)>, N> fs; for (std::size_t i = 0; i < N; ++i) fs[i] = [i] (double x) { return x + 10.0 * i; };
    each(fs.apply_to(a), N, "apply-to", [&] (auto i) { return a[i] + 10.0 * i; });
    auto L = mara::lift([] (double x, double y, double z) { return x - 2 * y + 4 * z; }); each(L(a, b, d), N, "lift", [&] (auto i) { return a[i] - 2 * b[i] + 4 * d[i]; });
    // derived sequences
    derived_t<N> p, q; for (std::size_t i = 0; i < N; ++i) { p[i] = a[i]; q[i] = b[i]; }
    each(p + q, N, "derived-add", [&] (auto i) { return a[i] + b[i]; }); each(p - q, N, "derived-subtract", [&] (auto i) { return a[i] - b[i]; });
    each(p * k, N, "derived-multiply", [&] (auto i) { return a[i] * k; }); each(p / k, N, "derived-divide", [&] (auto i) { return a[i] / k; }); each(-p, N, "derived-negate", [&] (auto i) { return -a[i]; }); each(+p, N, "derived-plus", [&] (auto i) { return a[i]; });
    // factors that need all digits of a double
    double fine = rng.uniform(0.5, 2.0) + 1e-13; each(p * fine, N, "derived-multiply-fine", [&] (auto i) { return a[i] * fine; }); each(p / fine, N, "derived-divide-fine", [&] (auto i) { return a[i] / fine; }); each(a * fine, N, "multiply-fine", [&] (auto i) { return a[i] * fine; }); each(a / fine, N, "divide-fine", [&] (auto i) { return a[i] / fine; });
    bool eq = true; for (std::size_t i = 0; i < N; ++i) eq = eq && a[i] == b[i];
    VP_CHECK((p == q) == eq && (p != q) == ! eq, "derived-equality", "equality"); auto p2 = p; VP_CHECK(p2 == p && ! (p2 != p), "derived-equality", "copy"); p2[at] += 1; VP_CHECK(p2 != p && ! (p2 == p), "derived-equality", "copy changed in component %zu", at);
    VP_CHECK(vp::throws_as<std::out_of_range>([&] { p.at(N); }), "at-range", "derived at() beyond the end accepted");
    std::string txt = "( "; for (auto x : a) txt += std::to_string(x) + " "; VP_CHECK(mara::to_string(a) == txt + ")", "text", "%s", mara::to_string(a).c_str());
    // operands untouched
    std::string sig2; for (auto x : a) sig2 += vp::fmt("%g ", x); sig2 += "| "; for (auto x : b) sig2 += vp::fmt("%g ", x); VP_CHECK(sig == sig2, "operand-changed", "operands changed");
    vp::signature(sig);
}
VP_SECTION("sequence", 1500, 60000) { sequence_case<1>(rng); sequence_case<2>(rng); sequence_case<3>(rng); sequence_case<4>(rng); sequence_case<5>(rng); sequence_case<7>(rng); }

// ---------------------------------------------------------------------------
template<typename T, std::size_t... I, typename F> static void each_t(const T& t, std::index_sequence<I...>, const char* op, F want)
{
    int dummy[] = { (VP_CHECK(double(mara::get<I>(t)) == double(want(I)), std::string("tuple/") + op, "%s: component %zu is %g want %g", op, I, double(mara::get<I>(t)), double(want(I))), 0)... }; (void) dummy;
    vp::observe("components", sizeof...(I));
}
struct dtuple_t : public mara::derivable_tuple_t<dtuple_t, double, int, double> {};

VP_SECTION("tuple", 3000, 80000)
{
    double a[5], b[5]; for (auto& x : a) x = draw(rng); for (auto& x : b) x = draw_nz(rng); double k = draw_nz(rng);
    a[1] = rng.range(-9, 9); b[1] = rng.range(1, 9); if (rng.chance(0.3)) b[2] = a[2];
    vp::context(vp::fmt("%g %g %g %g | %g %g %g %g", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]));
    auto s = mara::make_arithmetic_tuple(a[0], int(a[1]), a[2], float(a[3])); auto t = mara::make_arithmetic_tuple(b[0], int(b[1]), b[2], float(b[3]));
    auto I = std::make_index_sequence<4>();
    each_t(s, I, "get", [&] (int i) { return a[i]; });
    each_t(s + t, I, "add", [&] (int i) { return a[i] + b[i]; }); each_t(s - t, I, "subtract", [&] (int i) { return a[i] - b[i]; }); each_t(s * t, I, "multiply", [&] (int i) { return a[i] * b[i]; });
    each_t(s * k, I, "multiply-scalar", [&] (int i) { return a[i] * k; }); each_t(s / k, I, "divide-scalar", [&] (int i) { return a[i] / k; }); each_t(s + k, I, "add-scalar", [&] (int i) { return a[i] + k; }); each_t(s - k, I, "subtract-scalar", [&] (int i) { return a[i] - k; });
    each_t(-s, I, "negate", [&] (int i) { return -a[i]; }); each_t(+s, I, "plus", [&] (int i) { return a[i]; });
    each_t(s < t, I, "lt", [&] (int i) { return a[i] < b[i]; }); each_t(s > t, I, "gt", [&] (int i) { return a[i] > b[i]; }); each_t(s <= t, I, "le", [&] (int i) { return a[i] <= b[i]; }); each_t(s >= t, I, "ge", [&] (int i) { return a[i] >= b[i]; });
    each_t(s == t, I, "eq", [&] (int i) { return a[i] == b[i]; }); each_t(s != t, I, "ne", [&] (int i) { return a[i] != b[i]; }); each_t(s && t, I, "and", [&] (int i) { return a[i] && b[i]; }); each_t(s || t, I, "or", [&] (int i) { return a[i] || b[i]; });
    each_t(s.map([] (auto x) { return 2.0 * x + 1; }), I, "map", [&] (int i) { return 2 * a[i] + 1; });
    each_t(s.set<0>(k), I, "set0", [&] (int i) { return i == 0 ? k : a[i]; }); each_t(s.set<2>(k), I, "set2", [&] (int i) { return i == 2 ? k : a[i]; }); each_t(s, I, "unchanged", [&] (int i) { return a[i]; });
    auto q = s.to_sequence(); VP_CHECK(q.size() == 4, "to-sequence", "size"); for (int i = 0; i < 4; ++i) VP_CHECK(q[i] == a[i], "to-sequence", "component %d", i);
    dtuple_t x { { mara::make_arithmetic_tuple(a[0], int(a[1]), a[2]) } }, y { { mara::make_arithmetic_tuple(b[0], int(b[1]), b[2]) } };
    auto J = std::make_index_sequence<3>();
    each_t((x + y).__impl, J, "derived-add", [&] (int i) { return a[i] + b[i]; }); each_t((x - y).__impl, J, "derived-subtract", [&] (int i) { return a[i] - b[i]; }); each_t((-x).__impl, J, "derived-negate", [&] (int i) { return -a[i]; }); each_t((+x).__impl, J, "derived-plus", [&] (int i) { return a[i]; });
    int n = rng.range(1, 5); each_t((x * n).__impl, J, "derived-multiply", [&] (int i) { return a[i] * n; });
    bool eq = a[0] == b[0] && int(a[1]) == int(b[1]) && a[2] == b[2]; VP_CHECK((x == y) == eq && (x != y) == ! eq && x == x && ! (x != x), "derived-tuple-equality", "equality");
    vp::signature(vp::S().context);
}

// ---------------------------------------------------------------------------
// which operators exist between two types
#define VP_OPERATOR(name, op) template<typename A, typename B, typename = void> struct name : std::false_type {}; template<typename A, typename B> struct name<A, B, std::void_t<decltype(std::declval<A&>() op std::declval<B>())>> : std::true_type {};
VP_OPERATOR(has_plus, +) VP_OPERATOR(has_minus, -) VP_OPERATOR(has_less, <) VP_OPERATOR(has_more, >) VP_OPERATOR(has_less_equal, <=) VP_OPERATOR(has_more_equal, >=) VP_OPERATOR(has_equal, ==) VP_OPERATOR(has_unequal, !=) VP_OPERATOR(has_add, +=) VP_OPERATOR(has_subtract, -=)
template<typename A, typename B> static bool operators_agree()
{
    bool same = std::is_same<A, B>::value; for (bool b : {has_plus<A, B>::value, has_minus<A, B>::value, has_less<A, B>::value, has_more<A, B>::value, has_less_equal<A, B>::value, has_more_equal<A, B>::value, has_equal<A, B>::value, has_unequal<A, B>::value, has_add<A, B>::value, has_subtract<A, B>::value}) if (b != same) return false;
    return same || ! std::is_convertible<A, B>::value;
}
template<typename A, typename... Bs> static bool operators_agree_with() { return (operators_agree<A, Bs>() && ...); }
template<typename... As> static bool all_operators_agree() { return (operators_agree_with<As, As...>() && ...); }
template<typename Q> static bool dims(const Q& q, int c, int g, int s) { return q.dimensions() == std::make_tuple(c, g, s); }
VP_SECTION("quantities", 4000, 100000)
{
    double x = draw_nz(rng), y = draw_nz(rng), k = draw_nz(rng), pos = rng.log_uniform(1e-6, 1e6);
    vp::context(vp::fmt("x=%g y=%g k=%g", x, y, k));
    auto L = mara::make_length(x); auto L2 = mara::make_length(y); auto T = mara::make_time(y); auto M = mara::make_mass(k);
    VP_CHECK((L + L2).value == x + y && (L - L2).value == x - y && (-L).value == -x && (L * k).value == x * k && (L / k).value == x / k, "quantity-arithmetic", "arithmetic");
    VP_CHECK((L / T).value == x / y && dims(L / T, 1, 0, -1), "quantity-divide", "length / time"); VP_CHECK((L * M).value == x * k && dims(L * M, 1, 1, 0), "quantity-multiply", "length * mass");
    VP_CHECK((L * L2).value == x * y && dims(L * L2, 2, 0, 0) && (L / L2) == x / y, "quantity-ratio", "ratio");
    VP_CHECK(dims(M * L / T / T * L, 2, 1, -2) && (M * L / T / T * L).value == k * x / y / y * x, "quantity-compound", "energy");
    auto pw1 = mara::make_length(pos).pow<2>(); auto pw2 = mara::make_area(pos).pow<1, 2>(); auto pw3 = mara::make_area(pos).pow<3, 2>();
    VP_CHECK(vp::close(pw1.value, std::pow(pos, 2.0), 1e-14) && dims(pw1, 2, 0, 0) && vp::close(pw2.value, std::pow(pos, 0.5), 1e-14) && dims(pw2, 1, 0, 0) && vp::close(pw3.value, std::pow(pos, 1.5), 1e-14) && dims(pw3, 3, 0, 0), "quantity-power", "power of %g", pos);
    { // powers of quantities with negative and several dimensions
        auto v1 = mara::make_velocity(pos).pow<2>(); auto v2 = v1.pow<1, 2>(); auto e1 = mara::make_energy(pos).pow<3>(); auto r1 = mara::make_rate(pos).pow<-1>(); auto f1 = mara::make_flux(pos).pow<-2>(); auto d1 = mara::make_dimensional<-6, 2, -4>(pos).pow<3, 2>(); auto d2 = mara::make_dimensional<4, -6, 8>(pos).pow<-1, 2>();
        VP_CHECK(dims(v1, 2, 0, -2) && dims(v2, 1, 0, -1) && dims(e1, 6, 3, -6) && dims(r1, 0, 0, 1) && dims(f1, 4, -2, 2) && dims(d1, -9, 3, -6) && dims(d2, -2, 3, -4), "quantity-power-dimensions", "%s %s %s %s %s %s %s", mara::to_string(v1).c_str(), mara::to_string(v2).c_str(), mara::to_string(e1).c_str(), mara::to_string(r1).c_str(), mara::to_string(f1).c_str(), mara::to_string(d1).c_str(), mara::to_string(d2).c_str());
        VP_CHECK(vp::close(v1.value, pos * pos, 1e-13) && vp::close(v2.value, pos, 1e-13) && vp::close(e1.value, pos * pos * pos, 1e-13) && vp::close(r1.value, 1 / pos, 1e-13) && vp::close(f1.value, 1 / pos / pos, 1e-13) && vp::close(d1.value, pos * std::sqrt(pos), 1e-13) && vp::close(d2.value, 1 / std::sqrt(pos), 1e-13), "quantity-power", "power of %g", pos);
    }
    if (index == 0) { VP_CHECK((all_operators_agree<mara::unit_length<double>, mara::unit_mass<double>, mara::unit_time<double>, mara::unit_rate<double>, mara::unit_area<double>, mara::unit_volume<double>, mara::unit_velocity<double>, mara::unit_flux<double>, mara::unit_energy<double>, mara::unit_momentum<double>, mara::unit_angmom<double>>()), "quantity-mixed", "sums and comparisons do not exist exactly between quantities of the same dimensions"); vp::observe("dimension-pairs"); }
    VP_CHECK((L < L2) == (x < y) && (L > L2) == (x > y) && (L <= L2) == (x <= y) && (L >= L2) == (x >= y) && (L == L2) == (x == y) && (L != L2) == (x != y), "quantity-order", "order");
    auto A = L; A += L2; VP_CHECK(A.value == x + y, "quantity-assign", "+="); A -= L2; VP_CHECK(A.value == x + y - y, "quantity-assign", "-=");
    VP_CHECK(mara::make_scalar(x).scalar() == x && mara::unit_length<double>().value == 0.0, "quantity-scalar", "scalar");
    VP_CHECK(dims(mara::make_rate(x), 0, 0, -1) && dims(mara::make_area(x), 2, 0, 0) && dims(mara::make_volume(x), 3, 0, 0) && dims(mara::make_velocity(x), 1, 0, -1) && dims(mara::make_flux(x), -2, 1, -1) && dims(mara::make_flow(x), 0, 1, -1) && dims(mara::make_mass_density(x), -3, 1, 0) && dims(mara::make_flow_density(x), -3, 1, -1) && dims(mara::make_energy(x), 2, 1, -2) && dims(mara::make_force(x), 1, 1, -2) && dims(mara::make_momentum(x), 1, 1, -1) && dims(mara::make_torque(x), 2, 1, -2) && dims(mara::make_angmom(x), 2, 1, -1), "quantity-factories", "dimensions");
    VP_CHECK(mara::make_rate(x).value == x && mara::make_flux(x).value == x && mara::make_angmom(x).value == x && mara::make_mass_density(x).value == x, "quantity-factories", "value");
    VP_CHECK(mara::to_string(L / T) == std::to_string(x / y) + " (1 0 -1)", "quantity-text", "%s", mara::to_string(L / T).c_str());
    // sequences of quantities
    auto v = mara::make_spatial_coordinate(x, y, k); auto w = v / T; each(w.map([] (auto q) { return q.value; }), 3, "quantity-sequence", [&] (auto i) { return (i == 0 ? x : i == 1 ? y : k) / y; });
    auto ar = mara::make_area_element(x, y, k); each((ar * L).map([] (auto q) { return q.value; }), 3, "area-element", [&] (auto i) { return (i == 0 ? x : i == 1 ? y : k) * x; });
    vp::signature(vp::S().context);
}

// ---------------------------------------------------------------------------
VP_SECTION("unit-vectors", 5000, 100000)
{
    double n[3]; double scale = rng.log_uniform(1e-3, 1e3); for (auto& x : n) x = rng.chance(0.2) ? 0.0 : rng.uniform(-1, 1) * scale; if (n[0] == 0 && n[1] == 0 && n[2] == 0) n[1] = scale;
    vp::context(vp::fmt("n=(%g %g %g)", n[0], n[1], n[2]));
    mara::unit_vector_t u(n[0], n[1], n[2]); double len = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    VP_CHECK(vp::close(u.get_n1() * u.get_n1() + u.get_n2() * u.get_n2() + u.get_n3() * u.get_n3(), 1.0, 1e-14), "unit-length", "length squared %g", u.get_n1() * u.get_n1() + u.get_n2() * u.get_n2() + u.get_n3() * u.get_n3());
    for (int i = 0; i < 3; ++i) VP_CHECK(vp::close(u[i], n[i] / len, 1e-14, 1e-300), "unit-direction", "component %d is %g", i, u[i]);
    VP_CHECK(u[0] == u.get_n1() && u[1] == u.get_n2() && u[2] == u.get_n3(), "unit-components", "component access");
    double v[3] = {draw(rng), draw(rng), draw(rng)};
    VP_CHECK(vp::close(u.project(v[0], v[1], v[2]), (v[0] * n[0] + v[1] * n[1] + v[2] * n[2]) / len, 1e-12, 1e-12), "unit-project", "projection");
    for (int a = 0; a < 3; ++a) { auto e = mara::unit_vector_t::on_axis(a); VP_CHECK(e.project(v[0], v[1], v[2]) == v[a] && e[a] == 1.0 && e[(a + 1) % 3] == 0.0 && e[(a + 2) % 3] == 0.0, "unit-axis", "axis %d", a); }
    auto e1 = mara::unit_vector_t::on_axis_1(), e2 = mara::unit_vector_t::on_axis_2(), e3 = mara::unit_vector_t::on_axis_3();
    VP_CHECK(e1[0] == 1 && e2[1] == 1 && e3[2] == 1 && mara::unit_vector_t()[0] == 1 && mara::unit_vector_t()[1] == 0 && mara::unit_vector_t()[2] == 0, "unit-axis", "named axes");
    auto s = u * 2.5; for (int i = 0; i < 3; ++i) VP_CHECK(vp::close(s[i], u[i] * 2.5, 1e-15, 0) || s[i] == u[i] * 2.5, "unit-scale", "component %d", i);
    VP_CHECK(vp::throws_as<std::invalid_argument>([&] { mara::unit_vector_t::on_axis(3 + rng.range(0, 4)); }) && vp::throws_as<std::invalid_argument>([&] { u[3]; }), "unit-range", "axis beyond 2 accepted");
    vp::observe("unit-vector"); vp::signature(vp::S().context);
}

// ---------------------------------------------------------------------------
template<std::size_t R, std::size_t C> static mara::matrix_t<double, R, C> rmat(vp::rng_t& rng) { mara::matrix_t<double, R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = draw(rng); return m; }
template<std::size_t R, std::size_t K, std::size_t C> static void matrix_case(vp::rng_t& rng)
{
    auto A = rmat<R, K>(rng), B = rmat<R, K>(rng); auto X = rmat<K, C>(rng); auto Y = rmat<C, 2>(rng); double k = draw_nz(rng);
    std::string sig = vp::fmt("%zux%zux%zu ", R, K, C); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < K; ++j) sig += vp::fmt("%g ", A(i, j)); vp::context(sig);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < K; ++j)
        VP_CHECK((A + B)(i, j) == A(i, j) + B(i, j) && (A - B)(i, j) == A(i, j) - B(i, j) && (A * k)(i, j) == A(i, j) * k && (A / k)(i, j) == A(i, j) / k, "matrix-elementwise", "(%zu, %zu)", i, j);
    auto P = A * X; auto P2 = mara::matrix_product(A, X);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { double s = 0; for (std::size_t m = 0; m < K; ++m) s += A(i, m) * X(m, j); VP_CHECK(P(i, j) == s && P2(i, j) == s, "matrix-product", "(%zu, %zu) is %g want %g", i, j, P(i, j), s); }
    VP_CHECK((A * X) * Y == A * (X * Y), "matrix-associative", "associativity (exact operands)");
    auto idK = mara::identity_matrix<double, K>(); auto idR = mara::identity_matrix<double, R>(); auto zero = mara::zero_matrix<double, R, K>();
    VP_CHECK(A * idK == A && idR * A == A, "matrix-identity", "identity");
    VP_CHECK(A + zero == A && A - A == zero, "matrix-zero", "zero");
    auto D = mara::diagonal_matrix<double>(1.5, -2.0, 3.25); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_CHECK(D(i, j) == (i != j ? 0.0 : i == 0 ? 1.5 : i == 1 ? -2.0 : 3.25), "matrix-diagonal", "(%d, %d)", i, j);
    auto v = rnd<K>(rng); auto col = mara::column_vector(v); auto row = mara::row_vector(v); auto Av = A * col;
    for (std::size_t i = 0; i < R; ++i) { double s = 0; for (std::size_t m = 0; m < K; ++m) s += A(i, m) * v[m]; VP_CHECK(Av(i, 0) == s, "matrix-vector", "row %zu", i); }
    double vv = 0; for (auto x : v) vv += x * x; VP_CHECK((row * col)(0, 0) == vv, "row-column", "row * column");
    for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < K; ++j) VP_CHECK((col * row)(i, j) == v[i] * v[j], "outer-product", "(%zu, %zu)", i, j);
    // whole numbers multiplied by fractions, and factors that need all digits
    mara::matrix_t<int, R, K> W; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < K; ++j) W(i, j) = rng.range(-9, 9);
    double fine = rng.uniform(0.5, 2.0) + 1e-13; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < K; ++j) VP_CHECK((W * fine)(i, j) == W(i, j) * fine && (W / fine)(i, j) == W(i, j) / fine && (A * fine)(i, j) == A(i, j) * fine && (A / fine)(i, j) == A(i, j) / fine && (W * 3)(i, j) == W(i, j) * 3, "matrix-scaled", "(%zu, %zu)", i, j);
    auto Z = A; VP_CHECK(Z == A && ! (Z != A), "matrix-equality", "copy"); Z(rng.range(0, R - 1), rng.range(0, K - 1)) += 1; VP_CHECK(Z != A && ! (Z == A), "matrix-equality", "changed copy");
    vp::observe("matrix"); vp::signature(sig);
}
VP_SECTION("matrices", 1500, 50000) { matrix_case<2, 2, 2>(rng); matrix_case<3, 3, 3>(rng); matrix_case<2, 3, 4>(rng); matrix_case<4, 1, 3>(rng); matrix_case<5, 5, 2>(rng); matrix_case<1, 4, 1>(rng); }
VP_MAIN()
