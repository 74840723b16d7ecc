// C23: slope limiting, parabola vertices and polynomial roots.
#include <complex>
#include "vp.hpp"
#include "math_interpolation.hpp"
#include "math_polynomial.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
using vp::rng_t;
using real = long double;
using cplx = std::complex<long double>;
static const double eps = 2.220446049250313e-16;

//-----------------------------------------------------------------------------
static double limited(double l, double c, double r, double theta)
{
    double a = (c - l) * theta, b = (r - l) * 0.5, d = (r - c) * theta;
    if (a > 0 && b > 0 && d > 0) return std::min({a, b, d});
    if (a < 0 && b < 0 && d < 0) return std::max({a, b, d});
    return 0.0;
}
static double any_value(rng_t& r)
{
    switch (r.range(0, 9))
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return r.sign() * r.log_uniform(1e-300, 1e-200);
        case 3: return r.sign() * r.log_uniform(1e100, 1e200);
        case 4: return r.range(-2, 2);
        default: return r.uniform(-10, 10);
    }
}
VP_SECTION("limited slopes", 100000, 5000000)
{
    double theta = rng.chance(0.3) ? 1 + rng.range(0, 2) * 0.5 : rng.uniform(1, 2);
    double l = any_value(rng), c = any_value(rng), r = any_value(rng);
    if (rng.chance(0.2)) r = c; if (rng.chance(0.2)) l = c;
    vp::context(vp::fmt("%.17g %.17g %.17g theta %.17g", l, c, r, theta));
    double g = mara::plm_gradient(l, c, r, theta), big = 4 * eps * std::max(std::fabs(r - c), std::fabs(c - l));
    VP_CHECK(std::fabs(g - limited(l, c, r, theta)) <= 4 * eps * std::fabs(g), "slope", "slope %.17g, limiter %.17g", g, limited(l, c, r, theta));
    VP_CHECK((c > l && r > c) || (c < l && r < c) || g == 0, "extremum", "slope %.17g at an extremum", g);
    VP_CHECK(std::fabs(mara::plm_gradient(-l, -c, -r, theta) + g) <= big && std::fabs(mara::plm_gradient(r, c, l, theta) + g) <= big, "odd", "the slope is not odd");
    // neighbouring values bound the reconstructed ones
    if (theta <= 2.0 && std::fabs(c) < 1e90 && std::fabs(l) < 1e90 && std::fabs(r) < 1e90)
    {
        double p = c + 0.5 * g, m = c - 0.5 * g, lo = std::min({l, c, r}), hi = std::max({l, c, r}), t = 4 * eps * (std::fabs(lo) + std::fabs(hi));
        VP_CHECK(p <= hi + t && p >= lo - t && m <= hi + t && m >= lo - t, "new-extremum", "reconstruction %.17g %.17g of values between %.17g and %.17g", m, p, lo, hi);
        double k = std::ldexp(1.0, rng.range(-20, 20));
        VP_CHECK(mara::plm_gradient(k * l, k * c, k * r, theta) == k * g, "scaling", "the slope does not scale");
    }
    int n = rng.range(-1000, 1000), s = rng.range(-1000, 1000);
    VP_CHECK(mara::plm_gradient(double(n - s), double(n), double(n + s), theta) == s, "linear", "linear data with slope %d", s);
    vp::observe(g == 0 ? "slope-zero" : g > 0 ? "slope-positive" : "slope-negative");

    // componentwise for every composite
    auto same = [&] (double x, double l, double c, double r) { return std::fabs(x - limited(l, c, r, theta)) <= 4 * eps * std::fabs(x); };
    mara::iso2d::primitive_t il, ic, ir; mara::euler::primitive_t el, ec, er;
    for (int i = 0; i < 3; ++i) { il[i] = rng.uniform(-9, 9); ic[i] = rng.uniform(-9, 9); ir[i] = rng.uniform(-9, 9); }
    for (int i = 0; i < 5; ++i) { el[i] = rng.uniform(-9, 9); ec[i] = rng.uniform(-9, 9); er[i] = rng.uniform(-9, 9); }
    auto gi = mara::plm_gradient(il, ic, ir, theta); auto ge = mara::plm_gradient(el, ec, er, theta);
    bool ok = true;
    for (int i = 0; i < 3; ++i) ok = ok && same(gi[i], il[i], ic[i], ir[i]);
    for (int i = 0; i < 5; ++i) ok = ok && same(ge[i], el[i], ec[i], er[i]);
    auto U = [] (const mara::iso2d::primitive_t& p) { return p.to_conserved_per_area(); };
    auto gu = mara::plm_gradient(U(il), U(ic), U(ir), theta);
    ok = ok && same(mara::get<0>(gu).value, mara::get<0>(U(il)).value, mara::get<0>(U(ic)).value, mara::get<0>(U(ir)).value)
            && same(mara::get<1>(gu).value, mara::get<1>(U(il)).value, mara::get<1>(U(ic)).value, mara::get<1>(U(ir)).value)
            && same(mara::get<2>(gu).value, mara::get<2>(U(il)).value, mara::get<2>(U(ic)).value, mara::get<2>(U(ir)).value);
    auto gq = mara::plm_gradient(mara::make_sequence(mara::make_length(l), mara::make_length(1.)), mara::make_sequence(mara::make_length(c), mara::make_length(2.)), mara::make_sequence(mara::make_length(r), mara::make_length(3.)), theta);
    ok = ok && same(gq[0].value, l, c, r) && gq[1].value == 1.0;
    VP_CHECK(ok, "composite", "the slope of a state is not that of its components");
    if (index % 32 == 0) vp::signature(vp::S().context);
}

//-----------------------------------------------------------------------------
VP_SECTION("parabola vertex", 40000, 1000000)
{
    double A = rng.sign() * rng.log_uniform(1e-3, 1e3), x0 = rng.uniform(-10, 10), y0 = rng.uniform(-10, 10);
    double x[3]; for (int i = 0; i < 3; ++i) { again: x[i] = rng.chance(0.3) ? rng.range(-5, 5) : rng.uniform(-10, 10); for (int j = 0; j < i; ++j) if (std::fabs(x[i] - x[j]) < 0.1) goto again; }
    real y[3]; double yd[3]; for (int i = 0; i < 3; ++i) { y[i] = y0 + real(A) * (x[i] - x0) * (x[i] - x0); yd[i] = double(y[i]); }
    vp::context(vp::fmt("A %.17g vertex (%.17g %.17g) x %.17g %.17g %.17g", A, x0, y0, x[0], x[1], x[2]));
    auto v = mara::parabola_vertex(x[0], x[1], x[2], yd[0], yd[1], yd[2]);
    // round-off of the values and of the interpolation, over the smallest spacing squared
    double d = std::fabs((x[0] - x[1]) * (x[0] - x[2]) * (x[1] - x[2])), Y = std::max({std::fabs(yd[0]), std::fabs(yd[1]), std::fabs(yd[2])});
    double dA = 200 * eps * Y * 20 / d, dB = 200 * eps * Y * 400 / d;
    if (dA > 1e-3 * std::fabs(A)) return;
    double tx = (dB + 2 * 10 * dA) / (2 * std::fabs(A)), ty = 200 * eps * Y * 4000 / d + 10 * dB * 4 + 100 * dA;
    VP_CHECK(std::fabs(v.first - x0) <= tx && std::fabs(v.second - y0) <= ty, "vertex", "vertex (%.17g %.17g)", v.first, v.second);
    vp::observe("vertex");
    if (index % 32 == 0) vp::signature(vp::S().context);
}

//-----------------------------------------------------------------------------
static real residual(const std::vector<real>& c, real x) { real s = 0; for (std::size_t i = c.size(); i-- > 0;) s = s * x + c[i]; return s; }
// coefficients (low to high) of k (x - r1) (x - r2) ...
static std::vector<real> polynomial(const std::vector<cplx>& roots, real k)
{
    std::vector<cplx> p {k};
    for (auto r : roots) { std::vector<cplx> q(p.size() + 1); for (std::size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= p[i] * r; } p = q; }
    std::vector<real> c; for (auto z : p) c.push_back(z.real());
    return c;
}
struct case_t { std::vector<cplx> roots; std::vector<real> c; double size; bool separated; double error; std::vector<double> real_roots; };
static case_t any_polynomial(rng_t& r, int degree)
{
    case_t k;
    real X = r.chance(0.5) ? 1 : r.log_uniform(1e-3, 1e3);
    bool integers = r.chance(0.3);
    auto value = [&] { return integers ? real(r.range(-4, 4)) : X * r.uniform(-1, 1); };
    while (int(k.roots.size()) < degree)
    {
        if (degree - int(k.roots.size()) >= 2 && r.chance(0.4)) { cplx z(value(), value()); if (r.chance(0.3)) z = cplx(0, z.imag()); k.roots.push_back(z); k.roots.push_back(std::conj(z)); }
        else if (degree - int(k.roots.size()) >= 2 && r.chance(0.3)) { real z = value(); k.roots.push_back(z); k.roots.push_back(-z); }
        else if (! k.roots.empty() && r.chance(0.15) && k.roots.back().imag() == 0) k.roots.push_back(k.roots.back());
        else k.roots.push_back(value());
    }
    real lead = r.chance(0.5) ? 1 : r.sign() * r.log_uniform(1e-2, 1e2);
    k.c = polynomial(k.roots, lead);
    for (auto& c : k.c) c = double(c);  // what the function is given
    k.size = 0; for (auto z : k.roots) k.size = std::max(k.size, double(std::abs(z)));
    k.separated = k.size > 0; double apart = 1;
    for (std::size_t i = 0; i < k.roots.size(); ++i) for (std::size_t j = 0; j < i; ++j) apart = std::min(apart, double(std::abs(k.roots[i] - k.roots[j])) / std::max(k.size, 1e-300));
    k.separated = k.separated && apart >= 0.05;
    k.error = std::max(1e-8, 1e-10 / std::pow(apart, 4));
    for (auto z : k.roots) if (std::fabs(z.imag()) < 1e-12 * k.size) k.real_roots.push_back(double(z.real()));
    std::sort(k.real_roots.begin(), k.real_roots.end());
    return k;
}
static std::string show(const std::vector<real>& c) { std::string s = "coefficients"; for (auto x : c) s += vp::fmt(" %.17Lg", x); return s; }
static std::string show(const std::vector<double>& c) { std::string s; for (auto x : c) s += vp::fmt(" %.17g", x); return s; }

static void judge(const char* name, const case_t& k, std::vector<double> found, std::vector<double> all)
{
    std::sort(found.begin(), found.end());
    real big = 0; for (std::size_t i = 0; i < k.c.size(); ++i) big += std::fabs(k.c[i]) * std::pow(real(k.size), int(i));
    bool finite = true; for (double x : all) finite = finite && std::isfinite(x);
    VP_CHECK(finite, std::string(name) + "/finite", "roots%s", show(all).c_str());
    if (! finite) return;
    for (double x : found) VP_CHECK(std::fabs(residual(k.c, x)) <= 1e-7L * big, std::string(name) + "/residual", "%.17g is not a root: value %.3Lg on the scale %.3Lg", x, residual(k.c, x), big);
    if (k.separated)
    {
        bool ok = found.size() == k.real_roots.size();
        for (std::size_t i = 0; ok && i < found.size(); ++i) ok = std::fabs(found[i] - k.real_roots[i]) <= k.error * k.size;
        VP_CHECK(ok, std::string(name) + "/roots", "real roots%s, expected%s", show(found).c_str(), show(k.real_roots).c_str());
        vp::observe(vp::fmt("%s-%zu-real", name, k.real_roots.size()));
    }
    else
    {
        // a repeated real root may be reported as a pair that is not real, but the values are there
        bool ok = true;
        for (double x : k.real_roots) { double d = 1e300; for (double y : all) d = std::min(d, std::fabs(x - y)); ok = ok && d <= 1e-2 * k.size; }
        VP_CHECK(ok, std::string(name) + "/repeated", "roots%s, expected%s", show(all).c_str(), show(k.real_roots).c_str());
        vp::observe(std::string(name) + "-close");
    }
}
VP_SECTION("cubic", 100000, 4000000)
{
    auto k = any_polynomial(rng, 3);
    vp::context(show(k.c));
    auto r = mara::cubic_roots(double(k.c[3]), double(k.c[2]), double(k.c[1]), double(k.c[0]));
    VP_CHECK(r.num_roots == 1 || r.num_roots == 3, "cubic/number", "%d roots", r.num_roots);
    std::vector<double> found {r.x1}; if (r.num_roots == 3) { found.push_back(r.x2); found.push_back(r.x3); }
    judge("cubic", k, found, {r.x1, r.x2, r.x3});
    if (index % 32 == 0) vp::signature(vp::S().context);
}
// almost pure cubes: the two cube roots differ by many orders of magnitude
// Two roots that (nearly) coincide: the discriminant is rounding noise, the roots are still found, as far as a double root is determined.
VP_SECTION("cubic with a double root", 30000, 1000000)
{
    double a = rng.uniform(-1, 1), b = rng.uniform(-1, 1), size = rng.log_uniform(1e-3, 1e3); if (std::fabs(a - b) < 0.2) { vp::observe("cubic-too-close"); return; }
    double gap = rng.chance(0.3) ? 0 : rng.log_uniform(1e-16, 1e-9); real r0 = real(a) * size, r1 = real(a) * (1 + real(gap)) * size, r2 = real(b) * size, c3 = rng.chance(0.5) ? 1 : rng.uniform(0.5, 4);
    auto r = mara::cubic_roots(double(c3), double(-c3 * (r0 + r1 + r2)), double(c3 * (r0 * r1 + r1 * r2 + r2 * r0)), double(-c3 * r0 * r1 * r2));
    auto off = [&] (double x) { return std::min(std::fabs(real(x) - r0), std::fabs(real(x) - r2)); };
    bool near = true; for (double x : {r.x1, r.x2, r.x3}) near = near && off(x) <= 1e-6L * size && std::isfinite(x);
    VP_CHECK(near, "cubic/double-root", "roots %.17g, %.17g, %.17g (%d) of a cubic with roots %.17Lg (twice) and %.17Lg", r.x1, r.x2, r.x3, r.num_roots, r0, r2);
    vp::observe(r.num_roots == 3 ? "cubic-double-3" : "cubic-double-1");
}
VP_SECTION("cubic with one small term", 20000, 500000)
{
    double c0 = rng.sign() * rng.log_uniform(0.1, 10), c1 = rng.sign() * rng.log_uniform(1e-15, 1e-2);
    vp::context(vp::fmt("x^3 + %.17g x + %.17g", c1, c0));
    auto r = mara::cubic_roots(1, 0, c1, c0);
    real x = r.x1, f = x * x * x + real(c1) * x + c0;
    VP_CHECK(r.num_roots == 1 && std::fabs(f) <= 100 * eps * std::fabs(real(c0)), "cubic/small-term", "root %.17Lg leaves %.3Lg", x, f);
    vp::observe("small-term");
    if (index % 32 == 0) vp::signature(vp::S().context);
}
VP_SECTION("quartic", 100000, 4000000)
{
    auto k = any_polynomial(rng, 4);
    vp::context(show(k.c));
    auto r = mara::quartic_roots(double(k.c[4]), double(k.c[3]), double(k.c[2]), double(k.c[1]), double(k.c[0]));
    std::vector<double> found;
    if (r.pair_1_is_real) { found.push_back(r.x1); found.push_back(r.x2); }
    if (r.pair_2_is_real) { found.push_back(r.x3); found.push_back(r.x4); }
    judge("quartic", k, found, {r.x1, r.x2, r.x3, r.x4});
    if (index % 32 == 0) vp::signature(vp::S().context);
}

VP_MAIN()
