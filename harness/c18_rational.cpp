// C18: rational numbers against exact 64-bit arithmetic.
#include "vp.hpp"
#include <numeric>
#include <stdexcept>
#include "core_rational.hpp"
using mara::rational_number_t;
typedef long long ll;

struct ref_t { ll n, d; };
static ref_t norm(ll n, ll d) { if (d < 0) { n = -n; d = -d; } if (n == 0) return {0, 1}; ll g = std::gcd(n < 0 ? -n : n, d); return {n / g, d / g}; }
static bool fits(ll x) { return x > -2147483648ll && x <= 2147483647ll; }

static void canonical(const rational_number_t& r, ref_t w, const char* what)
{
    VP_CHECK(r.get_numerator() == w.n && r.get_denominator() == w.d, std::string("value/") + what, "%s gives %d / %d, exact %lld / %lld", what, r.get_numerator(), r.get_denominator(), w.n, w.d);
    VP_CHECK(r.get_denominator() > 0, "denominator-sign", "%s", what);
    VP_CHECK(mara::to_string(r) == std::to_string(w.n) + " / " + std::to_string(w.d), "text", "%s prints %s", what, mara::to_string(r).c_str());
}
static ll draw(vp::rng_t& rng, ll cap)
{
    switch (rng.range(0, 6)) {
    case 0: return rng.range(-3, 3);
    case 1: return rng.range(-16, 16) * rng.range(1, 12);
    case 2: return (1ll << rng.range(0, 14)) * (rng.chance(0.5) ? 1 : -1);
    case 3: { static const std::vector<ll> v {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 24, 27, 30, 36, 60, 64, 210, 1024, 2310}; return rng.pick(v) * (rng.chance(0.5) ? 1 : -1); }
    default: return rng.range(-cap, cap); }
}

static void pair_case(ll a, ll b, ll c, ll d)
{
    vp::context(vp::fmt("%lld/%lld, %lld/%lld", a, b, c, d));
    rational_number_t x(a, b), y(c, d);
    auto X = norm(a, b), Y = norm(c, d);
    canonical(x, X, "construct"); canonical(y, Y, "construct");
    auto both = [&] (const char* op, ll n, ll den, auto f) { if (fits(n) && fits(den) && fits(X.n * Y.d) && fits(X.d * Y.n) && fits(X.d * Y.d)) { vp::observe("exact-op"); canonical(f(), norm(n, den), op); } };
    both("add", X.n * Y.d + X.d * Y.n, X.d * Y.d, [&] { return x + y; });
    both("subtract", X.n * Y.d - X.d * Y.n, X.d * Y.d, [&] { return x - y; });
    both("multiply", X.n * Y.n, X.d * Y.d, [&] { return x * y; });
    if (Y.n != 0) both("divide", X.n * Y.d, X.d * Y.n, [&] { return x / y; });
    else VP_CHECK(vp::throws_as<std::invalid_argument>([&] { x / y; }), "divide-by-zero", "division by zero accepted");
    canonical(-x, norm(-X.n, X.d), "negate"); canonical(+x, X, "plus");

    if (fits(X.n * Y.d - X.d * Y.n) && fits(X.n * Y.d) && fits(X.d * Y.n) && fits(X.d * Y.d))
    {
        ll s = X.n * Y.d - X.d * Y.n;
        VP_CHECK((x < y) == (s < 0) && (x > y) == (s > 0) && (x <= y) == (s <= 0) && (x >= y) == (s >= 0), "order", "comparison");
        VP_CHECK((x == y) == (s == 0) && (x != y) == (s != 0), "equality", "equality");
        if (s == 0) { VP_CHECK(mara::to_string(x) == mara::to_string(y), "text-equal", "equal numbers print differently"); vp::observe("equal-pair"); }
    }
    // integers on either side
    int k = int(Y.n % 1000);
    if (fits(X.n + X.d * k) && fits(X.n - X.d * k) && fits(X.n * k) && fits(X.d * k))
    {
        canonical(x + k, norm(X.n + X.d * k, X.d), "add-int"); canonical(k + x, norm(X.n + X.d * k, X.d), "int-add");
        canonical(x - k, norm(X.n - X.d * k, X.d), "subtract-int"); canonical(k - x, norm(X.d * k - X.n, X.d), "int-subtract");
        canonical(x * k, norm(X.n * k, X.d), "multiply-int");
        if (k) canonical(x / k, norm(X.n, X.d * k), "divide-int"); else VP_CHECK(vp::throws([&] { x / k; }), "divide-by-zero", "division by integer zero accepted");
        auto z = x; z += k; canonical(z, norm(X.n + X.d * k, X.d), "add-assign"); z -= k; canonical(z, X, "subtract-assign");
        VP_CHECK((x == k) == (X.n == X.d * k) && (x != k) == (X.n != X.d * k) && (x < k) == (X.n < X.d * k) && (x > k) == (X.n > X.d * k) && (x <= k) == (X.n <= X.d * k) && (x >= k) == (X.n >= X.d * k), "order-int", "comparison with integer %d", k);
    }
    // conversions
    VP_CHECK(x.as_double() == double(X.n) / double(X.d), "as-double", "as_double");
    VP_CHECK(x.is_integral() == (X.d == 1), "is-integral", "is_integral");
    if (X.d == 1) VP_CHECK(x.as_integral() == X.n, "as-integral", "as_integral"); else VP_CHECK(vp::throws_as<std::logic_error>([&] { x.as_integral(); }), "as-integral", "non-integer converted to integer");
    double f = 0.75 + double(Y.n % 7);
    VP_CHECK(x + f == x.as_double() + f && x - f == x.as_double() - f && x * f == x.as_double() * f && x / f == x.as_double() / f, "double-op", "arithmetic with a double");
    VP_CHECK(vp::throws_as<std::invalid_argument>([&] { rational_number_t(int(a), 0); }), "zero-denominator", "zero denominator accepted");
    VP_CHECK(vp::throws_as<std::invalid_argument>([&] { mara::make_rational(int(a), 0); }), "zero-denominator", "zero denominator accepted");
    canonical(mara::make_rational(int(a), int(b)), X, "make"); canonical(mara::make_rational(int(a)), {a, 1}, "make-int"); canonical(rational_number_t(int(a)), {a, 1}, "from-int");
    vp::observe("pair");
    vp::signature(vp::fmt("%lld/%lld %lld/%lld", X.n, X.d, Y.n, Y.d));
}

VP_SECTION("small-exhaustive", 19, 61)
{
    long lim = vp::S().thorough ? 30 : 9;
    ll a = index - lim;
    for (ll b = -lim; b <= lim; ++b) for (ll c = -lim; c <= lim; c += vp::S().thorough ? 1 : 1) for (ll d = 1; d <= lim; ++d) if (b) pair_case(a, b, c, (c + d) % 2 ? d : -d);
}
VP_SECTION("random", 60000, 3000000)
{
    static const std::vector<ll> caps {50, 1000, 30000};
    ll cap = rng.pick(caps), a = draw(rng, cap), b = draw(rng, cap), c = draw(rng, cap), d = draw(rng, cap);
    if (b == 0) b = 1; if (d == 0) d = -3;
    pair_case(a, b, c, d);
}
VP_SECTION("wide-construction", 30000, 1000000)
{
    ll g = rng.range(1, 40000), a = rng.range(-2147483647ll / g, 2147483647ll / g) * g, b = rng.range(1, 2147483647ll / g) * g * (rng.chance(0.5) ? 1 : -1);
    vp::context(vp::fmt("%lld/%lld", a, b));
    rational_number_t x(a, b); canonical(x, norm(a, b), "construct-wide"); canonical(-x, norm(-a, b), "negate-wide");
    VP_CHECK(x.as_double() == double(norm(a, b).n) / double(norm(a, b).d), "as-double", "as_double");
    rational_number_t y(a, b); VP_CHECK(x == y && ! (x != y), "equality", "same fraction");
    vp::observe("wide"); vp::signature(vp::fmt("w %lld/%lld", a, b));
}
// the iteration counter of the solvers: halves summed by Runge-Kutta stages
VP_SECTION("counter", 2000, 50000)
{
    rational_number_t it(rng.range(0, 100000)); ll k = it.as_integral(); int n = rng.range(1, 60);
    for (int i = 0; i < n; ++i) { auto s0 = it; auto s1 = s0 + 1; auto s2 = s1 + 1; it = s0 * mara::make_rational(1, 2) + s2 * mara::make_rational(1, 2); ++k; if (! VP_CHECK(it == int(k) && it.is_integral(), "counter", "iteration %lld reads %s", k, mara::to_string(it).c_str())) break; }
    vp::observe("counter"); vp::signature(vp::fmt("c %lld", k));
}
VP_MAIN()
