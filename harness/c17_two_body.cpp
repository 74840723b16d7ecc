// C17: the binary orbit model obeys Kepler and Newton and inverts exactly.
#include "vp.hpp"
#include "watchdog.hpp"
#include "model_two_body.hpp"
using vp::rng_t;
using real = long double;
static vp::watchdog_t dog(10);
struct guard_t { guard_t(const char* what) { dog.what = what; dog.ticks++; dog.armed = true; } ~guard_t() { dog.armed = false; dog.ticks++; } };
static const double eps = 2.220446049250313e-16;
static const real pi = 3.14159265358979323846264338327950288L;

static mara::orbital_elements_t any_elements(rng_t& r)
{
    mara::orbital_elements_t p;
    p.separation = r.chance(0.3) ? 1.0 : r.log_uniform(1e-3, 1e3);
    p.total_mass = r.chance(0.3) ? 1.0 : r.log_uniform(1e-3, 1e3);
    p.mass_ratio = r.chance(0.3) ? 1.0 : r.chance(0.15) ? r.log_uniform(1e-9, 1e6) : r.log_uniform(1e-3, 1e2);
    switch (r.range(0, 5))
    {
        case 0: p.eccentricity = 0; break;
        case 1: p.eccentricity = r.log_uniform(1e-12, 1e-2); break;
        case 2: p.eccentricity = 1 - r.log_uniform(1e-7, 1e-1); break;
        default: p.eccentricity = r.uniform(0.01, 0.95);
    }
    return p;
}
static std::string show(const mara::orbital_elements_t& p) { return vp::fmt("a %.17g M %.17g q %.17g e %.17g", p.separation, p.total_mass, p.mass_ratio, p.eccentricity); }
static std::string show(const mara::full_orbital_elements_t& p) { return show(p.elements) + vp::fmt(" pomega %.17g tau %.17g cm (%g %g %g %g)", p.pomega, p.tau, p.cm_position_x, p.cm_position_y, p.cm_velocity_x, p.cm_velocity_y); }
static std::string show(const mara::two_body_state_t& s) { return vp::fmt("m %.17g at (%.17g %.17g) v (%.17g %.17g), m %.17g at (%.17g %.17g) v (%.17g %.17g)", s.body1.mass, s.body1.position_x, s.body1.position_y, s.body1.velocity_x, s.body1.velocity_y, s.body2.mass, s.body2.position_x, s.body2.position_y, s.body2.velocity_x, s.body2.velocity_y); }

static real kepler(real M, real e)
{
    M = std::remainder(M, 2 * pi);
    real lo = M - e - 1e-3L, hi = M + e + 1e-3L;
    for (int i = 0; i < 200 && lo < hi; ++i) { real m = (lo + hi) / 2; if (m == lo || m == hi) break; (m - e * std::sin(m) < M ? lo : hi) = m; }
    return (lo + hi) / 2;
}
// Kepler's solution: relative position and velocity of the primary with respect to the secondary
struct orbit { real x, y, vx, vy, r, tol_x, tol_v; };
static orbit relative(const mara::orbital_elements_t& p, real t, double extra=0)
{
    real a = p.separation, e = p.eccentricity, w = std::sqrt(real(p.total_mass) / a / a / a), E = kepler(w * t, e), b = std::sqrt(1 - e * e), c = 1 - e * std::cos(E);
    real dE = (4e-10L + extra + 20 * eps * std::fabs(w * t)) / c;
    // an error dE of the anomaly, where the curvature of the solution matters for e -> 1
    if (dE > c) dE = std::sqrt(dE) * 2;
    return {a * (std::cos(E) - e), a * b * std::sin(E), -a * w * std::sin(E) / c, a * w * b * std::cos(E) / c, a * c,
        a * (dE + 50 * eps), a * w / c * (dE / c * 4 + 200 * eps / c)};
}
static real any_time(rng_t& r, real P)
{
    switch (r.range(0, 5))
    {
        case 0: return 0;
        case 1: return P * r.range(-8, 8) / 4;
        case 2: return P * r.uniform(-1000, 1000);
        case 3: return P * r.log_uniform(1e-9, 1e-1) * r.sign();
        default: return P * r.uniform(0, 3);
    }
}
static bool near(real a, real b, real t) { return std::fabs(a - b) <= t; }

static void check_state(const char* key, const mara::two_body_state_t& s, const mara::orbital_elements_t& p, const orbit& o, real rot, real cx, real cy, real cvx, real cvy, double slack=1)
{
    real mu = real(p.mass_ratio) / (1 + real(p.mass_ratio)), c = std::cos(rot), n = std::sin(rot);
    real x = o.x * c - o.y * n, y = o.x * n + o.y * c, vx = o.vx * c - o.vy * n, vy = o.vx * n + o.vy * c;
    real tx = (o.tol_x + 8 * eps * (std::fabs(cx) + std::fabs(cy))) * slack, tv = (o.tol_v + 8 * eps * (std::fabs(cvx) + std::fabs(cvy))) * slack;
    bool ok = near(s.body1.mass, p.total_mass * (1 - mu), 8 * eps * p.total_mass) && near(s.body2.mass, p.total_mass * mu, 8 * eps * p.total_mass);
    VP_CHECK(ok, std::string(key) + "-mass", "masses %.17g %.17g", s.body1.mass, s.body2.mass);
    ok = near(s.body1.position_x, mu * x + cx, tx) && near(s.body1.position_y, mu * y + cy, tx) && near(s.body2.position_x, -(1 - mu) * x + cx, tx) && near(s.body2.position_y, -(1 - mu) * y + cy, tx);
    VP_CHECK(ok, std::string(key) + "-position", "%s; the relative position should be (%.17Lg %.17Lg), tolerance %.3Lg", show(s).c_str(), x, y, tx);
    ok = near(s.body1.velocity_x, mu * vx + cvx, tv) && near(s.body1.velocity_y, mu * vy + cvy, tv) && near(s.body2.velocity_x, -(1 - mu) * vx + cvx, tv) && near(s.body2.velocity_y, -(1 - mu) * vy + cvy, tv);
    VP_CHECK(ok, std::string(key) + "-velocity", "%s; the relative velocity should be (%.17Lg %.17Lg), tolerance %.3Lg", show(s).c_str(), vx, vy, tv);
}

//-----------------------------------------------------------------------------
VP_SECTION("elements to state", 60000, 2000000)
{
    guard_t guard("solving Kepler's equation");
    auto p = any_elements(rng);
    real a = p.separation, M = p.total_mass, w = std::sqrt(M / a / a / a), P = 2 * pi / w;
    double t = any_time(rng, P);
    vp::context(show(p) + vp::fmt(" t %.17g", t));
    auto o = relative(p, t);
    auto s = mara::compute_two_body_state(p, t);
    check_state("state", s, p, o, 0, 0, 0, 0, 0);

    // the conserved quantities of the elements, and Newton's law
    real m1 = M / (1 + real(p.mass_ratio)), m2 = M - m1, mu = m1 * m2 / M, E = -m1 * m2 / 2 / a, L = mu * std::sqrt(M * a * (1 - real(p.eccentricity) * p.eccentricity));
    VP_CHECK(near(mara::orbital_energy(p), E, -40 * eps * E * (M / std::min(m1, m2))) && near(mara::orbital_period(p), P, 40 * eps * P) && near(mara::orbital_angular_momentum(p), L, 40 * eps * L * (M / std::min(m1, m2)) / (1 - p.eccentricity * p.eccentricity)), "constants",
        "energy %.17g (%.17Lg) period %.17g (%.17Lg) angular momentum %.17g (%.17Lg)", mara::orbital_energy(p), E, mara::orbital_period(p), P, mara::orbital_angular_momentum(p), L);
    real v2 = o.vx * o.vx + o.vy * o.vy, K = mu * v2 / 2, U = m1 * m2 / o.r;
    VP_CHECK(near(mara::separation(s), o.r, 2 * o.tol_x), "separation", "separation %.17g, expected %.17Lg", mara::separation(s), o.r);
    VP_CHECK(near(mara::total_energy(s), E, 20 * mu * std::sqrt(v2) * o.tol_v + 20 * mu * o.tol_v * o.tol_v + 4 * U / o.r * o.tol_x + 100 * eps * (K + U) + (o.tol_x > 0.1L * o.r ? 10 * U : 0)), "energy", "total energy %.17g, expected %.17Lg", mara::total_energy(s), E);
    VP_CHECK(near(mara::total_mass(s), M, 8 * eps * M), "total-mass", "total mass %.17g", mara::total_mass(s));
    if (index % 8 == 0 && p.eccentricity < 0.9 && std::fabs(t) < 10 * P)
    {
        double h = 1e-4 * double(P) * std::pow(1 - p.eccentricity, 1.5);
        auto b = mara::compute_two_body_state(p, t - h), f = mara::compute_two_body_state(p, t + h);
        real r3 = o.r * o.r * o.r, ax = -M * o.x / r3, ay = -M * o.y / r3, A = M / o.r / o.r;
        auto d = [&] (double x, double y) { return (real(y) - x) / (2 * h); };
        real gx = d(b.body1.velocity_x - b.body2.velocity_x, f.body1.velocity_x - f.body2.velocity_x), gy = d(b.body1.velocity_y - b.body2.velocity_y, f.body1.velocity_y - f.body2.velocity_y);
        real ux = d(b.body1.position_x - b.body2.position_x, f.body1.position_x - f.body2.position_x), uy = d(b.body1.position_y - b.body2.position_y, f.body1.position_y - f.body2.position_y);
        VP_CHECK(near(gx, ax, 1e-3L * A) && near(gy, ay, 1e-3L * A), "newton", "acceleration (%.9Lg %.9Lg), gravity (%.9Lg %.9Lg)", gx, gy, ax, ay);
        VP_CHECK(near(ux, o.vx, 1e-3L * std::sqrt(v2)) && near(uy, o.vy, 1e-3L * std::sqrt(v2)), "derivative", "rate of change of position (%.9Lg %.9Lg), velocity (%.9Lg %.9Lg)", ux, uy, o.vx, o.vy);
        vp::observe("newton");
    }
    if (index % 16 == 0) vp::signature(vp::fmt("%.2g %.2g %.2g", p.eccentricity, p.mass_ratio, double(t / P)));
    vp::observe(p.eccentricity == 0 ? "circular" : p.eccentricity > 0.95 ? "very-eccentric" : "eccentric");
}

// times long after the start, where the mean anomaly is large
VP_SECTION("long times", 2000, 20000)
{
    auto p = any_elements(rng);
    if (p.eccentricity > 0.95) p.eccentricity = rng.uniform(0, 0.95);
    real P = mara::orbital_period(p);
    double t = P * rng.log_uniform(1e3, 1e8);
    vp::context(show(p) + vp::fmt(" t %.17g", t));
    guard_t guard("solving Kepler's equation");
    auto s = mara::compute_two_body_state(p, t);
    check_state("long", s, p, relative(p, t), 0, 0, 0, 0, 0);
    vp::observe("long-time");
    if (index % 16 == 0) vp::signature(vp::S().context);
}

static mara::full_orbital_elements_t any_full(rng_t& r)
{
    mara::full_orbital_elements_t f;
    f.elements = any_elements(r);
    double P = mara::orbital_period(f.elements), a = f.elements.separation, v = std::sqrt(f.elements.total_mass / a);
    f.pomega = r.chance(0.2) ? 0 : r.uniform(-M_PI, M_PI);
    f.tau = r.chance(0.2) ? 0 : P * r.uniform(-3, 3);
    if (r.chance(0.7)) { f.cm_position_x = a * r.uniform(-2, 2); f.cm_position_y = a * r.uniform(-2, 2); f.cm_velocity_x = v * r.uniform(-2, 2); f.cm_velocity_y = v * r.uniform(-2, 2); }
    return f;
}

//-----------------------------------------------------------------------------
VP_SECTION("full elements", 60000, 2000000)
{
    guard_t guard("solving Kepler's equation");
    auto f = any_full(rng);
    auto& p = f.elements;
    double P = mara::orbital_period(p), t = rng.chance(0.3) ? f.tau - P * rng.uniform(0, 20) : f.tau + P * rng.uniform(0, 20);
    vp::context(show(f) + vp::fmt(" t %.17g", t));
    double noise = 400 * eps * (std::fabs(t) + std::fabs(f.tau) + 20 * P) * 2 * M_PI / P;
    auto o = relative(p, real(t) - f.tau, noise);
    auto s = mara::compute_two_body_state(f, t);
    check_state("full", s, p, o, f.pomega, f.cm_position_x, f.cm_position_y, f.cm_velocity_x, f.cm_velocity_y);
    double m = mara::mean_anomaly(f, t);
    VP_CHECK(near(std::remainder(m - 2 * pi / P * (real(t) - f.tau), 2 * pi), 0, 10 * noise), "mean-anomaly", "mean anomaly %.17g, expected %.17g", m, double(2 * pi / P * (real(t) - f.tau)));
    auto g = mara::make_full_orbital_elements(p);
    VP_CHECK(g.pomega == 0 && g.tau == 0 && g.cm_position_x == 0 && g.cm_velocity_y == 0 && show(g.elements) == show(p), "make-full", "%s", show(g).c_str());
    vp::observe(t < f.tau ? "before-periapse" : "after-periapse");

    // back to elements
    if (p.eccentricity > 0.999) return;
    auto r = mara::compute_orbital_elements(s, t);
    double e = p.eccentricity, b2 = 1 - e * e, a = p.separation, V = std::sqrt(p.total_mass / a), q = p.mass_ratio;
    // round-off in the state, relative to the internal motion
    double far = 1 + (std::fabs(f.cm_position_x) + std::fabs(f.cm_position_y)) / double(o.r) + (std::fabs(f.cm_velocity_x) + std::fabs(f.cm_velocity_y)) / V;
    double amp = (q + 1 / q) * far * far / b2;
    double size = 1e-9 * amp;
    VP_CHECK(near(r.elements.total_mass, p.total_mass, 40 * eps * p.total_mass) && near(r.elements.mass_ratio, q, 40 * eps * (1 + q) * q), "back-mass", "%s", show(r).c_str());
    VP_CHECK(near(r.cm_position_x, f.cm_position_x, 1e-9 * (a + std::fabs(f.cm_position_x))) && near(r.cm_position_y, f.cm_position_y, 1e-9 * (a + std::fabs(f.cm_position_y)))
        && near(r.cm_velocity_x, f.cm_velocity_x, 1e-9 * (V / std::sqrt(b2) * 4 / std::sqrt(b2) + std::fabs(f.cm_velocity_x))) && near(r.cm_velocity_y, f.cm_velocity_y, 1e-9 * (V / std::sqrt(b2) * 4 / std::sqrt(b2) + std::fabs(f.cm_velocity_y))), "back-cm", "%s", show(r).c_str());
    VP_CHECK(near(r.elements.separation, a, 10 * size * a / b2), "back-separation", "recovered %s", show(r).c_str());
    VP_CHECK(near(r.elements.eccentricity * r.elements.eccentricity, e * e, 10 * size), "back-eccentricity", "recovered %s", show(r).c_str());
    if (e > 1e-2 && size < 1e-5)
    {
        double loose = 0.5 * size / e / e / b2 / b2;
        VP_CHECK(near(std::remainder(real(r.pomega) - f.pomega, 2 * pi), 0, loose), "back-pomega", "recovered %s", show(r).c_str());
        VP_CHECK(near(std::remainder((real(r.tau) - f.tau) / P, 1.0L), 0, loose + 100 * eps * (std::fabs(t) + std::fabs(f.tau)) / P), "back-tau", "recovered %s, %.3g periods off", show(r).c_str(), double(std::remainder((real(r.tau) - f.tau) / P, 1.0L)));
        vp::observe("elements-recovered");
    }
    // whatever the elements, they describe the state they came from
    auto z = mara::compute_two_body_state(r, t);
    double tx = 1e-9 * a * amp / b2, tv = 1e-9 * V * amp / b2 / b2;
    VP_CHECK(near(z.body1.position_x, s.body1.position_x, tx) && near(z.body1.position_y, s.body1.position_y, tx) && near(z.body2.position_x, s.body2.position_x, tx) && near(z.body2.position_y, s.body2.position_y, tx), "again-position",
        "elements %s give %s back, not %s", show(r).c_str(), show(z).c_str(), show(s).c_str());
    VP_CHECK(near(z.body1.velocity_x, s.body1.velocity_x, tv) && near(z.body1.velocity_y, s.body1.velocity_y, tv) && near(z.body2.velocity_x, s.body2.velocity_x, tv) && near(z.body2.velocity_y, s.body2.velocity_y, tv), "again-velocity",
        "elements %s give %s back, not %s", show(r).c_str(), show(z).c_str(), show(s).c_str());
    if (index % 16 == 0) vp::signature(vp::fmt("full %.2g %.2g %.2g", e, q, (t - f.tau) / P));
    vp::observe(e < 1e-6 ? "near-circular-again" : "again");
}

//-----------------------------------------------------------------------------
VP_SECTION("unbound states", 20000, 500000)
{
    auto f = any_full(rng);
    if (f.elements.eccentricity > 0.9) f.elements.eccentricity = 0.5;
    auto s = mara::compute_two_body_state(f, f.tau + rng.unit() * mara::orbital_period(f.elements));
    // scale the relative velocity to escape speed times k
    double M = mara::total_mass(s), q1 = s.body2.mass / M, q2 = s.body1.mass / M;
    double vx = s.body1.velocity_x - s.body2.velocity_x, vy = s.body1.velocity_y - s.body2.velocity_y, cx = f.cm_velocity_x, cy = f.cm_velocity_y;
    bool bound = rng.chance(0.5);
    double k = std::sqrt(2 * M / mara::separation(s)) / std::hypot(vx, vy) * (bound ? rng.uniform(0.1, 0.999) : rng.log_uniform(1.001, 100));
    s.body1.velocity_x = cx + q1 * vx * k; s.body1.velocity_y = cy + q1 * vy * k; s.body2.velocity_x = cx - q2 * vx * k; s.body2.velocity_y = cy - q2 * vy * k;
    vp::context(show(s));
    bool refused = vp::throws_as<std::exception>([&] { mara::compute_orbital_elements(s, 0.0); });
    VP_CHECK(refused == ! bound, bound ? "bound-refused" : "unbound-accepted", "relative speed %s escape speed", bound ? "below" : "above");
    if (index % 16 == 0) vp::signature(vp::fmt("unbound %d %.2g", bound, k));
    vp::observe(bound ? "bound" : "unbound-refused");
    // exactly at escape speed, in numbers that suffer no rounding
    int j = rng.range(-10, 10), i = j + 1 + 2 * rng.range(-6, 6); double m = std::ldexp(1.0, i - 1), r = std::ldexp(1.0, j), v = std::ldexp(1.0, (i - j + 1) / 2), sx = rng.sign(), sy = rng.sign(); bool turned = rng.chance(0.5);
    mara::two_body_state_t e; e.body1.mass = e.body2.mass = m; e.body1.position_x = sx * r / 2; e.body2.position_x = -sx * r / 2; e.body1.position_y = e.body2.position_y = 0;
    e.body1.velocity_x = turned ? sy * v / 2 : 0; e.body2.velocity_x = -e.body1.velocity_x; e.body1.velocity_y = turned ? 0 : sy * v / 2; e.body2.velocity_y = -e.body1.velocity_y;
    vp::context(show(e)); VP_CHECK(vp::throws_as<std::exception>([&] { mara::compute_orbital_elements(e, 0.0); }), "unbound-accepted", "a state exactly at escape speed was accepted");
    vp::observe("parabolic-refused");
}

//-----------------------------------------------------------------------------
static std::array<double, 10> flat(const mara::full_orbital_elements_t& f)
{
    return {f.pomega, f.tau, f.cm_position_x, f.cm_position_y, f.cm_velocity_x, f.cm_velocity_y, f.elements.separation, f.elements.total_mass, f.elements.mass_ratio, f.elements.eccentricity};
}
VP_SECTION("differences", 20000, 500000)
{
    auto a = any_full(rng), b = rng.chance(0.5) ? any_full(rng) : a;
    double P = mara::orbital_period(b.elements);
    if (rng.chance(0.3)) b.tau = a.tau + P * rng.uniform(-50, 50);
    if (rng.chance(0.3)) { a.pomega = rng.uniform(-20, 20); b.pomega = rng.uniform(-20, 20); }
    vp::context(show(a) + " and " + show(b));
    auto d = mara::diff(a, b);
    auto A = flat(a), B = flat(b), D = flat(d), S = flat(a + b), M = flat(b - a), K = flat(a * 3.0);
    bool plain = true, sum = true;
    for (int i = 0; i < 10; ++i)
    {
        if (i > 1) plain = plain && D[i] == B[i] - A[i];
        sum = sum && S[i] == A[i] + B[i] && M[i] == B[i] - A[i] && K[i] == A[i] * 3.0;
    }
    VP_CHECK(plain, "difference", "components other than angle and time");
    VP_CHECK(sum, "arithmetic", "sums, differences or multiples of elements");
    VP_CHECK(std::fabs(D[0]) <= M_PI * (1 + 1e-12) && near(std::remainder(real(D[0]) - (real(B[0]) - A[0]), 2 * pi), 0, 1e-13L * 20), "difference-pomega", "%.17g for %.17g - %.17g", D[0], B[0], A[0]);
    VP_CHECK(std::fabs(D[1]) <= P / 2 * (1 + 1e-12) && near(std::remainder((real(D[1]) - (real(B[1]) - A[1])) / P, 1.0L), 0, 1e-12L + 8 * eps * (std::fabs(A[1]) + std::fabs(B[1])) / P), "difference-tau", "%.17g for %.17g - %.17g, period %.17g", D[1], B[1], A[1], P);
    double dt = rng.uniform(-1, 1);
    auto C = flat(mara::diff_cm(a, dt));
    bool cm = C[2] == a.cm_velocity_x * dt && C[3] == a.cm_velocity_y * dt;
    for (int i = 0; i < 10; ++i) if (i != 2 && i != 3) cm = cm && C[i] == 0;
    auto Z = flat(mara::make_full_orbital_elements_with_zeros());
    for (double z : Z) cm = cm && z == 0;
    VP_CHECK(cm, "difference-cm", "drift of the centre of mass over a time");
    vp::observe("difference");
    if (index % 16 == 0) vp::signature(vp::fmt("diff %.3g %.3g", D[0], D[1] / P));
}
// response of the semi-major axis to small changes of mass and velocity
VP_SECTION("change of separation", 20000, 500000)
{
    auto p = any_elements(rng);
    p.eccentricity = std::min(p.eccentricity, 0.9); p.mass_ratio = rng.log_uniform(0.05, 20);
    auto s = mara::compute_two_body_state(p, mara::orbital_period(p) * rng.unit());
    real V = std::sqrt(p.total_mass / p.separation), k = 1e-5L;
    struct change { real m1, m2, x1, y1, x2, y2; } c {rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1)};
    if (rng.chance(0.3)) c.m1 = c.m2 = 0;
    // the centre of mass stays at rest
    auto at = [&] (real h)
    {
        auto q = s;
        q.body1.mass = double(s.body1.mass * (1 + h * c.m1)); q.body2.mass = double(s.body2.mass * (1 + h * c.m2));
        real vx = V * c.x1 * h, vy = V * c.y1 * h;
        q.body1.velocity_x += double(vx); q.body1.velocity_y += double(vy);
        q.body2.velocity_x = double(s.body2.velocity_x - vx * s.body1.mass / s.body2.mass); q.body2.velocity_y = double(s.body2.velocity_y - vy * s.body1.mass / s.body2.mass);
        return q;
    };
    auto axis = [&] (const mara::two_body_state_t& q)
    {
        auto w = [] (const mara::point_mass_t& b) { return real(b.mass) * (real(b.velocity_x) * b.velocity_x + real(b.velocity_y) * b.velocity_y) / 2; };
        real m1 = q.body1.mass, m2 = q.body2.mass, E = w(q.body1) + w(q.body2) - m1 * m2 / real(mara::separation(q));
        return -m1 * m2 / 2 / E;
    };
    vp::context(show(p));
    auto f = at(k), b = at(-k);
    real a0 = axis(s), expect = (axis(f) - axis(b)) / 2 / a0, size = k * (1 + real(p.separation) / mara::separation(s)) * (1 + 1 / std::min<real>(p.mass_ratio, 1 / real(p.mass_ratio)));
    VP_CHECK(near(mara::delta_a_over_a(f, s), expect, 1e-3L * size + 1e-11L), "delta-a", "%.9g, the axis changed by %.9Lg", mara::delta_a_over_a(f, s), expect);
    vp::observe("delta-a");
    if (index % 16 == 0) vp::signature(vp::S().context);
}

VP_MAIN()
