// C24: initial models (atmosphere, cloud and envelope, jet nozzle) and the shock locator.
#include "vp.hpp"
#include "watchdog.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
#include "post_shock_locator.hpp"
#include "physics_srhd.hpp"
#include "physics_euler.hpp"
using vp::rng_t;
using real = long double;
static const double eps = 2.220446049250313e-16, c_light = 2.998e10, pi = M_PI;
static vp::watchdog_t dog(20);
struct guard_t { guard_t(const char* what) { dog.what = what; dog.ticks++; dog.armed = true; } ~guard_t() { dog.armed = false; dog.ticks++; } };

// Gauss-Legendre (5 points) on n equal pieces of [a, b]
template<typename F> static real integral(F f, real a, real b, int n)
{
    static const real x[] = {0.0L, 0.538469310105683091036314420700L, 0.906179845938663992797626878299L};
    static const real w[] = {0.568888888888888888888888888889L, 0.478628670499366468041291514836L, 0.236926885056189087514264040720L};
    real s = 0, h = (b - a) / n;
    for (int i = 0; i < n; ++i) { real m = a + (i + 0.5L) * h; s += w[0] * f(m); for (int k = 1; k < 3; ++k) s += w[k] * (f(m + 0.5L * h * x[k]) + f(m - 0.5L * h * x[k])); }
    return 0.5L * h * s;
}
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)); }

//-----------------------------------------------------------------------------
using atmosphere = mara::power_law_atmosphere_model;
static std::vector<double> parts(const atmosphere& m) { return {m.f0, m.r0, m.rc, m.n1, m.n2}; }
static bool changed_only(std::vector<double> a, std::vector<double> b, std::size_t k, double value) { a[k] = value; return a == b; }

VP_SECTION("atmosphere", 3000, 60000)
{
    atmosphere m;
    m.f0 = rng.chance(0.3) ? 1 : rng.log_uniform(1e-10, 1e10); m.r0 = rng.log_uniform(1e-3, 1e9); m.rc = m.r0 * rng.log_uniform(1.01, 1e4);
    m.n1 = rng.chance(0.3) ? rng.range(0, 5) : rng.uniform(0, 5); m.n2 = rng.chance(0.3) ? rng.range(4, 9) : rng.uniform(3.2, 9);
    if (std::fabs(m.n1 - 3) < 1e-3) m.n1 = 3;
    vp::context(vp::fmt("f0 %.17g r0 %.17g rc %.17g n1 %.17g n2 %.17g", m.f0, m.r0, m.rc, m.n1, m.n2));

    // the profile
    for (int i = 0; i < 8; ++i)
    {
        double r = m.r0 * rng.log_uniform(1, 1e5);
        double want = r < m.rc ? m.f0 * std::pow(r / m.r0, -m.n1) : m.f0 * std::pow(m.rc / m.r0, -m.n1) * std::pow(r / m.rc, -m.n2);
        VP_CHECK(near(m.density_at(r), want, 1e-13), "atmosphere/density", "density %.17g at %.17g, expected %.17g", m.density_at(r), r, want);
    }
    VP_CHECK(near(m.density_at(m.r0), m.f0, 1e-14), "atmosphere/base", "density at the base %.17g", m.density_at(m.r0));
    VP_CHECK(near(m.density_at(m.rc), m.density_at(std::nextafter(m.rc, 1e300)), 1e-12), "atmosphere/join", "the density jumps at the cutoff");

    // masses against integrals of the density the model reports
    auto shell = [&m] (real y) { real r = std::exp(y); return 4 * real(pi) * r * r * r * m.density_at(double(r)); };
    int n = 20 + int(10 * std::log(m.rc / m.r0));
    real inside = integral(shell, std::log(real(m.r0)), std::log(real(m.rc)), n);
    real far = 45.0L / (m.n2 - 3), beyond = integral(shell, std::log(real(m.rc)), std::log(real(m.rc)) + far, 400);
    double slack = 1e-10 / std::min(1.0, std::fabs(m.n1 == 3 ? 1 : m.n1 - 3));
    slack += 1e-13 * m.density_at(m.r0) * std::pow(m.r0, 3) * 40 / std::fabs(double(inside));
    VP_CHECK(near(m.mass_within_cutoff(), inside, slack), "atmosphere/inner-mass", "%.17g, integral %.17Lg", m.mass_within_cutoff(), inside);
    VP_CHECK(near(m.mass_beyond_cutoff(), beyond, 1e-9), "atmosphere/outer-mass", "%.17g, integral %.17Lg", m.mass_beyond_cutoff(), beyond);
    VP_CHECK(near(m.total_mass(), inside + beyond, slack + 1e-9), "atmosphere/total", "%.17g, integral %.17Lg", m.total_mass(), inside + beyond);
    vp::observe(m.n1 == 3 ? "atmosphere-log" : "atmosphere");

    // one parameter at a time
    double v = rng.log_uniform(0.1, 10);
    VP_CHECK(changed_only(parts(m), parts(m.with_coefficient(v)), 0, v) && changed_only(parts(m), parts(m.with_inner_radius(v)), 1, v)
        && changed_only(parts(m), parts(m.with_cutoff_radius(v)), 2, v) && changed_only(parts(m), parts(m.with_inner_index(v)), 3, v)
        && changed_only(parts(m), parts(m.with_outer_index(v)), 4, v), "atmosphere/parameters", "a setter changed another parameter");
    double want = rng.log_uniform(1e-5, 1e40);
    auto w = m.with_total_mass(want);
    VP_CHECK(near(w.total_mass(), want, 1e-12), "atmosphere/with-mass", "requested a mass of %.17g, got %.17g", want, w.total_mass());
    VP_CHECK(changed_only(parts(m), parts(w), 0, w.f0), "atmosphere/with-mass-parameters", "requesting a mass changed another parameter");
    auto again = w.with_total_mass(2 * want);
    VP_CHECK(near(again.total_mass(), 2 * want, 1e-12), "atmosphere/with-mass-again", "requested a mass of %.17g, got %.17g", 2 * want, again.total_mass());
    vp::observe("mass-requested");

    auto endless = m.with_outer_index(rng.chance(0.5) ? 3.0 : rng.uniform(0, 3));
    bool refused = vp::throws([&] { endless.mass_beyond_cutoff(); }) && vp::throws([&] { endless.total_mass(); });
    VP_CHECK(refused, "atmosphere/endless", "an outer index of %.17g has a mass", endless.n2);
    vp::observe("endless");
    if (index % 8 == 0) vp::signature(vp::S().context);
}

//-----------------------------------------------------------------------------
VP_SECTION("cloud and envelope", 3000, 60000)
{
    mara::cloud_and_envelop_model m;
    if (! rng.chance(0.3))
    {
        m.u1 = rng.log_uniform(0.3, 20); m.m1 = rng.log_uniform(1e24, 1e28); m.envelop_mass = m.m1 * rng.log_uniform(3, 1e7);
        m.psi = rng.chance(0.4) ? 0.25 : rng.uniform(0.1, 0.6); m.cloud_index = rng.chance(0.4) ? rng.range(0, 4) : rng.uniform(0, 4);
        if (std::fabs(m.cloud_index - 3) < 1e-2) m.cloud_index = 3;
    }
    double t = rng.log_uniform(0.1, 100), rc = m.cloud_outer_boundary(t), r1 = m.envelop_outer_boundary(t);
    m.inner_radius = rc / rng.log_uniform(1.1, 1e3);
    vp::context(vp::fmt("u1 %.17g m1 %.17g envelope %.17g psi %.17g index %.17g r0 %.17g t %.17g", m.u1, m.m1, m.envelop_mass, m.psi, m.cloud_index, m.inner_radius, t));
    guard_t watch("mass_coordinate");

    auto u_of = [&m] (real x) { return real(m.u1) * std::pow(x / m.m1, -real(m.psi)); };
    auto beta = [] (real u) { return u / std::sqrt(1 + u * u); };
    VP_CHECK(near(m.cloud_velocity(), double(beta(u_of(m.envelop_mass)) * c_light), 1e-13) && near(rc, m.cloud_velocity() * t, 1e-13), "cloud/velocity", "cloud velocity %.17g", m.cloud_velocity());
    VP_CHECK(near(m.cloud_gamma_beta(), double(u_of(m.envelop_mass)), 1e-10 * (1 + m.u1 * m.u1)), "cloud/gamma-beta", "cloud four velocity %.17g", m.cloud_gamma_beta());
    VP_CHECK(near(r1, double(beta(m.u1) * c_light * t), 1e-13), "envelope/outer", "outer boundary %.17g", r1);

    for (int i = 0; i < 6; ++i)
    {
        double x = i == 0 ? m.m1 : i == 1 ? m.envelop_mass : m.m1 * std::pow(m.envelop_mass / m.m1, rng.uniform(0, 1));
        real u = u_of(x);
        VP_CHECK(near(m.gamma_beta(x), double(u), 1e-13) && near(m.velocity(x), double(beta(u) * c_light), 1e-13) && m.velocity(x) < c_light, "envelope/velocity", "four velocity %.17g, velocity %.17g", m.gamma_beta(x), m.velocity(x));
        VP_CHECK(near(m.radius(x, t), m.velocity(x) * t, 1e-13), "envelope/radius", "radius %.17g", m.radius(x, t));
        real h = 1e-5L * x, slope = (u_of(x + h) - u_of(x - h)) / (2 * h);
        VP_CHECK(near(m.dudm(x), double(slope), 1e-8), "envelope/slope", "dudm %.17g, difference quotient %.17Lg", m.dudm(x), slope);
        // the mass in a shell, and proper versus coordinate density
        auto radius = [&] (real y) { return beta(u_of(y)) * c_light * t; };
        real dr = radius(x - h) - radius(x + h), rr = radius(x), lab = 2 * h / (4 * real(pi) * rr * rr * dr), proper = lab / std::sqrt(1 + u * u);
        VP_CHECK(near(m.density(x, t), double(proper), 1e-7), "envelope/density", "density %.17g, mass in a shell gives %.17Lg", m.density(x, t), proper);
        // inverses
        double r = m.radius(x, t), back = m.mass_coordinate(r, t);
        double tol = 1e-8 * (1 + double(u * u)) / m.psi;
        VP_CHECK(near(back, x, tol), "envelope/inverse", "mass %.17g at radius %.17g, radius says %.17g", x, r, back);
        if (r >= rc && r <= r1)
        {
            VP_CHECK(near(m.density_at(r, t), m.density(x, t), 10 * tol), "envelope/density-at", "density %.17g at %.17g, expected %.17g", m.density_at(r, t), r, m.density(x, t));
            VP_CHECK(near(m.gamma_beta_at(r, t), m.gamma_beta(x), 10 * tol), "envelope/gamma-beta-at", "four velocity %.17g at %.17g, expected %.17g", m.gamma_beta_at(r, t), r, m.gamma_beta(x));
            vp::observe("inverse");
        }
    }
    // continuity at both joins, and the regions on either side
    double tol = 1e-6 * (1 + m.u1 * m.u1) / m.psi;
    for (double b : {rc, r1})
    {
        double lo = b * (1 - 1e-9), hi = b * (1 + 1e-9);
        VP_CHECK(near(m.density_at(lo, t), m.density_at(hi, t), tol) && near(m.velocity_at(lo, t), m.velocity_at(hi, t), tol) && near(m.gamma_beta_at(lo, t), m.gamma_beta_at(hi, t), tol), "envelope/join",
            "the profile jumps at %.17g: density %.17g to %.17g, four velocity %.17g to %.17g", b, m.density_at(lo, t), m.density_at(hi, t), m.gamma_beta_at(lo, t), m.gamma_beta_at(hi, t));
        vp::observe("join");
    }
    double in = rc * rng.uniform(0.01, 0.99), out = r1 * rng.log_uniform(1.01, 100);
    VP_CHECK(near(m.density_at(in, t), m.density(m.envelop_mass, t) * std::pow(in / rc, -m.cloud_index), tol) && near(m.gamma_beta_at(in, t), double(u_of(m.envelop_mass)), tol), "cloud/profile", "density %.17g, four velocity %.17g at %.17g", m.density_at(in, t), m.gamma_beta_at(in, t), in);
    VP_CHECK(near(m.density_at(out, t), m.density(m.m1, t) * std::pow(out / r1, -2), tol) && near(m.gamma_beta_at(out, t), m.u1, tol), "envelope/beyond", "density %.17g, four velocity %.17g at %.17g", m.density_at(out, t), m.gamma_beta_at(out, t), out);
    double any = rng.log_uniform(rc * 0.01, r1 * 10), u = m.gamma_beta_at(any, t);
    VP_CHECK(near(m.velocity_at(any, t), u / std::sqrt(1 + u * u) * c_light, 1e-12) && m.velocity_at(any, t) < c_light && m.velocity_at(any, t) > 0, "envelope/velocity-at", "velocity %.17g, four velocity %.17g", m.velocity_at(any, t), u);

    if (index % 8 == 0)
    {
        // mass of the envelope: coordinate density times volume, as the model reports it at radius r
        auto shell = [&] (real r) { real g = m.gamma_beta_at(double(r), t); return 4 * real(pi) * r * r * m.density_at(double(r), t) * std::sqrt(1 + g * g); };
        real mass = integral([&] (real y) { real r = std::exp(y); return r * shell(r); }, std::log(real(rc)), std::log(real(r1)), 60);
        double expect = m.envelop_mass - m.m1;
        if (mass < 0.999 * expect || mass > 1.001 * expect) // steep: follow the mass coordinate
            mass = 0; // the cloud side dominates; use pieces in mass
        if (mass == 0) { mass = 0; int k = 200; for (int i = 0; i < k; ++i) { double a = m.m1 * std::pow(m.envelop_mass / m.m1, double(i) / k), b = m.m1 * std::pow(m.envelop_mass / m.m1, double(i + 1) / k); mass += integral(shell, m.radius(b, t), m.radius(a, t), 2); } }
        VP_CHECK(near(double(mass), expect, 1e-4), "envelope/mass", "the density integrates to %.9Lg, mass %.9g", mass, expect);
        vp::observe("envelope-mass");
        real cloud = integral([&] (real y) { real r = std::exp(y); return 4 * real(pi) * r * r * r * m.density_at(double(r), t); }, std::log(real(m.inner_radius)), std::log(real(rc)), 120);
        VP_CHECK(near(m.cloud_mass(t), double(cloud), 1e-6), "cloud/mass", "cloud mass %.17g, integral %.17Lg", m.cloud_mass(t), cloud);
        VP_CHECK(near(m.total_mass(t), m.cloud_mass(t) + m.envelop_mass, 1e-12), "cloud/total", "total mass %.17g", m.total_mass(t));
        vp::observe(m.cloud_index == 3 ? "cloud-mass-log" : "cloud-mass");
    }
    auto all = [] (const mara::cloud_and_envelop_model& m) { return std::vector<double> {m.inner_radius, m.cloud_index, m.envelop_mass, m.u1, m.m1, m.psi}; };
    VP_CHECK(changed_only(all(m), all(m.with_inner_radius(7.5)), 0, 7.5) && changed_only(all(m), all(m.with_cloud_index(1.5)), 1, 1.5), "cloud/parameters", "a setter changed another parameter");
    if (index % 8 == 0) vp::signature(vp::S().context);
}

//-----------------------------------------------------------------------------
VP_SECTION("jet nozzle", 3000, 60000)
{
    mara::jet_nozzle_model m;
    m.Ej = rng.log_uniform(1e48, 1e52); m.G0 = rng.log_uniform(2, 300); m.tj = rng.log_uniform(0.01, 100); m.qj = rng.log_uniform(0.01, 0.2);
    m.as = rng.chance(0.5) ? 2 : rng.uniform(1, 8); m.r0 = rng.log_uniform(1e6, 1e10);
    vp::context(vp::fmt("Ej %.17g G0 %.17g tj %.17g qj %.17g as %.17g r0 %.17g", m.Ej, m.G0, m.tj, m.qj, m.as, m.r0));
    double c = mara::jet_nozzle_model::light_speed_cgs;
    for (int i = 0; i < 6; ++i)
    {
        double q = i == 0 ? 0 : rng.uniform(0, 4 * m.qj), t = i == 1 ? 0 : rng.uniform(0, 5 * m.tj);
        double fall = std::exp(-std::pow(q / m.qj, m.as)) * std::exp(-t / m.tj);
        if (fall < 1e-60) continue;
        double L = m.luminosity_per_steradian(q, t), want = m.density_at_base() * m.G0 * m.G0 * m.r0 * m.r0 * c * c * c * fall;
        VP_CHECK(near(L, want, 1e-12), "jet/luminosity", "luminosity %.17g, expected %.17g", L, want);
        VP_CHECK(near(m.gamma_beta(q, t), m.G0 * std::sqrt(fall), 1e-11), "jet/gamma-beta", "four velocity %.17g, expected %.17g", m.gamma_beta(q, t), m.G0 * std::sqrt(fall));
        VP_CHECK(near(L, m.density_at_base() * m.r0 * m.r0 * c * c * c * std::pow(m.gamma_beta(q, t), 2), 1e-11), "jet/consistent", "luminosity %.17g, four velocity %.17g", L, m.gamma_beta(q, t));
    }
    // power over both jets and all times
    auto beam = [&] (real q) { return 2 * real(pi) * std::sin(q) * m.luminosity_per_steradian(double(q), 0); };
    real power = 2 * integral(beam, 0, std::min(real(pi / 2), real(m.qj) * 8), 100);
    real energy = integral([&] (real t) { return power * m.luminosity_per_steradian(0, double(t)) / m.luminosity_per_steradian(0, 0); }, 0, real(m.tj) * 45, 300);
    // the estimate is documented for as = 2; elsewhere the angular profile rescales it
    double stated = m.as == 2 ? m.Ej : m.Ej * std::tgamma(1 + 2 / m.as), tolerance = m.as == 2 ? m.qj * m.qj + 1e-6 : 2 * m.qj * m.qj + 0.01;
    VP_CHECK(near(double(energy), stated, tolerance), "jet/energy", "the jets carry %.6Lg, stated energy %.6g", energy, stated);
    vp::observe(m.as == 2 ? "jet-energy" : "jet-energy-other");

    auto all = [] (const mara::jet_nozzle_model& m) { return std::vector<double> {m.Ej, m.G0, m.tj, m.qj, m.as, m.r0}; };
    double v = rng.log_uniform(0.1, 10);
    VP_CHECK(changed_only(all(m), all(m.with_total_energy(v)), 0, v) && changed_only(all(m), all(m.with_lorentz_factor(v)), 1, v) && changed_only(all(m), all(m.with_jet_duration(v)), 2, v)
        && changed_only(all(m), all(m.with_opening_angle(v)), 3, v) && changed_only(all(m), all(m.with_structure_exponent(v)), 4, v) && changed_only(all(m), all(m.with_inner_radius(v)), 5, v), "jet/parameters", "a setter changed another parameter");
    if (index % 8 == 0) vp::signature(vp::S().context);
}

//-----------------------------------------------------------------------------
template<typename P> static P state(double d, double p) { return P().with_mass_density(d).with_gas_pressure(p); }
template<typename P> static void locate(rng_t& rng, const char* name)
{
    double g = rng.chance(0.5) ? 4. / 3 : 5. / 3;
    int n = rng.range(2, 60), style = rng.range(0, 3);
    std::vector<double> d(n), p(n);
    int shock = rng.range(0, n - 2), width = rng.range(0, 3);
    // behind: pressure rising towards the shock up to a maximum; at the shock: fall over a few zones; ahead: plateau
    for (int i = 0; i < n; ++i)
    {
        if (style == 0) { d[i] = rng.log_uniform(0.1, 10); p[i] = rng.log_uniform(0.01, 100); }
        else if (style == 1) { d[i] = rng.range(1, 3); p[i] = rng.range(1, 3); } // ties
        else if (i <= shock) { p[i] = std::pow(10., 2 - 0.01 * (shock - i)); d[i] = 1; }
        else if (i <= shock + width) { p[i] = std::pow(10., 1.0 - 0.3 * (i - shock)); d[i] = 1; }
        else { p[i] = 1e-3 * std::pow(10., -0.001 * (i - shock - width)); d[i] = 1; }
    }
    std::string text; for (int i = 0; i < n; ++i) text += vp::fmt(" %.6g/%.6g", d[i], p[i]);
    vp::context(vp::fmt("%s gamma %.3g shock %d:%s", name, g, shock, text.c_str()));
    auto pr = nd::make_array([&] (auto i) { return state<P>(d[i[0]], p[i[0]]); }, nd::make_shape(n)) | nd::to_shared();

    std::vector<double> s(n), ds; for (int i = 0; i < n; ++i) s[i] = pr(i).specific_entropy(g);
    for (int i = 0; i + 1 < n; ++i) ds.push_back(s[i + 1] - s[i]);
    int expect = int(std::min_element(ds.begin(), ds.end()) - ds.begin());
    auto where = mara::find_shock_index(pr, g);
    VP_CHECK(int(where[0]) == expect, "shock/index", "shock at %d, steepest entropy drop at %d", int(where[0]), expect);
    if (style >= 2 && width == 0) VP_CHECK(int(where[0]) == shock, "shock/planted", "shock at %d", int(where[0]));
    vp::observe(style >= 2 ? "planted" : style == 1 ? "ties" : "rough");
    if (style >= 2) vp::observe(shock == 0 ? "shock-first" : shock == n - 2 ? "shock-last" : "shock-middle");

    for (std::size_t from : {std::size_t(shock), std::size_t(0), std::size_t(n - 1), std::size_t(rng.range(0, n - 1))})
    {
        std::size_t k = from; while (k > 0 && p[k - 1] > p[k]) --k;
        std::size_t got = mara::find_index_of_maximum_pressure_behind(pr, from);
        VP_CHECK(got == k, "shock/maximum", "pressure maximum behind %zu at %zu, expected %zu", from, got, k);
        auto arr = nd::make_array([&] (auto i) { return d[i[0]]; }, nd::make_shape(n)) | nd::to_shared();
        std::size_t j = from; while (j > 0 && d[j - 1] > d[j]) --j;
        VP_CHECK(mara::find_index_of_maximum_behind(arr, from) == j, "shock/maximum", "maximum behind %zu, expected %zu", from, j);
        vp::observe(k == 0 ? "maximum-first" : "maximum");

        std::vector<double> dl; for (int i = 0; i + 1 < n; ++i) dl.push_back(std::log(p[i + 1]) - std::log(p[i]));
        std::size_t a = from, ahead = 0; bool in = true;
        while (true) { if (a < 2 || a - 1 >= dl.size()) { in = false; break; } if (! (dl[a - 1] < 0.5 * dl[a - 2])) break; ++a; }
        ahead = in ? a : 0;
        got = mara::find_index_of_pressure_plateau_ahead(pr, from);
        VP_CHECK(got == ahead, "shock/plateau", "plateau ahead of %zu at %zu, expected %zu", from, got, ahead);
        VP_CHECK(got < std::size_t(n), "shock/plateau-bounds", "plateau index %zu of %d", got, n);
        vp::observe(in ? "plateau" : "no-plateau");
    }
}
VP_SECTION("shock locator", 4000, 100000)
{
    if (index % 2) locate<mara::srhd::primitive_t>(rng, "srhd"); else locate<mara::euler::primitive_t>(rng, "euler");
    if (index % 8 == 0) vp::signature(vp::S().context);
    if (index % 10 == 0) // states that cannot be compared: reported, or an index inside the array
    {
        int n = rng.range(2, 30); std::vector<double> p(n); for (auto& x : p) x = rng.chance(0.3) ? NAN : rng.log_uniform(0.1, 10); if (rng.chance(0.3)) for (auto& x : p) x = NAN; else p[rng.range(0, n - 1)] = NAN;
        auto pr = nd::make_array([&] (auto i) { return state<mara::euler::primitive_t>(1.0, p[i[0]]); }, nd::make_shape(n)) | nd::to_shared(); int got = 0;
        try { got = int(mara::find_shock_index(pr, 4. / 3)[0]); vp::observe("incomparable-located"); } catch (const std::exception&) { vp::observe("incomparable-reported"); }
        VP_CHECK(got >= 0 && got < n, "shock/bounds", "shock index %d of %d", got, n);
    }
}

VP_MAIN()
