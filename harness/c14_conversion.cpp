// C14: primitive and conserved variables convert back and forth faithfully.
#include "gas.hpp"
using namespace gas;

static bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }

//-----------------------------------------------------------------------------
VP_SECTION("isothermal", 60000, 3000000)
{
    double cs2 = rng.log_uniform(1e-6, 1e4);
    auto P = any_iso2d(rng, cs2);
    double s = P.sigma(), vx = P.velocity_x(), vy = P.velocity_y(), v = std::hypot(vx, vy);
    vp::context(show(P));
    auto U = P.to_conserved_per_area();
    auto u = values(U);
    VP_CHECK(near(u[0], s, 0) && near(u[1], s * vx, 4 * eps * s * v) && near(u[2], s * vy, 4 * eps * s * v), "iso2d/definition", "conserved densities differ from (sigma, sigma v)");
    auto R = mara::iso2d::recover_primitive(U);
    VP_CHECK(near(R[0], s, 0) && near(R[1], vx, 8 * eps * v) && near(R[2], vy, 8 * eps * v), "iso2d/round-trip", "recovered %s", show(R).c_str());

    double r = rng.log_uniform(1e-8, 1e6), f = rng.chance(0.2) ? rng.range(0, 3) * M_PI_2 : rng.uniform(0, 2 * M_PI);
    auto x = mara::iso2d::location_2d_t {{mara::make_length(r * std::cos(f)), mara::make_length(r * std::sin(f))}};
    double X = x[0].value, Y = x[1].value;
    auto Q = P.to_conserved_angmom_per_area(x);
    auto q = values(Q);
    double t = 8 * eps * s * v * r;
    VP_CHECK(near(q[0], s, 0) && near(q[1], s * (X * vx + Y * vy), t) && near(q[2], s * (X * vy - Y * vx), t), "iso2d/angmom-definition", "angular-momentum densities differ from sigma (1, x.v, x cross v)");
    auto A = mara::iso2d::recover_primitive(Q, x);
    VP_CHECK(near(A[0], s, 0) && near(A[1], vx, 40 * eps * v) && near(A[2], vy, 40 * eps * v), "iso2d/angmom-round-trip", "recovered %s", show(A).c_str());
    auto B = values(mara::iso2d::to_conserved_per_area(Q, x));
    VP_CHECK(near(B[0], u[0], 0) && near(B[1], u[1], 40 * eps * s * v) && near(B[2], u[2], 40 * eps * s * v), "iso2d/angmom-to-linear", "linear densities from angular-momentum form differ");
    VP_CHECK(near(mara::iso2d::angular_momentum(U, x).value, q[2], t), "iso2d/angular-momentum", "angular momentum of the linear form differs from that of the angular form");
    auto m = mara::iso2d::momentum_vector(U);
    VP_CHECK(m[0].value == u[1] && m[1].value == u[2], "iso2d/momentum", "momentum vector differs");
    VP_CHECK(near(P.gas_pressure(cs2), s * cs2, 4 * eps * s * cs2) && near(P.velocity_squared(), v * v, 8 * eps * v * v) && near(P.velocity_magnitude().value, v, 8 * eps * v), "iso2d/derived", "pressure or speed differ from their definition");

    auto N = mara::iso2d::conserved_per_area_t(U).set<0>(mara::make_dimensional<-2, 1, 0>(-s));
    bool reported = vp::throws_as<std::exception>([&] { mara::iso2d::recover_primitive(N); });
    auto NQ = mara::iso2d::conserved_angmom_per_area_t(Q).set<0>(mara::make_dimensional<-2, 1, 0>(-s));
    bool reportedq = vp::throws_as<std::exception>([&] { mara::iso2d::recover_primitive(NQ, x); });
    VP_CHECK(reported && reportedq, "iso2d/negative-density", "negative density was not reported");
    if (index % 16 == 0) vp::signature(vp::fmt("iso2d %.3g %.3g", s, v));
    vp::observe("iso2d-state");
}

//-----------------------------------------------------------------------------
VP_SECTION("newtonian", 60000, 3000000)
{
    double gm = any_gamma(rng);
    auto P = any_euler(rng, gm);
    double d = P.mass_density(), p = P.gas_pressure(), v2 = P[1] * P[1] + P[2] * P[2] + P[3] * P[3], v = std::sqrt(v2);
    vp::context(show(P) + vp::fmt(" gamma %.17g", gm));
    auto U = P.to_conserved_density(gm);
    auto u = values(U);
    double E = 0.5 * d * v2 + p / (gm - 1);
    bool def = near(u[0], d, 0) && near(u[4], E, 16 * eps * E);
    for (int i = 1; i < 4; ++i) def = def && near(u[i], d * P[i], 4 * eps * d * std::fabs(P[i]));
    VP_CHECK(def, "euler/definition", "conserved densities differ from (rho, rho v, rho v^2 / 2 + p / (gamma - 1))");
    auto back = [&] (const mara::euler::primitive_t& R, const char* key)
    {
        bool ok = near(R[0], d, 0) && near(R[4], p, 40 * eps * E * gm);
        for (int i = 1; i < 4; ++i) ok = ok && near(R[i], P[i], 8 * eps * v);
        VP_CHECK(ok, key, "recovered %s", show(R).c_str());
    };
    double noise = 100 * eps * E * gm;
    back(mara::euler::recover_primitive(U, gm, 0.0), "euler/round-trip");
    back(mara::euler::recover_primitive(U, gm, rng.uniform(0, 0.9) * std::max(0.0, p - noise) / d), "euler/round-trip-below-floor");
    // the floor acts exactly when the temperature is below it
    double T = (p / d + noise / d) * rng.log_uniform(1.01, 100);
    auto F = mara::euler::recover_primitive(U, gm, T);
    VP_CHECK(near(F[4], T * d, 4 * eps * T * d) && F[0] == d, "euler/floor", "temperature %.17g below the floor %.17g recovered as p = %.17g (floor pressure %.17g)", p / d, T, F[4], T * d);
    auto N = U; N[4] = 0.5 * d * v2 - p;
    if (d * v2 < 1e6 * p)
    {
        auto G = mara::euler::recover_primitive(N, gm, T);
        VP_CHECK(near(G[4], T * d, 4 * eps * T * d), "euler/floor-negative", "negative pressure recovered as %.17g with floor pressure %.17g", G[4], T * d);
    }
    double H = p * gm / (gm - 1);
    VP_CHECK(near(P.enthalpy_density(gm), H, 16 * eps * H) && near(P.specific_enthalpy(gm), H / d, 16 * eps * H / d), "euler/enthalpy", "enthalpy differs from its definition");
    VP_CHECK(near(P.specific_entropy(gm), std::log(p) - gm * std::log(d), 1e-12 * (1 + std::fabs(std::log(p)) + gm * std::fabs(std::log(d)))), "euler/entropy", "entropy differs from its definition");
    VP_CHECK(near(P.velocity_squared(), v2, 8 * eps * v2), "euler/speed", "velocity squared differs");
    if (index % 16 == 0) vp::signature(vp::fmt("euler %.3g %.3g %.3g", d, v, p));
    vp::observe("euler-state");
}

//-----------------------------------------------------------------------------
VP_SECTION("relativistic", 60000, 3000000)
{
    double gm = any_gamma(rng);
    auto P = any_srhd(rng, rng.chance(0.2) ? 100.0 : 20.0, 1e-8, 1e8, 1e-7, 1e3);
    double d = P.mass_density(), p = P.gas_pressure();
    long double uu = 0; for (int i = 1; i < 4; ++i) uu += (long double)(P[i]) * P[i];
    double W = std::sqrt(double(1 + uu)), un = std::sqrt(double(uu)), H = d + p * gm / (gm - 1);
    vp::context(show(P) + vp::fmt(" gamma %.17g", gm));

    VP_CHECK(near(P.lorentz_factor(), W, 8 * eps * W) && near(P.gamma_beta_squared(), double(uu), 8 * eps * double(uu)), "srhd/lorentz", "Lorentz factor differs from sqrt(1 + u^2)");
    VP_CHECK(near(P.enthalpy_density(gm), H, 16 * eps * H) && near(P.specific_enthalpy(gm), H / d, 16 * eps * H / d), "srhd/enthalpy", "enthalpy differs from its definition");
    VP_CHECK(near(P.specific_entropy(gm), std::log(p) - gm * std::log(d), 1e-12 * (1 + std::fabs(std::log(p)) + gm * std::fabs(std::log(d)))), "srhd/entropy", "entropy differs from its definition");
    auto U = P.to_conserved_density(gm);
    auto u = values(U);
    double D = d * W, tau = double((long double)(H) * (1 + uu) - p - D);
    double scale = H * W * W;
    bool def = near(u[0], D, 16 * eps * D) && near(u[4], tau, 40 * eps * scale);
    for (int i = 1; i < 4; ++i) def = def && near(u[i], H * W * P[i], 16 * eps * H * W * un);
    VP_CHECK(def, "srhd/definition", "conserved densities differ from (rho W, rho h W u, rho h W^2 - p - rho W)");

    // numerical noise of the inversion: round-off is amplified by the Lorentz factor squared
    double noise = 200 * eps * W * W;
    // the root is found to 1e-10 of rho + p, divided by the slope of the equation solved
    double slope = 1 - double(uu / (1 + uu)) * gm * p / H, root = 4e-10 * (1 + p / d) * d / H / slope;
    double tol_p = (1e-9 + 4e-10 / slope) * p + noise * H, tol_d = (root + noise) * d, tol_u = (root + noise) * (un + eps);
    if (p < 20 * noise * H) { vp::observe("too-cold-for-double"); return; }

    auto back = [&] (double floor, const char* key)
    {
        try
        {
            auto R = mara::srhd::recover_primitive(U, gm, floor);
            bool ok = near(R[0], d, tol_d) && near(R[4], p, tol_p);
            for (int i = 1; i < 4; ++i) ok = ok && near(R[i], P[i], tol_u);
            VP_CHECK(ok, key, "recovered %s", show(R).c_str());
            vp::observe("srhd-recovered");
        }
        catch (const std::exception& e) { VP_CHECK(false, std::string(key) + "-refused", "a physical state was refused: %s", e.what()); }
    };
    back(0.0, "srhd/round-trip");
    back(0.5 * rng.unit() * p / d, "srhd/round-trip-below-floor");
    double T = p / d * rng.log_uniform(1.01, 100);
    auto F = mara::srhd::recover_primitive(U, gm, T);
    VP_CHECK(near(F[4], T * F[0], 1e-12 * F[4]) && near(F[0], d, tol_d), "srhd/floor", "floor pressure %.17g, recovered %.17g", T * d, F[4]);
    if (index % 16 == 0) vp::signature(vp::fmt("srhd %.3g %.3g %.3g", d, W, p));
}

// anything at all either is reported or comes back physical
VP_SECTION("relativistic, arbitrary input", 20000, 500000)
{
    double gm = any_gamma(rng);
    auto U = mara::srhd::conserved_density_t();
    auto any = [&] (double lo, double hi)
    {
        switch (rng.range(0, 11))
        {
            case 0: return 0.0;
            case 1: return -rng.log_uniform(lo, hi);
            case 2: return std::numeric_limits<double>::quiet_NaN();
            default: return rng.log_uniform(lo, hi);
        }
    };
    for (int i = 0; i < 5; ++i) U[i].value = any(1e-6, 1e6);
    for (int i = 1; i < 4; ++i) if (rng.chance(0.5)) U[i].value *= -1e-3;
    double T = rng.chance(0.5) ? 0.0 : rng.log_uniform(1e-6, 1);
    vp::context(vp::fmt("U = (%.17g %.17g %.17g %.17g %.17g) gamma %.17g floor %.17g", U[0].value, U[1].value, U[2].value, U[3].value, U[4].value, gm, T));
    try
    {
        auto R = mara::srhd::recover_primitive(U, gm, T);
        bool finite = true;
        for (int i = 0; i < 5; ++i) finite = finite && std::isfinite(R[i]);
        VP_CHECK(finite && R[0] > 0.0 && R[4] > 0.0 && R[4] >= T * R[0] * (1 - 1e-12), "srhd/unphysical-result", "returned %s", show(R).c_str());
        auto b = R.beta_along(mara::unit_vector_t::on_axis_1());
        VP_CHECK(std::fabs(b) <= 1.0, "srhd/superluminal", "velocity %.17g", b);
        vp::observe("arbitrary-recovered");
    }
    catch (const std::exception&) { vp::observe("arbitrary-refused"); }
    if (index % 8 == 0) vp::signature(vp::S().context);
}

// conserved states with no physical solution are reported when no floor is requested
VP_SECTION("relativistic, unphysical input", 20000, 500000)
{
    double gm = any_gamma(rng);
    auto P = any_srhd(rng, 10.0, 1e-4, 1e4, 1e-4, 1e2);
    auto U = P.to_conserved_density(gm);
    double S = std::sqrt(U[1].value * U[1].value + U[2].value * U[2].value + U[3].value * U[3].value), D = U[0].value;
    const char* what = "";
    switch (rng.range(0, 3))
    {
        case 0: U[4].value = (std::sqrt(D * D + S * S) - D) * rng.log_uniform(1e-9, 0.99) - 1e-6 * D; what = "less energy than cold gas"; break;
        case 1: U[0].value *= -1; what = "negative density"; break;
        case 2: U[4].value = -rng.uniform(0.01, 0.9) * D; what = "negative energy"; break;
        default: U[rng.range(0, 4)].value = std::numeric_limits<double>::quiet_NaN(); what = "not a number"; break;
    }
    vp::context(vp::fmt("%s: U = (%.17g %.17g %.17g %.17g %.17g) gamma %.17g", what, U[0].value, U[1].value, U[2].value, U[3].value, U[4].value, gm));
    bool reported = vp::throws_as<std::exception>([&] { mara::srhd::recover_primitive(U, gm, 0.0); });
    VP_CHECK(reported, "srhd/not-reported", "%s was not reported", what);
    vp::observe("unphysical-reported");
}

//-----------------------------------------------------------------------------
// named accessors and replacements
template<typename P> static void named(rng_t& rng, const char* system, std::vector<std::function<double(const P&)>> get, std::vector<std::function<P(const P&, double)>> with)
{
    P p;
    std::size_t n = get.size();
    for (std::size_t i = 0; i < n; ++i) p[i] = rng.uniform(-9, 9);
    for (std::size_t i = 0; i < n; ++i)
    {
        VP_CHECK(get[i](p) == p[i], std::string(system) + "/accessor", "accessor %zu", i);
        double x = rng.uniform(-9, 9);
        auto q = with[i](p, x);
        bool ok = true;
        for (std::size_t j = 0; j < n; ++j) ok = ok && q[j] == (j == i ? x : p[j]);
        VP_CHECK(ok, std::string(system) + "/replacement", "replacing component %zu", i);
    }
}
VP_SECTION("components", 300, 3000)
{
    using I = mara::iso2d::primitive_t; using E = mara::euler::primitive_t; using S = mara::srhd::primitive_t;
    named<I>(rng, "iso2d", {&I::sigma, &I::velocity_x, &I::velocity_y}, {&I::with_sigma, &I::with_velocity_x, &I::with_velocity_y});
    named<E>(rng, "euler", {&E::mass_density, &E::velocity_1, &E::velocity_2, &E::velocity_3, &E::gas_pressure},
        {&E::with_mass_density, &E::with_velocity_1, &E::with_velocity_2, &E::with_velocity_3, &E::with_gas_pressure});
    named<S>(rng, "srhd", {&S::mass_density, &S::gamma_beta_1, &S::gamma_beta_2, &S::gamma_beta_3, &S::gas_pressure},
        {&S::with_mass_density, &S::with_gamma_beta_1, &S::with_gamma_beta_2, &S::with_gamma_beta_3, &S::with_gas_pressure});
}

VP_MAIN()
