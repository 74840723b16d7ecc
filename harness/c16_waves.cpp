// C16: signal speeds, eigenvectors and source terms match the equations.
#include <complex>
#include "gas.hpp"
using namespace gas;
using real = long double;
using cplx = std::complex<long double>;

// Textbook densities and fluxes, evaluated with complex numbers: an imaginary
// perturbation of 1e-60 gives derivatives to the accuracy of long double.
static const real tiny = 1e-60L;
template<typename T> using vec5 = std::array<T, 5>;
struct iso_eq
{
    static constexpr int N = 3; real c2;
    template<typename T> std::array<T, 3> U(const std::array<T, 3>& P) const { return {P[0], P[0] * P[1], P[0] * P[2]}; }
    template<typename T> std::array<T, 3> F(const std::array<T, 3>& P, const vec& n) const
    {
        T v = P[1] * real(n[0]) + P[2] * real(n[1]), p = P[0] * c2;
        return {P[0] * v, P[0] * v * P[1] + p * real(n[0]), P[0] * v * P[2] + p * real(n[1])};
    }
};
struct euler_eq
{
    static constexpr int N = 5; real gm;
    template<typename T> vec5<T> U(const vec5<T>& P) const { return {P[0], P[0] * P[1], P[0] * P[2], P[0] * P[3], P[0] * (P[1] * P[1] + P[2] * P[2] + P[3] * P[3]) * real(0.5) + P[4] / (gm - 1)}; }
    template<typename T> vec5<T> F(const vec5<T>& P, const vec& n) const
    {
        auto u = U(P); T v = P[1] * real(n[0]) + P[2] * real(n[1]) + P[3] * real(n[2]);
        return {u[0] * v, u[1] * v + P[4] * real(n[0]), u[2] * v + P[4] * real(n[1]), u[3] * v + P[4] * real(n[2]), (u[4] + P[4]) * v};
    }
};
struct srhd_eq
{
    static constexpr int N = 5; real gm;
    template<typename T> vec5<T> U(const vec5<T>& P) const
    {
        T W = std::sqrt(real(1) + P[1] * P[1] + P[2] * P[2] + P[3] * P[3]), H = P[0] + P[4] * (gm / (gm - 1));
        return {P[0] * W, H * W * P[1], H * W * P[2], H * W * P[3], H * W * W - P[4] - P[0] * W};
    }
    template<typename T> vec5<T> F(const vec5<T>& P, const vec& n) const
    {
        auto u = U(P); T W = std::sqrt(real(1) + P[1] * P[1] + P[2] * P[2] + P[3] * P[3]), v = (P[1] * real(n[0]) + P[2] * real(n[1]) + P[3] * real(n[2])) / W;
        return {u[0] * v, u[1] * v + P[4] * real(n[0]), u[2] * v + P[4] * real(n[1]), u[3] * v + P[4] * real(n[2]), (u[4] + P[4]) * v};
    }
};

// sign of det(dF/dP - s dU/dP), columns and rows scaled
template<typename E> static real determinant(const E& eq, const std::array<real, E::N>& P, const vec& n, real s)
{
    constexpr int N = E::N;
    real M[N][N];
    for (int j = 0; j < N; ++j)
    {
        std::array<cplx, N> Q; for (int i = 0; i < N; ++i) Q[i] = P[i];
        Q[j] += cplx(0, tiny);
        auto F = eq.F(Q, n), U = eq.U(Q);
        for (int i = 0; i < N; ++i) M[i][j] = (F[i].imag() - s * U[i].imag()) / tiny;
    }
    for (int j = 0; j < N; ++j) { real m = 0; for (int i = 0; i < N; ++i) m = std::max(m, std::fabs(M[i][j])); if (m > 0) for (int i = 0; i < N; ++i) M[i][j] /= m; }
    for (int i = 0; i < N; ++i) { real m = 0; for (int j = 0; j < N; ++j) m = std::max(m, std::fabs(M[i][j])); if (m > 0) for (int j = 0; j < N; ++j) M[i][j] /= m; }
    real det = 1;
    for (int k = 0; k < N; ++k)
    {
        int p = k; for (int i = k; i < N; ++i) if (std::fabs(M[i][k]) > std::fabs(M[p][k])) p = i;
        if (p != k) { det = -det; for (int j = 0; j < N; ++j) std::swap(M[p][j], M[k][j]); }
        det *= M[k][k];
        if (M[k][k] == 0) return 0;
        for (int i = k + 1; i < N; ++i) { real f = M[i][k] / M[k][k]; for (int j = k; j < N; ++j) M[i][j] -= f * M[k][j]; }
    }
    return det;
}
// the speed s is a simple root of the characteristic polynomial to within d
template<typename E> static bool characteristic(const E& eq, const std::array<real, E::N>& P, const vec& n, real s, real d)
{
    return determinant(eq, P, n, s - d) * determinant(eq, P, n, s + d) < 0;
}
static vec components(const mara::unit_vector_t& n) { return {n.get_n1(), n.get_n2(), n.get_n3()}; }

//-----------------------------------------------------------------------------
VP_SECTION("signal speeds, isothermal", 40000, 1000000)
{
    double cs2 = rng.log_uniform(1e-6, 1e4);
    auto P = any_iso2d(rng, cs2);
    auto n = any_planar(rng); auto nv = components(n);
    vp::context(show(P) + vp::fmt(" cs2 %.17g n (%.17g %.17g)", cs2, nv[0], nv[1]));
    auto w = P.wavespeeds(n, cs2), m = P.wavespeeds(negated(n), cs2);
    double cs = std::sqrt(cs2), vn = P[1] * nv[0] + P[2] * nv[1], V = std::hypot(P[1], P[2]) + cs, t = 16 * eps * V;
    VP_CHECK(std::fabs(w.m.value - (vn - cs)) <= t && std::fabs(w.p.value - (vn + cs)) <= t, "iso2d/speeds", "%.17g %.17g are not velocity %.17g -+ sound speed %.17g", w.m.value, w.p.value, vn, cs);
    VP_CHECK(std::fabs(w.m.value + m.p.value) <= t && std::fabs(w.p.value + m.m.value) <= t && w.m.value < w.p.value, "iso2d/reflected", "speeds do not change sign with the direction");
    VP_CHECK(std::fabs(P.velocity_along(n) - vn) <= t, "iso2d/velocity-along", "velocity along the direction");
    double top = 0;
    for (int a = 0; a < 2; ++a) top = std::max({top, std::fabs(P[1 + a] - cs), std::fabs(P[1 + a] + cs)});
    VP_CHECK(std::fabs(P.max_wavespeed(cs2) - top) <= t, "iso2d/max", "largest signal speed %.17g, expected %.17g", P.max_wavespeed(cs2), top);
    iso_eq eq {cs2};
    std::array<real, 3> Q {P[0], P[1], P[2]};
    real d = 1e-6L * cs + 100 * eps * V;
    if (d < 0.1L * cs)
    VP_CHECK(characteristic(eq, Q, nv, w.m.value, d) && characteristic(eq, Q, nv, w.p.value, d), "iso2d/characteristic", "signal speeds %.17g %.17g are not roots of the characteristic polynomial", w.m.value, w.p.value);
    if (index % 16 == 0) vp::signature(vp::fmt("iso2d %.2g %.2g", vn, cs));
    vp::observe("iso2d-speeds");
}
VP_SECTION("signal speeds, newtonian", 40000, 1000000)
{
    double gm = any_gamma(rng);
    auto P = any_euler(rng, gm);
    auto n = any_direction(rng); auto nv = components(n);
    vp::context(show(P) + vp::fmt(" gamma %.17g n (%.17g %.17g %.17g)", gm, nv[0], nv[1], nv[2]));
    auto w = P.wavespeeds(n, gm), m = P.wavespeeds(negated(n), gm);
    double cs2 = gm * P[4] / P[0], cs = std::sqrt(cs2), vn = P[1] * nv[0] + P[2] * nv[1] + P[3] * nv[2], V = std::sqrt(P.velocity_squared()) + cs, t = 16 * eps * V;
    VP_CHECK(std::fabs(P.sound_speed_squared(gm) - cs2) <= 8 * eps * cs2, "euler/sound-speed", "sound speed squared %.17g, expected %.17g", P.sound_speed_squared(gm), cs2);
    VP_CHECK(std::fabs(w.m.value - (vn - cs)) <= t && std::fabs(w.p.value - (vn + cs)) <= t, "euler/speeds", "%.17g %.17g are not velocity %.17g -+ sound speed %.17g", w.m.value, w.p.value, vn, cs);
    VP_CHECK(std::fabs(w.m.value + m.p.value) <= t && std::fabs(w.p.value + m.m.value) <= t && w.m.value < w.p.value, "euler/reflected", "speeds do not change sign with the direction");
    VP_CHECK(std::fabs(P.velocity_along(n) - vn) <= t, "euler/velocity-along", "velocity along the direction");
    euler_eq eq {gm};
    std::array<real, 5> Q {P[0], P[1], P[2], P[3], P[4]};
    real d = 1e-6L * cs + 100 * eps * V;
    VP_CHECK(characteristic(eq, Q, nv, w.m.value, d) && characteristic(eq, Q, nv, w.p.value, d), "euler/characteristic", "signal speeds %.17g %.17g are not roots of the characteristic polynomial", w.m.value, w.p.value);
    if (index % 16 == 0) vp::signature(vp::fmt("euler %.2g %.2g %.2g", vn, cs, V));
    vp::observe("euler-speeds");
}
VP_SECTION("signal speeds, relativistic", 60000, 1500000)
{
    double gm = any_gamma(rng);
    auto P = any_srhd(rng, rng.chance(0.2) ? 100 : 20, 1e-6, 1e6, 1e-6, 1e4);
    auto n = any_direction(rng); auto nv = components(n);
    vp::context(show(P) + vp::fmt(" gamma %.17g n (%.17g %.17g %.17g)", gm, nv[0], nv[1], nv[2]));
    auto w = P.wavespeeds(n, gm), m = P.wavespeeds(negated(n), gm);
    real uu = real(P[1]) * P[1] + real(P[2]) * P[2] + real(P[3]) * P[3], W2 = 1 + uu, W = std::sqrt(W2);
    real un = real(P[1]) * nv[0] + real(P[2]) * nv[1] + real(P[3]) * nv[2], vn = un / W, vv = uu / W2;
    real c2 = real(gm) * P[4] / (P[0] + real(P[4]) * gm / (real(gm) - 1));
    VP_CHECK(std::fabs(P.sound_speed_squared(gm) - c2) <= 16 * eps * c2 && c2 < 1, "srhd/sound-speed", "sound speed squared %.17g, expected %.17Lg", P.sound_speed_squared(gm), c2);
    VP_CHECK(std::fabs(P.beta_along(n) - vn) <= 16 * eps, "srhd/velocity-along", "velocity %.17g along the direction, expected %.17Lg", P.beta_along(n), vn);
    real k = std::sqrt(c2 / W2 * (1 - vv * c2 - vn * vn * (1 - c2))), lo = (vn * (1 - c2) - k) / (1 - vv * c2), hi = (vn * (1 - c2) + k) / (1 - vv * c2);
    // round-off: 1 - v^2 is formed from v^2 close to one
    double t = 40 * eps * double(1 / (1 - vv * c2) * (1 + c2 / std::max<real>(k, 1e-12L)));
    VP_CHECK(std::fabs(w.m.value - lo) <= t && std::fabs(w.p.value - hi) <= t, "srhd/speeds", "%.17g %.17g, expected %.17Lg %.17Lg", w.m.value, w.p.value, lo, hi);
    VP_CHECK(std::fabs(w.m.value + m.p.value) <= t && std::fabs(w.p.value + m.m.value) <= t, "srhd/reflected", "speeds do not change sign with the direction");
    VP_CHECK(w.m.value <= w.p.value && std::fabs(w.m.value) <= 1 && std::fabs(w.p.value) <= 1, "srhd/subluminal", "%.17g %.17g", w.m.value, w.p.value);
    VP_CHECK(w.m.value <= vn + t && w.p.value >= vn - t, "srhd/brackets-flow", "speeds %.17g %.17g do not bracket the velocity %.17Lg", w.m.value, w.p.value, vn);
    srhd_eq eq {gm};
    std::array<real, 5> Q {P[0], P[1], P[2], P[3], P[4]};
    real gap = std::min({hi - vn, vn - lo}), d = 0.02L * gap;
    if (d > 4 * t) { VP_CHECK(characteristic(eq, Q, nv, w.m.value, d) && characteristic(eq, Q, nv, w.p.value, d), "srhd/characteristic", "signal speeds %.17g %.17g are not roots of the characteristic polynomial", w.m.value, w.p.value); vp::observe("srhd-characteristic"); }
    if (index % 16 == 0) vp::signature(vp::fmt("srhd %.2Lg %.2Lg %.2Lg", vn, c2, W));
    vp::observe("srhd-speeds");
}

//-----------------------------------------------------------------------------
using mat5 = std::array<std::array<real, 5>, 5>;
template<typename M> static mat5 full(const M& m) { mat5 r; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) r[i][j] = m(i, j).value; return r; }
static mat5 product(const mat5& a, const mat5& b) { mat5 r {}; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) r[i][j] += a[i][k] * b[k][j]; return r; }

VP_SECTION("eigensystem", 40000, 1000000)
{
    double gm = any_gamma(rng);
    auto P = any_euler(rng, gm, 20);
    vp::context(show(P) + vp::fmt(" gamma %.17g", gm));
    euler_eq eq {gm};
    // dF/dU through the primitive variables: column j of (dF/dP)(dP/dU)
    mat5 J;
    real V = std::sqrt(real(P.velocity_squared())) + std::sqrt(real(gm) * P[4] / P[0]), m = gm - real(1);
    real unit[5] = {1, V, V, V, V * V};
    for (int j = 0; j < 5; ++j)
    {
        auto u = eq.U(std::array<real, 5>{P[0], P[1], P[2], P[3], P[4]});
        std::array<cplx, 5> U; for (int i = 0; i < 5; ++i) U[i] = u[i];
        U[j] += cplx(0, tiny);
        cplx d = U[0];
        std::array<cplx, 5> Q {d, U[1] / d, U[2] / d, U[3] / d, (U[4] - (U[1] * U[1] + U[2] * U[2] + U[3] * U[3]) / d * real(0.5)) * m};
        auto F = eq.F(Q, vec{1, 0, 0});
        for (int i = 0; i < 5; ++i) J[i][j] = F[i].imag() / tiny;
    }
    real c = 100 * eps / m;  // internal energies and enthalpies are formed with 1 / (gamma - 1)
    auto equal = [&] (const mat5& a, const mat5& b, real size, auto scale)
    {
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (! (std::fabs(a[i][j] - b[i][j]) <= c * size * scale(i, j))) return false;
        return true;
    };
    auto A = full(P.flux_jacobian(gm)), R = full(P.right_eigenvectors(gm)), L = full(P.left_eigenvectors(gm)), D = full(P.eigenvalues(gm));
    auto natural = [&] (int i, int j) { return unit[i] / unit[j] * V; };
    VP_CHECK(equal(A, J, 1 / m, natural), "jacobian", "the flux Jacobian differs from the derivative of the flux");
    mat5 Z {}; real a = std::sqrt(real(gm) * P[4] / P[0]), u = P[1];
    real ev[5] = {u - a, u, u, u, u + a};
    for (int i = 0; i < 5; ++i) Z[i][i] = ev[i];
    VP_CHECK(equal(D, Z, 1, [&] (int i, int j) { return V; }), "eigenvalues", "eigenvalues are not u - a, u, u, u, u + a");
    // eigenvectors carry units of velocity for the two shear waves
    real wave[5] = {1, 1, V, V, 1};
    real mach = V / a;
    VP_CHECK(equal(product(A, R), product(R, D), 1 / m, [&] (int i, int j) { return unit[i] * V / wave[j]; }), "right-eigenvectors", "J R differs from R diag(eigenvalues)");
    mat5 I {}; for (int i = 0; i < 5; ++i) I[i][i] = 1;
    real big = mach * mach * 40;
    VP_CHECK(equal(product(L, R), I, big, [&] (int i, int j) { return wave[i] / wave[j]; }), "inverse", "left and right eigenvectors are not mutually inverse");
    VP_CHECK(equal(product(R, L), I, big, [&] (int i, int j) { return unit[i] / unit[j]; }), "inverse-2", "R L is not the identity");
    auto sys = P.eigensystem(gm);
    VP_CHECK(full(std::get<0>(sys)) == D && full(std::get<1>(sys)) == R && full(std::get<2>(sys)) == L, "eigensystem", "values computed together differ from those computed one by one");
    if (index % 16 == 0) vp::signature(vp::fmt("eigen %.3Lg %.3Lg", V, a));
    vp::observe("eigensystem");
}

//-----------------------------------------------------------------------------
VP_SECTION("averaged states", 40000, 1000000)
{
    {
        double cs2 = rng.log_uniform(1e-4, 1e2);
        auto l = any_iso2d(rng, cs2, 20), r = any_iso2d(rng, cs2, 20);
        auto n = any_planar(rng); auto nv = components(n);
        vp::context(show(l) + show(r) + vp::fmt(" cs2 %.17g", cs2));
        auto q = mara::iso2d::roe_average(l, r), q2 = mara::iso2d::roe_average(r, l);
        iso_eq eq {cs2};
        std::array<real, 3> Q {q[0], q[1], q[2]}, A {l[0], l[1], l[2]}, B {r[0], r[1], r[2]};
        real V = std::hypot(l[1], l[2]) + std::hypot(r[1], r[2]) + std::sqrt(cs2), S = l[0] + r[0];
        // J(Q) as the derivative with respect to densities
        real J[3][3];
        for (int j = 0; j < 3; ++j)
        {
            auto u = eq.U(Q);
            std::array<cplx, 3> U {u[0], u[1], u[2]}; U[j] += cplx(0, tiny);
            auto F = eq.F(std::array<cplx, 3> {U[0], U[1] / U[0], U[2] / U[0]}, nv);
            for (int i = 0; i < 3; ++i) J[i][j] = F[i].imag() / tiny;
        }
        auto Ul = eq.U(A), Ur = eq.U(B), Fl = eq.F(A, nv), Fr = eq.F(B, nv);
        bool ok = true;
        for (int i = 0; i < 3; ++i)
        {
            real jump = 0; for (int j = 0; j < 3; ++j) jump += J[i][j] * (Ur[j] - Ul[j]);
            ok = ok && std::fabs(jump - (Fr[i] - Fl[i])) <= 200 * eps * S * V * (i ? V : 1);
        }
        VP_CHECK(ok, "iso2d/roe-jump", "A(Q) (Ur - Ul) differs from F(Ur) - F(Ul)");
        bool symmetric = true; for (int i = 0; i < 3; ++i) symmetric = symmetric && std::fabs(q[i] - q2[i]) <= 16 * eps * double(i ? V : S);
        VP_CHECK(symmetric, "iso2d/roe-symmetric", "the averaged state depends on the order");
    }
    {
        double gm = any_gamma(rng);
        auto l = any_euler(rng, gm, 20), r = any_euler(rng, gm, 20);
        vp::context(show(l) + show(r));
        auto q = mara::euler::roe_average(l, r), q2 = mara::euler::roe_average(r, l), same = mara::euler::roe_average(l, l);
        bool ok = true, symmetric = true, fixed = true;
        real kl = std::sqrt(real(l[0])), kr = std::sqrt(real(r[0]));
        for (int i = 0; i < 5; ++i)
        {
            double t = 16 * eps * (std::fabs(l[i]) + std::fabs(r[i]));
            ok = ok && std::fabs(q[i] - (kl * l[i] + kr * r[i]) / (kl + kr)) <= t;
            symmetric = symmetric && std::fabs(q[i] - q2[i]) <= t;
            fixed = fixed && std::fabs(same[i] - l[i]) <= t;
        }
        VP_CHECK(ok && symmetric && fixed, "euler/roe-average", "not the average weighted by the square root of density: %s", show(q).c_str());
    }
    if (index % 16 == 0) vp::signature(vp::S().context);
    vp::observe("averaged");
}

// The documentation promises the jump identity for the Newtonian average too. It does not hold
// when both velocity and pressure jump (recorded in known_findings.json for this input).
VP_SECTION("newtonian jump identity", 1, 1)
{
    double gm = 1.4;
    auto l = mara::euler::primitive_t().with_mass_density(1).with_velocity_1(0.5).with_gas_pressure(1);
    auto r = mara::euler::primitive_t().with_mass_density(0.125).with_velocity_1(-0.25).with_gas_pressure(0.1);
    vp::context(show(l) + show(r));
    auto A = full(mara::euler::roe_average(l, r).flux_jacobian(gm));
    auto Ul = values(l.to_conserved_density(gm)), Ur = values(r.to_conserved_density(gm));
    auto n = mara::unit_vector_t::on_axis_1();
    auto Fl = values(l.flux(n, gm)), Fr = values(r.flux(n, gm));
    bool ok = true;
    for (int i = 0; i < 5; ++i)
    {
        real jump = 0; for (int j = 0; j < 5; ++j) jump += A[i][j] * (real(Ur[j]) - Ul[j]);
        ok = ok && std::fabs(jump - (real(Fr[i]) - Fl[i])) < 1e-9L;
    }
    VP_CHECK(ok, "euler/roe-jump", "A(Q) (Ur - Ul) differs from F(Ur) - F(Ul) for rho 1 0.125, v 0.5 -0.25, p 1 0.1");
    vp::signature("roe-jump");
}

//-----------------------------------------------------------------------------
// A uniform flow is steady: in spherical components the divergence of its flux
// is balanced by the source terms, whatever the position and the velocity.
template<typename E, typename P> static std::array<real, 5> spherical_divergence(const E& eq, const P& cart, real r, real q, real f, bool with_pressure=true)
{
    auto local = [&] (cplx th, cplx ph)
    {
        cplx vx = cart[1], vy = cart[2], vz = cart[3], st = std::sin(th), ct = std::cos(th), sp = std::sin(ph), cp = std::cos(ph);
        return std::array<cplx, 5> {cplx(cart[0]), vx * st * cp + vy * st * sp + vz * ct, vx * ct * cp + vy * ct * sp - vz * st, -vx * sp + vy * cp, cplx(cart[4])};
    };
    cplx h(0, tiny);
    auto Fr = eq.F(local(q, f), vec{1, 0, 0});
    auto Fq = eq.F(local(q + h, f), vec{0, 1, 0});
    auto Ff = eq.F(local(q, f + h), vec{0, 0, 1});
    std::array<real, 5> div;
    for (int i = 0; i < 5; ++i) div[i] = (2 * Fr[i].real() + (std::sin(q + h) * Fq[i]).imag() / tiny / std::sin(q) + Ff[i].imag() / tiny / std::sin(q)) / r;
    return div;
}
template<typename P, typename E> static void geometry(const char* system, const E& eq, const P& cart, double gm, rng_t& rng)
{
    double r = rng.log_uniform(1e-3, 1e6), q = rng.chance(0.2) ? M_PI_2 : rng.uniform(0.05, M_PI - 0.05), f = rng.uniform(0, 2 * M_PI);
    real st = std::sin(real(q)), ct = std::cos(real(q)), sp = std::sin(real(f)), cp = std::cos(real(f));
    auto p = cart;
    p[1] = double(cart[1] * st * cp + cart[2] * st * sp + cart[3] * ct);
    p[2] = double(cart[1] * ct * cp + cart[2] * ct * sp - cart[3] * st);
    p[3] = double(-cart[1] * sp + cart[2] * cp);
    vp::context(show(p) + vp::fmt(" gamma %.17g at r %.17g theta %.17g", gm, r, q));
    auto S = p.spherical_geometry_source_terms(r, q, gm);
    auto D = spherical_divergence(eq, cart, real(r), real(q), real(f));
    std::array<cplx, 5> c; for (int i = 0; i < 5; ++i) c[i] = cart[i];
    real size = 0; for (int a = 0; a < 3; ++a) { auto F = eq.F(c, vec{a == 0 ? 1. : 0., a == 1 ? 1. : 0., a == 2 ? 1. : 0.}); for (int i = 1; i < 4; ++i) size = std::max(size, std::fabs(F[i].real())); }
    size /= r * st * st;
    bool ok = S[0].value == 0 && S[4].value == 0;
    for (int i = 1; i < 4; ++i) ok = ok && std::fabs(S[i].value - D[i]) <= 200 * eps * size;
    VP_CHECK(ok, std::string(system) + "/spherical-source", "source (%.17g %.17g %.17g %.17g %.17g), divergence of uniform flow (%.17Lg %.17Lg %.17Lg)", S[0].value, S[1].value, S[2].value, S[3].value, S[4].value, D[1], D[2], D[3]);
    // radial flow
    auto w = p; w[3] = 0; if (rng.chance(0.5)) w[2] = 0;
    auto R = w.spherical_geometry_source_terms_radial(r, gm), G = w.spherical_geometry_source_terms(r, M_PI_2, gm);
    VP_CHECK(std::fabs(R[1].value - G[1].value) <= 16 * eps * std::fabs(G[1].value) && R[0].value == 0 && R[2].value == 0 && R[3].value == 0 && R[4].value == 0, std::string(system) + "/radial-source", "radial source %.17g, general source %.17g", R[1].value, G[1].value);
    vp::observe(std::string(system) + "-source");
}
VP_SECTION("source terms", 40000, 1000000)
{
    double gm = any_gamma(rng);
    auto e = any_euler(rng, gm, 50);
    geometry("euler", euler_eq {gm}, e, gm, rng);
    auto s = any_srhd(rng, 20, 1e-6, 1e6);
    geometry("srhd", srhd_eq {gm}, s, gm, rng);
    if (index % 16 == 0) vp::signature(vp::S().context);

    // the disk: in angular-momentum form the divergence of the flux of a uniform flow
    double cs2 = rng.log_uniform(1e-4, 1e2);
    auto P = any_iso2d(rng, cs2, 30);
    double x = rng.uniform(-10, 10), y = rng.uniform(-10, 10), h = rng.uniform(0.1, 1);
    vp::context(show(P) + vp::fmt(" cs2 %.17g at (%g %g)", cs2, x, y));
    auto at = [] (double x, double y) { return mara::iso2d::location_2d_t {{mara::make_length(x), mara::make_length(y)}}; };
    auto Fx = P.flux(mara::unit_vector_t::on_axis_1(), cs2), Fy = P.flux(mara::unit_vector_t::on_axis_2(), cs2);
    auto a = values(mara::iso2d::to_conserved_angmom_flux(Fx, at(x + h, y))), b = values(mara::iso2d::to_conserved_angmom_flux(Fx, at(x - h, y)));
    auto c = values(mara::iso2d::to_conserved_angmom_flux(Fy, at(x, y + h))), d = values(mara::iso2d::to_conserved_angmom_flux(Fy, at(x, y - h)));
    auto S = P.source_terms_conserved_angmom(cs2);
    double src[3] = {mara::get<0>(S).value, mara::get<1>(S).value, mara::get<2>(S).value}, size = P[0] * (P.velocity_squared() + cs2) * 30 / h;
    bool ok = src[0] == 0 && src[2] == 0;
    for (int i = 0; i < 3; ++i) ok = ok && std::fabs((a[i] - b[i] + c[i] - d[i]) / (2 * h) - src[i]) <= 100 * eps * (i ? size : P[0]* std::sqrt(P.velocity_squared()));
    VP_CHECK(ok, "iso2d/angmom-source", "source (%.17g %.17g %.17g), divergence (%.17g %.17g %.17g)", src[0], src[1], src[2], (a[0] - b[0] + c[0] - d[0]) / (2 * h), (a[1] - b[1] + c[1] - d[1]) / (2 * h), (a[2] - b[2] + c[2] - d[2]) / (2 * h));
    vp::observe("iso2d-source");
}

VP_MAIN()
