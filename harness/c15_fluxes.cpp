// C15: fluxes and approximate Riemann solvers are consistent, upwind and symmetric.
#include "gas.hpp"
using namespace gas;
using real = long double;

struct basis { vec a[3]; };  // an orthogonal transformation (rotation, reflection or exchange of axes)
static vec turn(const basis& b, const vec& v) { vec w; for (int i = 0; i < 3; ++i) w[i] = b.a[i][0] * v[0] + b.a[i][1] * v[1] + b.a[i][2] * v[2]; return w; }
static vec components(const mara::unit_vector_t& n) { return {n.get_n1(), n.get_n2(), n.get_n3()}; }
static mara::unit_vector_t turn(const basis& b, const mara::unit_vector_t& n) { auto v = turn(b, components(n)); return mara::unit_vector_t(v[0], v[1], v[2]); }

static basis any_planar_basis(rng_t& r)
{
    double f = r.chance(0.5) ? r.range(0, 3) * M_PI_2 : r.uniform(0, 2 * M_PI), c = std::cos(f), s = std::sin(f), m = r.sign();
    if (std::fabs(c) < 1e-8) c = 0; if (std::fabs(s) < 1e-8) s = 0;
    return {{vec{c, -s * m, 0}, vec{s, c * m, 0}, vec{0, 0, 1}}};
}
static basis any_basis(rng_t& r)
{
    if (r.chance(0.5))
    {
        // exchange and reflect axes
        int p[3] = {0, 1, 2};
        for (int i = 2; i > 0; --i) std::swap(p[i], p[r.range(0, i)]);
        basis b {};
        for (int i = 0; i < 3; ++i) { b.a[i] = vec{0, 0, 0}; b.a[i][p[i]] = r.sign(); }
        return b;
    }
    // Gram-Schmidt
    basis b;
    for (;;)
    {
        bool good = true;
        for (int i = 0; i < 3; ++i)
        {
            for (int j = 0; j < 3; ++j) b.a[i][j] = r.uniform(-1, 1);
            for (int pass = 0; pass < 2; ++pass)
            {
                for (int k = 0; k < i; ++k) { double d = 0; for (int j = 0; j < 3; ++j) d += b.a[i][j] * b.a[k][j]; for (int j = 0; j < 3; ++j) b.a[i][j] -= d * b.a[k][j]; }
                double s = 0; for (int j = 0; j < 3; ++j) s += b.a[i][j] * b.a[i][j];
                if (s < 1e-2) good = false;
                for (int j = 0; j < 3; ++j) b.a[i][j] /= std::sqrt(s);
            }
        }
        if (good) return b;
    }
}

//-----------------------------------------------------------------------------
// One description per gas system: states, fluxes, the reference, and how things transform.
struct iso2d_system
{
    static constexpr int N = 3;
    static const char* name() { return "iso2d"; }
    struct state { mara::iso2d::primitive_t P; double cs2; };
    using array = std::array<double, 3>;
    double unused = 0;

    state any(rng_t& r) { double c = r.log_uniform(1e-4, 1e2); return {any_iso2d(r, c, r.chance(0.5) ? 3 : 50), c}; }
    basis transformation(rng_t& r) { return any_planar_basis(r); }
    mara::unit_vector_t direction(rng_t& r) { return any_planar(r); }
    double sound(const state& s) { return std::sqrt(s.cs2); }
    state shifted(state s, double dv, const mara::unit_vector_t& n) { s.P[1] += dv * n.get_n1(); s.P[2] += dv * n.get_n2(); return s; }
    state transformed(const state& s, const basis& b) { auto v = turn(b, vec{s.P[1], s.P[2], 0}); auto q = s; q.P[1] = v[0]; q.P[2] = v[1]; return q; }
    array transformed(const array& F, const basis& b) { auto v = turn(b, vec{F[1], F[2], 0}); return {F[0], v[0], v[1]}; }
    array flux(const state& s, const mara::unit_vector_t& n) { return values(s.P.flux(n, s.cs2)); }
    array conserved(const state& s) { return values(s.P.to_conserved_per_area()); }
    array hlle(const state& l, const state& r, const mara::unit_vector_t& n) { return values(mara::iso2d::riemann_hlle(l.P, r.P, l.cs2, r.cs2, n)); }
    std::array<real, 3> flux_reference(const state& s, const vec& n, array& size)
    {
        real d = s.P[0], v = real(s.P[1]) * n[0] + real(s.P[2]) * n[1], p = d * s.cs2, w = std::hypot(s.P[1], s.P[2]);
        size = {double(d * w), double(d * w * w + p), double(d * w * w + p)};
        return {d * v, d * v * s.P[1] + p * n[0], d * v * s.P[2] + p * n[1]};
    }
    std::pair<real, real> speeds(const state& s, const vec& n) { real v = real(s.P[1]) * n[0] + real(s.P[2]) * n[1], c = std::sqrt(real(s.cs2)); return {v - c, v + c}; }
    std::string text(const state& s) { return show(s.P) + vp::fmt(" cs2 %.17g", s.cs2); }
};
struct euler_system
{
    static constexpr int N = 5;
    static const char* name() { return "euler"; }
    using state = mara::euler::primitive_t;
    using array = std::array<double, 5>;
    double gm = 5. / 3;

    state any(rng_t& r) { return any_euler(r, gm, r.chance(0.5) ? 3 : 50); }
    basis transformation(rng_t& r) { return any_basis(r); }
    mara::unit_vector_t direction(rng_t& r) { return any_direction(r); }
    double sound(const state& s) { return std::sqrt(gm * s[4] / s[0]); }
    state shifted(state s, double dv, const mara::unit_vector_t& n) { auto c = components(n); for (int i = 0; i < 3; ++i) s[1 + i] += dv * c[i]; return s; }
    state transformed(const state& s, const basis& b) { auto v = turn(b, vec{s[1], s[2], s[3]}); auto q = s; for (int i = 0; i < 3; ++i) q[1 + i] = v[i]; return q; }
    array transformed(const array& F, const basis& b) { auto v = turn(b, vec{F[1], F[2], F[3]}); return {F[0], v[0], v[1], v[2], F[4]}; }
    array flux(const state& s, const mara::unit_vector_t& n) { return values(s.flux(n, gm)); }
    array conserved(const state& s) { return values(s.to_conserved_density(gm)); }
    array hlle(const state& l, const state& r, const mara::unit_vector_t& n) { return values(mara::euler::riemann_hlle(l, r, n, gm)); }
    std::array<real, 5> flux_reference(const state& s, const vec& n, array& size)
    {
        real d = s[0], p = s[4], v = real(s[1]) * n[0] + real(s[2]) * n[1] + real(s[3]) * n[2], w = std::sqrt(s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
        real E = d * w * w / 2 + p / (real(gm) - 1);
        double m = double(d * w * w + p);
        size = {double(d * w), m, m, m, double((E + p) * w)};
        E = d * (real(s[1]) * s[1] + real(s[2]) * s[2] + real(s[3]) * s[3]) / 2 + p / (real(gm) - 1);
        return {d * v, d * v * s[1] + p * n[0], d * v * s[2] + p * n[1], d * v * s[3] + p * n[2], (E + p) * v};
    }
    std::pair<real, real> speeds(const state& s, const vec& n) { real v = real(s[1]) * n[0] + real(s[2]) * n[1] + real(s[3]) * n[2], c = std::sqrt(real(gm) * s[4] / s[0]); return {v - c, v + c}; }
    std::string text(const state& s) { return show(s) + vp::fmt(" gamma %.17g", gm); }
};
struct srhd_system
{
    static constexpr int N = 5;
    static const char* name() { return "srhd"; }
    using state = mara::srhd::primitive_t;
    using array = std::array<double, 5>;
    double gm = 4. / 3;

    state any(rng_t& r) { return any_srhd(r, 20.0, 1e-6, 1e6, 1e-5, 1e3); }
    basis transformation(rng_t& r) { return any_basis(r); }
    mara::unit_vector_t direction(rng_t& r) { return any_direction(r); }
    double sound(const state& s) { return 1.0; }
    state shifted(state s, double dv, const mara::unit_vector_t& n) { auto c = components(n); for (int i = 0; i < 3; ++i) s[1 + i] += dv * c[i]; return s; }
    state transformed(const state& s, const basis& b) { auto v = turn(b, vec{s[1], s[2], s[3]}); auto q = s; for (int i = 0; i < 3; ++i) q[1 + i] = v[i]; return q; }
    array transformed(const array& F, const basis& b) { auto v = turn(b, vec{F[1], F[2], F[3]}); return {F[0], v[0], v[1], v[2], F[4]}; }
    array flux(const state& s, const mara::unit_vector_t& n) { return values(s.flux(n, gm)); }
    array conserved(const state& s) { return values(s.to_conserved_density(gm)); }
    array hlle(const state& l, const state& r, const mara::unit_vector_t& n) { return values(mara::srhd::riemann_hlle(l, r, n, gm)); }
    std::array<real, 5> flux_reference(const state& s, const vec& n, array& size)
    {
        real uu = real(s[1]) * s[1] + real(s[2]) * s[2] + real(s[3]) * s[3], W = std::sqrt(1 + uu), un = real(s[1]) * n[0] + real(s[2]) * n[1] + real(s[3]) * n[2];
        real H = s[0] + real(s[4]) * gm / (real(gm) - 1), p = s[4];
        double m = double(H * uu + p);
        size = {double(s[0] * std::sqrt(uu)), m, m, m, double(H * W * std::sqrt(uu))};
        // energy flux: momentum density less the flux of rest mass
        return {s[0] * un, H * un * s[1] + p * n[0], H * un * s[2] + p * n[1], H * un * s[3] + p * n[2], H * W * un - s[0] * un};
    }
    std::pair<real, real> speeds(const state& s, const vec& n)
    {
        // relativistic addition of the sound speed in a direction at an angle to the flow
        real uu = real(s[1]) * s[1] + real(s[2]) * s[2] + real(s[3]) * s[3], W2 = 1 + uu, un = real(s[1]) * n[0] + real(s[2]) * n[1] + real(s[3]) * n[2], vn = un / std::sqrt(W2), vv = uu / W2;
        real c2 = real(gm) * s[4] / (s[0] + real(s[4]) * gm / (real(gm) - 1));
        real k = std::sqrt(c2 / W2 * (1 - vv * c2 - vn * vn * (1 - c2)));
        return {(vn * (1 - c2) - k) / (1 - vv * c2), (vn * (1 - c2) + k) / (1 - vv * c2)};
    }
    std::string text(const state& s) { return show(s) + vp::fmt(" gamma %.17g", gm); }
};

template<std::size_t N> static std::string show(const std::array<double, N>& a) { std::string s = "("; for (double x : a) s += vp::fmt("%.17g ", x); s.back() = ')'; return s; }
template<std::size_t N> static std::array<double, N> negated(std::array<double, N> a) { for (auto& x : a) x = -x; return a; }
template<std::size_t N> static bool same(const std::array<double, N>& a, const std::array<double, N>& b, const std::array<double, N>& scale, double tol)
{
    for (std::size_t i = 0; i < N; ++i) if (! (std::fabs(a[i] - b[i]) <= tol * scale[i])) return false;
    return true;
}

// a pair of states with a chance of every wave pattern
template<typename S> static std::pair<typename S::state, typename S::state> any_pair(S& sys, rng_t& rng, const mara::unit_vector_t& n)
{
    auto l = sys.any(rng), r = sys.any(rng);
    switch (rng.range(0, 5))
    {
        case 0: break;
        case 1: r = l; break;
        case 2: r = sys.shifted(l, rng.uniform(-1, 1) * sys.sound(l), n); break;
        case 3: { double dv = rng.uniform(2, 8) * (sys.sound(l) + sys.sound(r)) * rng.sign(); l = sys.shifted(l, dv, n); r = sys.shifted(r, dv, n); break; }
        case 4: { double dv = rng.uniform(0, 5) * (sys.sound(l) + sys.sound(r)); l = sys.shifted(l, dv, n); r = sys.shifted(r, -dv, n); break; }
        case 5: { double dv = rng.uniform(0, 5) * (sys.sound(l) + sys.sound(r)); l = sys.shifted(l, -dv, n); r = sys.shifted(r, dv, n); break; }
    }
    return {l, r};
}

template<typename S> static void system_fluxes(S sys, rng_t& rng, long index)
{
    std::string nm = S::name();
    auto n = sys.direction(rng);
    auto nv = components(n);
    auto [l, r] = any_pair(sys, rng, n);
    vp::context("left " + sys.text(l) + " right " + sys.text(r) + vp::fmt(" n (%.17g %.17g %.17g)", nv[0], nv[1], nv[2]));

    // the physical flux
    typename S::array sl, sr;
    auto Rl = sys.flux_reference(l, nv, sl), Rr = sys.flux_reference(r, nv, sr);
    auto Fl = sys.flux(l, n), Fr = sys.flux(r, n);
    bool ok = true;
    for (int i = 0; i < S::N; ++i) ok = ok && std::fabs(Fl[i] - Rl[i]) <= 40 * eps * sl[i] && std::fabs(Fr[i] - Rr[i]) <= 40 * eps * sr[i];
    VP_CHECK(ok, nm + "/flux", "flux %s differs from its expression", show(Fl).c_str());
    VP_CHECK(same(sys.flux(l, negated(n)), negated(Fl), sl, 8 * eps), nm + "/flux-reversed", "reversing the direction does not negate the flux");

    // the solver against the averaged state
    auto Ul = sys.conserved(l), Ur = sys.conserved(r);
    auto wl = sys.speeds(l, nv), wr = sys.speeds(r, nv);
    real lo = std::min(wl.first, wr.first), hi = std::max(wl.second, wr.second), ap = std::max<real>(0, hi), am = std::min<real>(0, lo);
    auto F = sys.hlle(l, r, n);
    typename S::array size, scale;
    // round-off of the two signal speeds
    real width = ap - am;
    for (int i = 0; i < S::N; ++i)
    {
        size[i] = double((ap * sl[i] - am * sr[i] - ap * am * (std::fabs(Ul[i]) + std::fabs(Ur[i]))) / width);
        scale[i] = size[i] + sl[i] + sr[i] + double(width) * (std::fabs(Ul[i]) + std::fabs(Ur[i]));
    }
    ok = true;
    int worst = 0;
    for (int i = 0; i < S::N; ++i)
    {
        real f = (ap * Rl[i] - am * Rr[i] + ap * am * (real(Ur[i]) - Ul[i])) / width;
        if (! (std::fabs(F[i] - f) <= 400 * eps * scale[i] * double(1 + (std::fabs(lo) + std::fabs(hi)) / width))) ok = false, worst = i;
    }
    VP_CHECK(ok, nm + "/hlle", "component %d of %s is not the flux of the averaged state for signal speeds %.17Lg %.17Lg", worst, show(F).c_str(), lo, hi);
    bool upwind_l = lo > 0, upwind_r = hi < 0;
    if (upwind_l) { VP_CHECK(same(F, Fl, sl, 40 * eps), nm + "/hlle-upwind", "all waves move right, the flux %s is not that of the left state %s", show(F).c_str(), show(Fl).c_str()); vp::observe(nm + ":right-going"); }
    else if (upwind_r) { VP_CHECK(same(F, Fr, sr, 40 * eps), nm + "/hlle-upwind", "all waves move left, the flux %s is not that of the right state %s", show(F).c_str(), show(Fr).c_str()); vp::observe(nm + ":left-going"); }
    else vp::observe(nm + ":fan");
    VP_CHECK(same(sys.hlle(l, l, n), Fl, sl, 60 * eps), nm + "/hlle-consistency", "equal states do not give the physical flux");

    // symmetry
    VP_CHECK(same(sys.hlle(r, l, negated(n)), negated(F), scale, 40 * eps), nm + "/hlle-swapped", "swapping sides and reversing the direction does not negate the flux");
    auto b = sys.transformation(rng);
    double amp = double(1 + (std::fabs(lo) + std::fabs(hi)) / width);
    auto T = sys.hlle(sys.transformed(l, b), sys.transformed(r, b), turn(b, n)), TF = sys.transformed(F, b);
    auto vscale = scale; double m = *std::max_element(scale.begin() + 1, scale.begin() + (S::N == 3 ? 3 : 4));
    for (int i = 1; i < (S::N == 3 ? 3 : 4); ++i) vscale[i] = m;
    VP_CHECK(same(T, TF, vscale, 4000 * eps * amp), nm + "/hlle-covariant", "transformed flux %s is not the flux of the transformed states %s", show(TF).c_str(), show(T).c_str());
    auto vs = sl; m = *std::max_element(sl.begin() + 1, sl.begin() + (S::N == 3 ? 3 : 4));
    for (int i = 1; i < (S::N == 3 ? 3 : 4); ++i) vs[i] = m;
    VP_CHECK(same(sys.flux(sys.transformed(l, b), turn(b, n)), sys.transformed(Fl, b), vs, 400 * eps), nm + "/flux-covariant", "the flux does not transform with the state and the direction");
    if (index % 16 == 0) vp::signature(nm + vp::fmt(" %.2g %.2g %.2g", Fl[0], Fr[0], F[0]));
}
VP_SECTION("isothermal fluxes", 60000, 2000000) { system_fluxes(iso2d_system(), rng, index); }
VP_SECTION("newtonian fluxes", 60000, 2000000) { euler_system s; s.gm = any_gamma(rng); system_fluxes(s, rng, index); }
VP_SECTION("relativistic fluxes", 60000, 2000000) { srhd_system s; s.gm = any_gamma(rng); system_fluxes(s, rng, index); }

//-----------------------------------------------------------------------------
VP_SECTION("contact-resolving solver", 80000, 3000000)
{
    iso2d_system sys;
    auto n = sys.direction(rng);
    auto nv = components(n);
    auto [l, r] = any_pair(sys, rng, n);
    vp::context("left " + sys.text(l) + " right " + sys.text(r) + vp::fmt(" n (%.17g %.17g)", nv[0], nv[1]));
    auto solve = [] (const iso2d_system::state& a, const iso2d_system::state& b, const mara::unit_vector_t& n) { return values(mara::iso2d::riemann_hllc(a.P, b.P, a.cs2, b.cs2, n)); };
    auto vars = mara::iso2d::compute_hllc_variables(l.P, r.P, l.cs2, r.cs2, n);
    auto wl = sys.speeds(l, nv), wr = sys.speeds(r, nv);
    double ul = double(wl.first + wl.second) / 2, ur = double(wr.first + wr.second) / 2, al = std::sqrt(l.cs2), ar = std::sqrt(r.cs2);
    double V = std::fabs(ul) + std::fabs(ur) + std::fabs(vars.sl - ul) + std::fabs(vars.sr - ur) + al + ar;
    double low = double(std::min(wl.first, wr.first)), high = double(std::max(wl.second, wr.second));
    VP_CHECK(vars.sl <= low + 8 * eps * V && vars.sr >= high - 8 * eps * V, "hllc/bounds", "outer speeds %.17g %.17g do not bound the signal speeds %.17g %.17g", vars.sl, vars.sr, low, high);
    VP_CHECK(vars.sl < vars.sstar && vars.sstar < vars.sr, "hllc/ordered", "speeds %.17g %.17g %.17g are not in order", vars.sl, vars.sstar, vars.sr);
    VP_CHECK(vars.contact_speed() == vars.sstar, "hllc/contact-speed", "contact speed differs");
    if (! (vars.sl < vars.sstar && vars.sstar < vars.sr)) return;

    auto F = solve(l, r, n), Fl = sys.flux(l, n), Fr = sys.flux(r, n);
    auto Ul = sys.conserved(l), Ur = sys.conserved(r), Sl = values(vars.Ul_star()), Sr = values(vars.Ur_star());
    iso2d_system::array scale;
    double amp = (vars.sr - vars.sl) / std::min(vars.sr - vars.sstar, vars.sstar - vars.sl) * (1 + V / (vars.sr - vars.sl));
    for (int i = 0; i < 3; ++i) scale[i] = std::fabs(Fl[i]) + std::fabs(Fr[i]) + V * (std::fabs(Ul[i]) + std::fabs(Ur[i]) + std::fabs(Sl[i]) + std::fabs(Sr[i]));
    scale[1] = scale[2] = scale[1] + scale[2];
    double tol = 100 * eps * amp;

    // jump conditions over every wave
    std::array<double, 3> Hl, Hr, jump, moved;
    for (int i = 0; i < 3; ++i) { Hl[i] = Fl[i] + vars.sl * (Sl[i] - Ul[i]); Hr[i] = Fr[i] + vars.sr * (Sr[i] - Ur[i]); jump[i] = Hr[i] - Hl[i]; moved[i] = vars.sstar * (Sr[i] - Sl[i]); }
    VP_CHECK(same(jump, moved, scale, tol), "hllc/jump", "the jump over the contact %s is not its speed times the jump in densities %s", show(jump).c_str(), show(moved).c_str());
    // normal velocity is the contact speed on both sides; tangential velocity is carried unchanged
    auto check_star = [&] (const std::array<double, 3>& S, const iso2d_system::state& s, double us)
    {
        double vn = (S[1] * nv[0] + S[2] * nv[1]) / S[0], vt = (-S[1] * nv[1] + S[2] * nv[0]) / S[0], wt = -s.P[1] * nv[1] + s.P[2] * nv[0];
        double w = std::hypot(s.P[1], s.P[2]) + V;
        return S[0] > 0 && std::fabs(vn - vars.sstar) <= 100 * eps * w && std::fabs(vt - wt) <= 100 * eps * w;
    };
    VP_CHECK(check_star(Sl, l, ul) && check_star(Sr, r, ur), "hllc/star", "the star states do not move with the contact and carry the tangential velocity");
    const char* region = vars.sl >= 0 ? "left" : vars.sstar >= 0 ? "left-star" : vars.sr >= 0 ? "right-star" : "right";
    auto E = vars.sl >= 0 ? Fl : vars.sstar >= 0 ? Hl : vars.sr >= 0 ? Hr : Fr;
    VP_CHECK(same(F, E, scale, tol), "hllc/flux", "flux %s, that of the state at the interface (%s) is %s", show(F).c_str(), region, show(E).c_str());
    VP_CHECK(values(vars.interface_flux()) == F, "hllc/variables-flux", "flux from the intermediate variables differs");
    auto I = values(vars.interface_conserved_state());
    auto J = vars.sl >= 0 ? Ul : vars.sstar >= 0 ? Sl : vars.sr >= 0 ? Sr : Ur;
    VP_CHECK(I == J, "hllc/interface-state", "state at the interface (%s) is %s, expected %s", region, show(I).c_str(), show(J).c_str());
    vp::observe(std::string("hllc:") + region);

    // consistency, upwinding, symmetry
    iso2d_system::array sl, sr;
    sys.flux_reference(l, nv, sl); sys.flux_reference(r, nv, sr);
    double wv = std::hypot(l.P[1], l.P[2]) + al;
    VP_CHECK(same(solve(l, l, n), Fl, {l.P[0] * wv, l.P[0] * wv * wv, l.P[0] * wv * wv}, 60 * eps), "hllc/consistency", "equal states do not give the physical flux");
    VP_CHECK(same(solve(r, l, negated(n)), negated(F), scale, tol), "hllc/swapped", "swapping sides and reversing the direction does not negate the flux: %s and %s", show(F).c_str(), show(solve(r, l, negated(n))).c_str());
    auto b = sys.transformation(rng);
    auto T = solve(sys.transformed(l, b), sys.transformed(r, b), turn(b, n)), TF = sys.transformed(F, b);
    VP_CHECK(same(T, TF, scale, 10 * tol), "hllc/covariant", "transformed flux %s is not the flux of the transformed states %s", show(TF).c_str(), show(T).c_str());

    // an isolated contact: equal pressure and normal velocity, anything else different
    auto c = r;
    c.cs2 = l.P[0] * l.cs2 / c.P[0];
    double dv = ul - ur;
    c = sys.shifted(c, dv, n);
    double Wc = std::hypot(c.P[1], c.P[2]) + std::hypot(r.P[1], r.P[2]) + std::sqrt(c.cs2) + std::hypot(l.P[1], l.P[2]) + al;
    if (Wc < 1e4 * std::min(al, std::sqrt(c.cs2)) && std::fabs(ul) > 1e-9 * Wc)
    {
        auto G = solve(l, c, n), X = ul > 0 ? Fl : sys.flux(c, n);
        double big = (l.P[0] + c.P[0]) * Wc;
        std::array<double, 3> sc {big, big * Wc, big * Wc};
        // the pressures differ by round-off, which makes a sound wave of that size
        VP_CHECK(same(G, X, sc, 1e-9), "hllc/contact", "an isolated contact gives %s, the upwind flux is %s", show(G).c_str(), show(X).c_str());
        vp::observe("isolated-contact");
    }

    // angular-momentum form of a flux
    double x0 = rng.uniform(-10, 10), y0 = rng.uniform(-10, 10);
    auto A = values(mara::iso2d::to_conserved_angmom_flux(mara::iso2d::riemann_hllc(l.P, r.P, l.cs2, r.cs2, n), mara::iso2d::location_2d_t {{mara::make_length(x0), mara::make_length(y0)}}));
    double big = 8 * eps * (std::fabs(x0) + std::fabs(y0)) * (std::fabs(F[1]) + std::fabs(F[2]));
    VP_CHECK(A[0] == F[0] && std::fabs(A[1] - (x0 * F[1] + y0 * F[2])) <= big && std::fabs(A[2] - (x0 * F[2] - y0 * F[1])) <= big, "angmom-flux", "angular-momentum flux %s from %s at (%g %g)", show(A).c_str(), show(F).c_str(), x0, y0);
    if (index % 16 == 0) vp::signature(vp::fmt("hllc %s %.2g %.2g %.2g", region, F[0], F[1], F[2]));
}

VP_MAIN()
