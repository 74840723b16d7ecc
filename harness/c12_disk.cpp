// C12: the disk solver conserves mass and (angular) momentum, applies the forces, sinks, buffer and stresses it is configured with, and commutes with quarter turns.
#include "vp.hpp"
#include "app.hpp"
#include <cmath>
#include "core_ndarray_ops.hpp"
#include "mesh_tree_operators.hpp"
#include "subprog_binary.hpp"
using namespace binary;
using index_t = mara::tree_index_t<2>;
using u_t = mara::iso2d::conserved_per_area_t;
using q_t = mara::iso2d::conserved_angmom_per_area_t;
using vec3 = std::array<double, 3>;
static std::string num(double x) { return vp::fmt("%.6g", x); }
static vec3 get(const u_t& u) { return {mara::get<0>(u).value, mara::get<1>(u).value, mara::get<2>(u).value}; }
static vec3 get(const q_t& q) { return {mara::get<0>(q).value, mara::get<1>(q).value, mara::get<2>(q).value}; }
static u_t make_u(vec3 a) { return u_t {{a[0], a[1], a[2]}}; }
static q_t make_q(vec3 a) { return q_t {{a[0], a[1], a[2]}}; }

struct cell_t { index_t index; std::size_t i, j; double x, y, dA, dx; };
struct options_t
{
    std::map<std::string, std::string> items;
    options_t& set(const std::string& k, const std::string& v) { items[k] = v; return *this; }
    options_t& set(const std::string& k, double v) { return set(k, num(v)); }
    std::string text() const { std::string s; for (auto& kv : items) s += kv.first + "=" + kv.second + " "; return s; }
    mara::config_t config() const
    {
        std::vector<std::string> all = {"binary"}; for (auto& kv : items) all.push_back(kv.first + "=" + kv.second);
        std::vector<const char*> argv; for (auto& a : all) argv.push_back(a.c_str());
        return create_run_config(int(argv.size()), argv.data());
    }
    double number(const std::string& k) const { return std::atof(items.at(k).c_str()); }
};

// the mesh of a solver, cell by cell, from its vertices alone
static std::vector<cell_t> cells_of(const solver_data_t& sd)
{
    std::vector<cell_t> cells;
    sd.vertices.indexes().sink([&] (auto index)
    {
        auto v = sd.vertices.at(index); std::size_t n = v.shape(0) - 1, m = v.shape(1) - 1;
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
        {
            double x0 = v(i, j)[0].value, x1 = v(i + 1, j)[0].value, y0 = v(i, j)[1].value, y1 = v(i, j + 1)[1].value;
            cells.push_back({index, i, j, 0.5 * (x0 + x1), 0.5 * (y0 + y1), (x1 - x0) * (y1 - y0), x1 - x0});
        }
    });
    return cells;
}
static std::vector<vec3> values_of(const solution_t& s, const solver_data_t& sd, const std::vector<cell_t>& cells)
{
    std::vector<vec3> r; index_t last {}; bool first = true;
    nd::shared_array<u_t, 2> U; nd::shared_array<q_t, 2> Q;
    for (auto& c : cells)
    {
        if (first || c.index != last) { if (sd.conserve_linear_p) U = s.conserved_u.at(c.index); else Q = s.conserved_q.at(c.index); last = c.index; first = false; }
        r.push_back(sd.conserve_linear_p ? get(U(c.i, c.j)) : get(Q(c.i, c.j)));
    }
    return r;
}
// a solution with given cell values, prescribed by position (primitive: sigma, vx, vy)
template<typename F> static solution_t filled(solution_t s, const solver_data_t& sd, F prim, bool initial=false)
{
    auto block = [&] (auto index, auto make)
    {
        auto v = sd.vertices.at(index); std::size_t n = v.shape(0) - 1, m = v.shape(1) - 1; auto x0 = v(0, 0), x1 = v(n, m);
        using value_t = decltype(make(vec3(), 0.0, 0.0));
        auto a = nd::make_unique_array<value_t>(n, m);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
        {
            double x = 0.5 * (v(i, j)[0].value + v(i + 1, j)[0].value), y = 0.5 * (v(i, j)[1].value + v(i, j + 1)[1].value);
            a(i, j) = make(prim(x, y), x, y);
        }
        return std::move(a).shared();
    };
    if (sd.conserve_linear_p) s.conserved_u = sd.vertices.indexes().map([&] (auto index) { return block(index, [] (vec3 p, double, double) { return make_u({p[0], p[0] * p[1], p[0] * p[2]}); }); });
    else s.conserved_q = sd.vertices.indexes().map([&] (auto index) { return block(index, [] (vec3 p, double x, double y) { return make_q({p[0], p[0] * (x * p[1] + y * p[2]), p[0] * (x * p[2] - y * p[1])}); }); });
    return s;
}
static options_t mesh(vp::rng_t& rng)
{
    options_t o;
    static const int depths[] = {0, 1, 2, 3, 3, 3, 4, 4}; double focus = rng.uniform(0.72, 2.5); // the blocks of the third level lie at 0.35 to 1.06, so that often some of them are split
    o.set("depth", depths[rng.range(0, 7)]).set("block_size", 2 * rng.range(1, 5)).set("focus_factor", focus).set("focus_index", rng.chance(0.2) ? rng.uniform(0.3, 2.5) : std::log2(focus / rng.uniform(0.36, 1.05))).set("domain_radius", rng.uniform(2, 8));
    if (o.number("depth") >= 3) o.set("block_size", 2 * rng.range(1, 3));
    o.set("threaded", rng.range(1, 4)).set("conserve_linear_p", rng.range(0, 1));
    return o;
}
static options_t physics(options_t o, vp::rng_t& rng)
{
    o.set("disk_mass", rng.log_uniform(1e-3, 1)).set("disk_radius", rng.uniform(1, 3)).set("ambient_density", rng.log_uniform(1e-3, 1));
    o.set("sink_rate", rng.chance(0.2) ? 0 : rng.log_uniform(0.1, 20)).set("sink_radius", rng.uniform(0.03, 0.8)).set("softening_radius", rng.uniform(0.05, 0.5)).set("buffer_damping_rate", rng.chance(0.2) ? 0 : rng.log_uniform(0.1, 20));
    o.set("separation", 1).set("mass_ratio", rng.chance(0.3) ? 1 : rng.uniform(0.05, 1)).set("eccentricity", rng.chance(0.4) ? 0 : rng.uniform(0, 0.8)).set("mach_number", rng.uniform(3, 20));
    o.set("axisymmetric_cs2", rng.range(0, 1)).set("no_accretion_force", rng.range(0, 1)).set("alpha_cutoff_radius", rng.chance(0.5) ? 0 : rng.uniform(0.5, 3)).set("alpha", rng.chance(0.3) ? 0 : rng.uniform(0.01, 0.3)).set("nu", rng.chance(0.6) ? 0 : rng.log_uniform(1e-4, 1e-2));
    o.set("counter_rotate", rng.range(0, 1)).set("plm_theta", rng.chance(0.4) ? rng.range(1, 2) : rng.uniform(1, 2)).set("source_term_softening", rng.uniform(0, 2)).set("begin_live_binary", rng.chance(0.4) ? 0.0 : rng.chance(0.5) ? 1e6 : rng.uniform(0, 3)).set("density_floor", 0);
    o.set("mdot", rng.chance(0.8) ? 0 : rng.log_uniform(1e-5, 1e-3)).set("reconstruct_method", rng.chance(0.7) ? "plm" : "pcm").set("rk_order", rng.range(1, 2)).set("cfl_number", rng.uniform(0.1, 0.4));
    return o;
}
// smooth random variations of a state: a few waves and a vortex
template<typename F> static auto disturbed(F base, vp::rng_t& rng, double amplitude)
{
    struct wave_t { double kx, ky, phase, s, u, v; }; std::vector<wave_t> waves;
    for (int n = 0; n < 4; ++n) waves.push_back({rng.uniform(-4, 4), rng.uniform(-4, 4), rng.uniform(0, 6.3), amplitude * rng.uniform(-1, 1) / 4, amplitude * rng.uniform(-1, 1) / 4, amplitude * rng.uniform(-1, 1) / 4});
    return [=] (double x, double y) { vec3 p = base(x, y); for (auto& w : waves) { double c = std::cos(w.kx * x + w.ky * y + w.phase); p[0] *= 1 + w.s * c; p[1] += w.u * c; p[2] += w.v * c; } return p; };
}
static auto profile(const mara::config_t& rc) { auto f = create_disk_profile(rc); return [f] (double x, double y) { auto p = f({x, y}); return vec3 {p.sigma(), p.velocity_x(), p.velocity_y()}; }; }
static bool in_equilibrium(const solver_data_t& sd, const std::vector<cell_t>& cells) // too thick a disk has no rotation that supports it
{
    solution_t s; s.conserved_u = sd.initial_conserved_u; s.conserved_q = sd.initial_conserved_q; for (auto& v : values_of(s, sd, cells)) if (! std::isfinite(v[0] + v[1] + v[2])) { vp::observe("no-equilibrium"); return false; }
    return true;
}
struct vec2 { double x, y; };
static vec2 gravity(const mara::point_mass_t& b, double rs, double x, double y) { double dx = x - b.position_x, dy = y - b.position_y, d = dx * dx + dy * dy + rs * rs, k = -b.mass / (d * std::sqrt(d)); return {k * dx, k * dy}; }
static double sink(const mara::point_mass_t& b, double rate, double radius, double x, double y) { double dx = x - b.position_x, dy = y - b.position_y; return rate * std::exp(-0.5 * (dx * dx + dy * dy) / radius / radius); }
static double angmom(const mara::two_body_state_t& s) { double l = 0; for (auto& b : {s.body1, s.body2}) l += b.mass * (b.position_x * b.velocity_y - b.position_y * b.velocity_x); return l; }

struct budget_t { double mass, lz, px, py, scale_m, scale_l; };
static budget_t totals_of(const solution_t& s, const solver_data_t& sd, const std::vector<cell_t>& cells)
{
    budget_t b {}; auto v = values_of(s, sd, cells);
    for (std::size_t n = 0; n < cells.size(); ++n)
    {
        auto& c = cells[n]; double l = sd.conserve_linear_p ? c.x * v[n][2] - c.y * v[n][1] : v[n][2];
        b.mass += v[n][0] * c.dA; b.lz += l * c.dA; b.scale_m += std::abs(v[n][0]) * c.dA; b.scale_l += std::abs(l) * c.dA;
        if (sd.conserve_linear_p) { b.px += v[n][1] * c.dA; b.py += v[n][2] * c.dA; }
    }
    return b;
}
static bool near(double a, double b, double scale, double tol=1e-11) { return std::abs(a - b) <= tol * scale; }

// what one step should add to the recorded totals, from the state before it
struct expected_t { double acc_m[2] {}, acc_l[2] {}, acc_px[2] {}, acc_py[2] {}, abs_p[2] {}, fx[2] {}, fy[2] {}, torque[2] {}, out_m = 0, out_l = 0, out_px = 0, out_py = 0, force_x = 0, force_y = 0, sm = 0, sl = 0, sf = 0, sp = 0; };
static expected_t expected(const solution_t& s, const solver_data_t& sd, const options_t& o, const std::vector<cell_t>& cells, double dt)
{
    expected_t e; auto v = values_of(s, sd, cells); auto v0 = s; if (sd.conserve_linear_p) v0.conserved_u = sd.initial_conserved_u; else v0.conserved_q = sd.initial_conserved_q; auto w = values_of(v0, sd, cells);
    auto b = mara::compute_two_body_state(s.orbital_elements, s.time.value); mara::point_mass_t body[2] = {b.body1, b.body2};
    for (std::size_t n = 0; n < cells.size(); ++n)
    {
        auto& c = cells[n]; auto lz = [&] (vec3 a) { return sd.conserve_linear_p ? c.x * a[2] - c.y * a[1] : a[2]; };
        for (int k = 0; k < 2; ++k)
        {
            double r = sink(body[k], o.number("sink_rate"), o.number("sink_radius"), c.x, c.y) * dt * c.dA; auto g = gravity(body[k], o.number("softening_radius"), c.x, c.y);
            double fx = g.x * v[n][0] * dt * c.dA, fy = g.y * v[n][0] * dt * c.dA;
            double r2 = c.x * c.x + c.y * c.y, px = sd.conserve_linear_p ? v[n][1] : (c.x * v[n][1] - c.y * v[n][2]) / r2, py = sd.conserve_linear_p ? v[n][2] : (c.y * v[n][1] + c.x * v[n][2]) / r2;
            e.acc_px[k] += r * px; e.acc_py[k] += r * py; e.abs_p[k] += r * (std::abs(px) + std::abs(py)); e.fx[k] -= fx; e.fy[k] -= fy;
            e.acc_m[k] += r * v[n][0]; e.acc_l[k] += r * lz(v[n]); e.torque[k] -= c.x * fy - c.y * fx; e.force_x -= fx; e.force_y -= fy; e.sm += r * v[n][0]; e.sl += std::abs(r * lz(v[n])) + std::abs(c.x * fy) + std::abs(c.y * fx); e.sf += std::abs(fx) + std::abs(fy);
        }
        double rb = o.number("buffer_damping_rate") * (1 + std::tanh(3 * (std::sqrt(c.x * c.x + c.y * c.y) - o.number("domain_radius")))) * dt * c.dA;
        e.out_m -= rb * (w[n][0] - v[n][0]); e.out_l -= rb * (lz(w[n]) - lz(v[n])); e.out_px -= rb * (w[n][1] - v[n][1]); e.out_py -= rb * (w[n][2] - v[n][2]);
        e.sm += rb * (w[n][0] + v[n][0]); e.sl += rb * (std::abs(lz(w[n])) + std::abs(lz(v[n]))); e.sp += rb * (std::abs(w[n][1]) + std::abs(w[n][2]));
    }
    return e;
}

VP_SECTION("steps", 240, 5000)
{
    auto o = physics(mesh(rng), rng); auto rc = o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); vp::signature(o.text()); if (! in_equilibrium(sd, cells)) return;
    auto s = create_solution(rc); bool u = sd.conserve_linear_p;
    s = filled(s, sd, disturbed(profile(rc), rng, rng.uniform(0, 0.4)));
    if (rng.chance(0.5)) { s.orbital_elements.pomega = rng.uniform(-3, 3); s.orbital_elements.tau = rng.uniform(-3, 3); s.time = rng.uniform(0, 20); s.orbital_elements.cm_velocity_x = rng.uniform(-0.1, 0.1); s.orbital_elements.cm_position_y = rng.uniform(-0.2, 0.2); }
    std::set<std::size_t> levels; for (auto& c : cells) levels.insert(c.index.level); vp::observe(levels.size() > 1 ? "refined-mesh" : "uniform-mesh");
    bool closed = o.number("axisymmetric_cs2"); // opposite edges of the periodic domain then see the same sound speed
    double rim = 0, R = rc.get_double("domain_radius"); for (auto& c : cells) rim = std::max(rim, 3.1 * c.dx); double rest = rc.get_double("disk_mass") * rng.log_uniform(1e-3, 1);
    int steps = int(rng.range(1, 4));
    for (int n = 0; n < steps; ++n)
    {
        // otherwise the gas at the edge is put at rest, so that nothing flows through it
        if (! closed && s.time.value >= 0) { auto p = recover_primitive(s, sd); std::map<std::pair<double, double>, vec3> at; for (auto& c : cells) { auto q = p.at(c.index)(c.i, c.j); at[{c.x, c.y}] = {q.sigma(), q.velocity_x(), q.velocity_y()}; } s = filled(s, sd, [&] (double x, double y) { return std::max(std::abs(x), std::abs(y)) > R - rim ? vec3 {rest, 0, 0} : at.at({x, y}); }); }
        double begin = rc.get_double("begin_live_binary") * 2 * M_PI; if (std::abs(s.time.value - begin) < 1e-9 && begin > 0) break; bool live = s.time.value > begin; double dt = rng.uniform(0.02, 0.4) * maximum_timestep(s, sd); bool safe = rng.chance(0.2);
        auto e = expected(s, sd, o, cells, dt); solution_t t; auto before = totals_of(s, sd, cells);
        try { t = advance(s, sd, dt, safe); } catch (const std::exception& x) { vp::observe(std::string(x.what()).find("bound") != std::string::npos ? "unbound" : "broke-down"); break; }
        auto b = totals_of(t, sd, cells); vp::observe("step"); vp::observe(u ? "linear" : "angular");
        // the diagnostics of the solver agree with the stored solution
        double m = disk_mass(t, sd).value, l = disk_angular_momentum(t, sd).value;
        VP_CHECK(near(m, b.mass, b.scale_m), "disk/mass-total", "the disk mass is given as %.15g, its cells hold %.15g", m, b.mass);
        VP_CHECK(near(l, b.lz, b.scale_l), "disk/angmom-total", "the disk angular momentum is given as %.15g, its cells hold %.15g", l, b.lz);
        VP_CHECK(t.time.value == s.time.value + dt, "disk/time", "time went from %g to %g in a step of %g", s.time.value, t.time.value, dt);
        VP_CHECK(t.iteration == s.iteration + 1, "disk/iteration", "the iteration number did not advance by one");
        // bookkeeping of a step
        for (int k = 0; k < 2; ++k)
        {
            double am = t.mass_accreted_on[k].value - s.mass_accreted_on[k].value, al = t.angular_momentum_accreted_on[k].value - s.angular_momentum_accreted_on[k].value, tq = t.integrated_torque_on[k].value - s.integrated_torque_on[k].value;
            VP_CHECK(near(am, e.acc_m[k], e.sm + b.scale_m * 1e-3), "disk/accreted-mass", "body %d accreted %.15g, its sink takes %.15g", k + 1, am, e.acc_m[k]);
            VP_CHECK(near(al, e.acc_l[k], e.sl + b.scale_l * 1e-3), "disk/accreted-angmom", "body %d accreted angular momentum %.15g, its sink takes %.15g", k + 1, al, e.acc_l[k]);
            VP_CHECK(near(tq, e.torque[k], e.sl + b.scale_l * 1e-3), "disk/torque", "the torque on body %d is %.15g, gravity exerts %.15g", k + 1, tq, e.torque[k]);
        }
        double om = t.mass_ejected.value - s.mass_ejected.value, ol = t.angular_momentum_ejected.value - s.angular_momentum_ejected.value;
        VP_CHECK(near(om, e.out_m, e.sm + b.scale_m * 1e-3), "disk/ejected-mass", "%.15g ejected, the buffer takes %.15g", om, e.out_m);
        VP_CHECK(near(ol, e.out_l, e.sl + b.scale_l * 1e-3), "disk/ejected-angmom", "angular momentum %.15g ejected, the buffer takes %.15g", ol, e.out_l);
        // conservation over the step
        double gone_m = e.acc_m[0] + e.acc_m[1] + e.out_m, gone_l = e.acc_l[0] + e.acc_l[1] + e.out_l + e.torque[0] + e.torque[1];
        VP_CHECK(near(b.mass - before.mass, -gone_m, b.scale_m + before.scale_m), "disk/mass", "step %d: the disk mass changed by %.15g, sinks and buffer account for %.15g", n, b.mass - before.mass, -gone_m);
        if (! u) VP_CHECK(near(b.lz - before.lz, -gone_l, b.scale_l + before.scale_l), "disk/angmom", "step %d: the angular momentum changed by %.15g, sinks, buffer and torques account for %.15g", n, b.lz - before.lz, -gone_l);
        // the binary takes up what the disk gives: momentum and angular momentum
        auto E0 = s.orbital_elements, dA = t.orbital_elements_acc - s.orbital_elements_acc, dG = t.orbital_elements_grav - s.orbital_elements_grav;
        double M = E0.elements.total_mass, kx = M * dG.cm_velocity_x, ky = M * dG.cm_velocity_y;
        VP_CHECK(near(kx, e.force_x, 1 + e.sf) && near(ky, e.force_y, 1 + e.sf), "disk/kick", "gravity of the disk gives the binary momentum (%.12g %.12g), should be (%.12g %.12g)", kx, ky, e.force_x, e.force_y);
        VP_CHECK(near(dA.elements.total_mass, e.acc_m[0] + e.acc_m[1], 1 + e.sm), "disk/binary-mass", "the binary's mass grew by %.15g, it accreted %.15g", dA.elements.total_mass, e.acc_m[0] + e.acc_m[1]);
        VP_CHECK(near(dG.elements.total_mass, 0, 1), "disk/binary-mass", "gravity changed the mass of the binary by %g", dG.elements.total_mass);
        auto bodies = [] (const mara::two_body_state_t& b) { return std::array<mara::point_mass_t, 2> {b.body1, b.body2}; }; auto now = bodies(mara::compute_two_body_state(E0, s.time.value));
        // orbital elements describe counter-clockwise orbits: a kick that reverses the orbit is not judged
        auto sense = [&] (int which, bool still) { double v[4]; for (int k = 0; k < 2; ++k) { auto& a = now[k]; double m = a.mass + (which ? e.acc_m[k] : 0.0); v[2 * k] = still ? a.velocity_x : which ? (a.mass * a.velocity_x + e.acc_px[k]) / m : a.velocity_x + e.fx[k] / a.mass; v[2 * k + 1] = still ? a.velocity_y : which ? (a.mass * a.velocity_y + e.acc_py[k]) / m : a.velocity_y + e.fy[k] / a.mass; } return (now[0].position_x - now[1].position_x) * (v[1] - v[3]) - (now[0].position_y - now[1].position_y) * (v[0] - v[2]); };
        if (sense(0, false) <= 0) vp::observe("reversed");
        if (sense(0, false) > 0 && E0.elements.eccentricity > 1e-3 && E0.elements.eccentricity + dG.elements.eccentricity < 0.99)
        {
            auto after = mara::compute_two_body_state(E0 + dG, s.time.value); auto was = mara::compute_two_body_state(E0, s.time.value); double got = angmom(after) - angmom(was), want = e.torque[0] + e.torque[1];
            VP_CHECK(near(got, want, 1 + e.sl, 1e-8), "disk/orbit-torque", "the orbit gained angular momentum %.12g, the torques amount to %.12g", got, want); vp::observe("orbit");
        }
        // each body stays where it is while it is kicked by gravity, or takes up mass and momentum
        if (E0.elements.eccentricity > 1e-3 && E0.elements.eccentricity < 0.95) for (int which = 0; which < 2; ++which)
        {
            auto D = which ? dA : dG; if (E0.elements.eccentricity + D.elements.eccentricity < 1e-3 || E0.elements.eccentricity + D.elements.eccentricity > 0.95) continue; auto then = bodies(mara::compute_two_body_state(E0 + D, s.time.value)); bool still = which && o.number("no_accretion_force"); if (sense(which, still) <= 0) continue;
            for (int k = 0; k < 2; ++k)
            {
                auto& a = now[k]; auto& z = then[k]; double m = a.mass + (which ? e.acc_m[k] : 0.0), vx = still ? a.velocity_x : which ? (a.mass * a.velocity_x + e.acc_px[k]) / m : a.velocity_x + e.fx[k] / a.mass, vy = still ? a.velocity_y : which ? (a.mass * a.velocity_y + e.acc_py[k]) / m : a.velocity_y + e.fy[k] / a.mass;
                double length = 1 + E0.elements.separation, speed = std::abs(vx) + std::abs(vy) + 1 + std::abs(a.velocity_x) + std::abs(a.velocity_y);
                VP_CHECK(near(z.mass, m, 1 + m, 1e-10), "disk/body-mass", "body %d has mass %.12g after %s, should be %.12g", k + 1, z.mass, which ? "accretion" : "gravity", m);
                VP_CHECK(near(z.position_x, a.position_x, length, 1e-6) && near(z.position_y, a.position_y, length, 1e-6), "disk/body-position", "%s puts body %d at (%.12g %.12g), it was at (%.12g %.12g)", which ? "accretion" : "gravity", k + 1, z.position_x, z.position_y, a.position_x, a.position_y);
                VP_CHECK(near(z.velocity_x, vx, speed, 1e-6) && near(z.velocity_y, vy, speed, 1e-6), "disk/body-velocity", "%s gives body %d a velocity (%.12g %.12g), should be (%.12g %.12g)", which ? "accretion" : "gravity", k + 1, z.velocity_x, z.velocity_y, vx, vy);
                vp::observe(which ? still ? "body-accretes-mass" : "body-accretes" : "body-kicked");
            }
        }
        // the recorded work is the kinetic energy that the bodies gain with what they accrete
        if (u) for (int k = 0; k < 2; ++k)
        {
            auto& a = now[k]; double got = t.work_done_on[k].value - s.work_done_on[k].value, speed = std::hypot(a.velocity_x, a.velocity_y), want = a.velocity_x * e.acc_px[k] + a.velocity_y * e.acc_py[k] - 0.5 * speed * speed * e.acc_m[k];
            double second = std::pow(e.abs_p[k] + speed * e.acc_m[k], 2) / a.mass, scale = speed * e.abs_p[k] + speed * speed * e.acc_m[k];
            VP_CHECK(std::abs(got - want) <= second + 1e-9 * scale + 1e-14, "disk/work", "accretion did work %.12g on body %d, should be %.12g within %.3g", got, k + 1, want, second); if (second < 1e-2 * std::abs(want)) vp::observe("work");
        }
        if (u && closed)
        {
            vp::observe("momentum"); double ax = 0, ay = 0; // momentum accreted, as the binary's centre of mass shows it
            if (! o.number("no_accretion_force")) { ax = (M + dA.elements.total_mass) * (E0.cm_velocity_x + dA.cm_velocity_x) - M * E0.cm_velocity_x; ay = (M + dA.elements.total_mass) * (E0.cm_velocity_y + dA.cm_velocity_y) - M * E0.cm_velocity_y; }
            else { auto v = values_of(s, sd, cells); auto bs = mara::compute_two_body_state(E0, s.time.value); for (std::size_t c = 0; c < cells.size(); ++c) { double r = (sink(bs.body1, o.number("sink_rate"), o.number("sink_radius"), cells[c].x, cells[c].y) + sink(bs.body2, o.number("sink_rate"), o.number("sink_radius"), cells[c].x, cells[c].y)) * dt * cells[c].dA; ax += r * v[c][1]; ay += r * v[c][2]; } }
            double want_x = -ax - kx - e.out_px, want_y = -ay - ky - e.out_py, scale = 1 + b.scale_m * 3;
            VP_CHECK(near(b.px - before.px, want_x, scale) && near(b.py - before.py, want_y, scale), "disk/momentum", "step %d: the disk's momentum changed by (%.12g %.12g), binary and buffer account for (%.12g %.12g)", n, b.px - before.px, b.py - before.py, want_x, want_y);
        }
        if (! live) { auto D = t.orbital_elements - E0; VP_CHECK(D.pomega == 0 && D.tau == 0 && D.cm_position_x == 0 && D.cm_position_y == 0 && D.cm_velocity_x == 0 && D.cm_velocity_y == 0 && D.elements.separation == 0 && D.elements.total_mass == 0 && D.elements.mass_ratio == 0 && D.elements.eccentricity == 0, "disk/not-live", "the orbit changed before the binary is live"); vp::observe("fixed-orbit"); }
        else
        {
            auto D = t.orbital_elements - E0; double moved = E0.cm_velocity_x * dt;
            VP_CHECK(near(D.elements.total_mass, dA.elements.total_mass, 1) && near(D.cm_velocity_x, dA.cm_velocity_x + dG.cm_velocity_x, 1) && near(D.cm_velocity_y, dA.cm_velocity_y + dG.cm_velocity_y, 1) && near(D.elements.separation, dA.elements.separation + dG.elements.separation, 1) && near(D.elements.eccentricity, dA.elements.eccentricity + dG.elements.eccentricity, 1) && near(D.cm_position_x, dA.cm_position_x + dG.cm_position_x + moved, 1), "disk/live", "the live orbit does not follow accretion and gravity"); vp::observe("live-orbit");
        }
        // a two-stage step averages: everything recorded stays consistent
        if (rng.chance(0.4))
        {
            auto h = mara::make_rational(1, 2); auto avg = s * h + t * (1 - h); auto ba = totals_of(avg, sd, cells);
            VP_CHECK(near(ba.mass, 0.5 * (before.mass + b.mass), b.scale_m) && near(ba.lz, 0.5 * (before.lz + b.lz), b.scale_l), "disk/average", "the average of two solutions does not hold their average mass or angular momentum");
            double rec = avg.mass_accreted_on[0].value + avg.mass_accreted_on[1].value + avg.mass_ejected.value, rec0 = s.mass_accreted_on[0].value + s.mass_accreted_on[1].value + s.mass_ejected.value, rec1 = t.mass_accreted_on[0].value + t.mass_accreted_on[1].value + t.mass_ejected.value;
            VP_CHECK(near(rec, 0.5 * (rec0 + rec1), 1), "disk/average", "the totals of the average of two solutions are not the average"); vp::observe("average");
        }
        s = t;
    }
}

// cold gas: a step applies exactly gravity, sinks, buffer and floor to every cell
VP_SECTION("sources", 160, 3000)
{
    auto o = physics(mesh(rng), rng); bool u = o.number("conserve_linear_p"); bool floor = u && rng.chance(0.4);
    o.set("mach_number", 1e7).set("alpha", 0).set("nu", 0).set("axisymmetric_cs2", 0).set("counter_rotate", 0).set("mdot", 0).set("density_floor", floor ? rng.log_uniform(0.1, 10) : 0); auto rc = o.config(); set_scheme_globals(rc);
    auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); vp::signature(o.text()); if (! in_equilibrium(sd, cells)) return;
    double sigma = rng.log_uniform(0.05, 20) * (floor ? rc.get_double("disk_mass") : 1), vx = u ? rng.uniform(-1, 1) : 0, vy = u ? rng.uniform(-1, 1) : 0;
    auto s = filled(create_solution(rc), sd, [=] (double, double) { return vec3 {sigma, vx, vy}; }); s.time = rng.uniform(0, 6);
    double dt = 1e-3 * rng.uniform(0.1, 1); solution_t t; try { t = advance(s, sd, dt, rng.chance(0.2)); } catch (const std::exception&) { vp::observe("broke-down"); return; }
    auto v0 = values_of(s, sd, cells), v1 = values_of(t, sd, cells); auto init = s; init.conserved_u = sd.initial_conserved_u; init.conserved_q = sd.initial_conserved_q; auto w = values_of(init, sd, cells);
    auto b = mara::compute_two_body_state(s.orbital_elements, s.time.value); double rs = rc.get_double("softening_radius");
    for (std::size_t n = 0; n < cells.size(); ++n)
    {
        auto& c = cells[n]; double k = (sink(b.body1, rc.get_double("sink_rate"), rc.get_double("sink_radius"), c.x, c.y) + sink(b.body2, rc.get_double("sink_rate"), rc.get_double("sink_radius"), c.x, c.y)), br = rc.get_double("buffer_damping_rate") * (1 + std::tanh(3 * (std::hypot(c.x, c.y) - rc.get_double("domain_radius"))));
        auto g1 = gravity(b.body1, rs, c.x, c.y), g2 = gravity(b.body2, rs, c.x, c.y); double fx = sigma * (g1.x + g2.x), fy = sigma * (g1.y + g2.y); vec3 f = u ? vec3 {0, fx, fy} : vec3 {0, c.x * fx + c.y * fy, c.x * fy - c.y * fx};
        double fl = u && sigma < rc.get_double("density_floor") * rc.get_double("disk_mass") ? 1e-2 : 0.0; double scale = sigma + std::abs(fx) + std::abs(fy); if (! u) scale *= 1 + std::hypot(c.x, c.y);
        for (int q = 0; q < 3; ++q)
        {
            double want = v0[n][q] + dt * (f[q] - v0[n][q] * k + (w[n][q] - v0[n][q]) * br) + fl * v0[n][q];
            if (! VP_CHECK(std::abs(v1[n][q] - want) <= 1e-10 * (scale + std::abs(v0[n][q]) * (k + 1) + std::abs(w[n][q]) * br), "disk/cell-source", "component %d of a cell at (%g %g) became %.15g, its sources make it %.15g (was %.15g)", q, c.x, c.y, v1[n][q], want, v0[n][q])) return;
        }
    }
    vp::observe("cell-source", cells.size()); if (floor && u && sigma < rc.get_double("density_floor") * rc.get_double("disk_mass")) vp::observe("floor");
}

// without forces: uniform flow stays, and only the configured stress acts
VP_SECTION("uniform and viscous flow", 150, 3000)
{
    auto o = physics(mesh(rng), rng); double rs = 1e8, ma = 1e-4 / std::sqrt(rng.uniform(0.2, 2));
    o.set("softening_radius", rs).set("mach_number", ma).set("sink_rate", 0).set("source_term_softening", 0).set("axisymmetric_cs2", 0).set("alpha_cutoff_radius", 0).set("alpha", 0).set("nu", 0).set("buffer_damping_rate", 0); bool u = o.number("conserve_linear_p");
    double sigma = rng.log_uniform(0.1, 10), cs = std::sqrt(1 / rs / ma / ma); vp::signature(o.text());
    {
        auto rc = options_t(o).set("nu", rng.chance(0.5) ? 0.0 : 0.01).config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); double R = rc.get_double("domain_radius");
        double vx = u ? rng.uniform(-2, 2) * cs : 0, vy = u ? rng.uniform(-2, 2) * cs : 0;
        auto s = filled(create_solution(rc), sd, [=] (double, double) { return vec3 {sigma, vx, vy}; }); sd.initial_conserved_u = s.conserved_u; sd.initial_conserved_q = s.conserved_q; auto v0 = values_of(s, sd, cells); s = advance(s, sd, 0.3 * maximum_timestep(s, sd)); auto v1 = values_of(s, sd, cells);
        for (std::size_t n = 0; n < cells.size(); ++n)
        {
            auto& c = cells[n]; bool edge = std::max(std::abs(c.x), std::abs(c.y)) + c.dx > R; if (! u && edge) continue; // no angular momentum flows through the domain edge
            for (int q = 0; q < 3; ++q) if (! VP_CHECK(std::abs(v1[n][q] - v0[n][q]) <= 1e-10 * sigma * (1 + R) * (1 + 2 * cs), "disk/uniform", "component %d of a cell at (%g %g) of a uniform flow changed from %.15g to %.15g", q, c.x, c.y, v0[n][q], v1[n][q])) return;
        }
        vp::observe("uniform");
    }
    // a mesh of one level; stresses from a velocity field quadratic in position
    o.set("depth", rng.range(0, 2)).set("block_size", 2 * rng.range(4, 6)).set("focus_factor", 1e6).set("plm_theta", rng.chance(0.3) ? 2 : rng.uniform(1.3, 2)); bool alpha = rng.chance(0.5); double cut = rng.chance(0.5) ? 0 : rng.uniform(0.5, 2);
    auto rc0 = o.config(); auto o1 = o; o1.set("alpha_cutoff_radius", cut); if (alpha) o1.set("alpha", rng.uniform(0.01, 0.1) * 1e-4); else o1.set("nu", rng.log_uniform(1e-3, 1e-1)); auto rc1 = o1.config(); set_scheme_globals(rc1); vp::context(o1.text());
    ma = rc1.get_double("mach_number"); cut = rc1.get_double("alpha_cutoff_radius"); cs = std::sqrt(1 / rs / ma / ma);
    auto sd0 = create_solver_data(rc0), sd1 = create_solver_data(rc1); auto cells = cells_of(sd1); double R = rc0.get_double("domain_radius"), h = cells[0].dx;
    double G[2][2], H[2][3]; for (auto& r : G) for (auto& g : r) g = rng.sign() * rng.uniform(0.5, 1) * cs / R; for (auto& r : H) for (auto& g : r) g = rng.uniform(-0.03, 0.03) * cs / R / R;
    auto vel = [=] (int k, double x, double y) { return G[k][0] * x + G[k][1] * y + H[k][0] * x * x + H[k][1] * x * y + H[k][2] * y * y; };
    auto grad = [=] (int k, int axis, double x, double y) { return axis == 0 ? G[k][0] + 2 * H[k][0] * x + H[k][1] * y : G[k][1] + H[k][1] * x + 2 * H[k][2] * y; };
    auto prim = [=] (double x, double y) { return vec3 {sigma, vel(0, x, y), vel(1, x, y)}; };
    auto s0 = filled(create_solution(rc0), sd0, prim), s1 = filled(create_solution(rc1), sd1, prim); sd0.initial_conserved_u = sd1.initial_conserved_u = s0.conserved_u; sd0.initial_conserved_q = sd1.initial_conserved_q = s0.conserved_q; double dt = 0.1 * maximum_timestep(s0, sd0);
    solution_t t0, t1; try { t0 = advance(s0, sd0, dt); t1 = advance(s1, sd1, dt); } catch (const std::exception&) { vp::observe("broke-down"); return; }
    auto a = values_of(t0, sd0, cells), b = values_of(t1, sd1, cells);
    auto nu = [&] (double x, double y) { double r = std::hypot(x, y), p = cut > 0 ? 0.5 * (1 + std::tanh(3 * (r - cut))) : 1; return alpha ? p * rc1.get_double("alpha") * cs * r / ma : p * rc1.get_double("nu"); };
    for (std::size_t n = 0; n < cells.size(); ++n)
    {
        auto& c = cells[n]; if (std::max(std::abs(c.x), std::abs(c.y)) + 2.6 * h > R) continue;
        vec3 want {}; double scale = 0;
        auto face = [&] (double x, double y, int axis, double sign)
        {
            double mu = sigma * nu(x, y), xx = mu * (grad(0, 0, x, y) - grad(1, 1, x, y)), xy = mu * (grad(1, 0, x, y) + grad(0, 1, x, y)), px = axis == 0 ? xx : xy, py = axis == 0 ? xy : -xx, k = sign * dt / h;
            if (u) { want[1] += k * px; want[2] += k * py; } else { want[1] += k * (x * px + y * py); want[2] += k * (x * py - y * px); }
            scale += std::abs(k) * (std::abs(xx) + std::abs(xy)) * (1 + R);
        };
        face(c.x + 0.5 * h, c.y, 0, 1); face(c.x - 0.5 * h, c.y, 0, -1); face(c.x, c.y + 0.5 * h, 1, 1); face(c.x, c.y - 0.5 * h, 1, -1);
        for (int q = 0; q < 3; ++q) if (! VP_CHECK(std::abs(b[n][q] - a[n][q] - want[q]) <= 1e-9 * scale + 1e-12 * sigma * (1 + R) * (1 + cs), "disk/stress", "component %d of a cell at (%g %g): the stress changed it by %.12g, should be %.12g", q, c.x, c.y, b[n][q] - a[n][q], want[q])) return;
        vp::observe("stress");
    }
}

// turning everything by a quarter turn turns the result
static index_t turned(index_t i) { auto n = std::size_t(1) << i.level; return index_t {i.level, {n - 1 - i.coordinates[1], i.coordinates[0]}}; }
template<typename T, typename F> static auto turn(const quad_tree_t<T>& tree, F rotate)
{
    return tree.indexes().map([&] (auto index) -> nd::shared_array<T, 2>
    {
        auto n = std::size_t(1) << index.level; auto from = index_t {index.level, {index.coordinates[1], n - 1 - index.coordinates[0]}}; // turned(from) == index
        auto block = tree.at(from); std::size_t N = block.shape(0); auto a = nd::make_unique_array<T>(N, N);
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) a(N - 1 - j, i) = rotate(block(i, j));
        return std::move(a).shared();
    });
}
static solution_t turn(solution_t s, bool u)
{
    if (u) s.conserved_u = turn(s.conserved_u, [] (u_t v) { auto a = get(v); return make_u({a[0], -a[2], a[1]}); }); else s.conserved_q = turn(s.conserved_q, [] (q_t v) { return v; });
    s.orbital_elements.pomega += M_PI / 2; auto& E = s.orbital_elements; std::swap(E.cm_position_x, E.cm_position_y); E.cm_position_x *= -1; std::swap(E.cm_velocity_x, E.cm_velocity_y); E.cm_velocity_x *= -1; return s;
}
VP_SECTION("quarter turns", 200, 4000)
{
    auto o = physics(mesh(rng), rng); auto rc = o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); vp::signature(o.text()); if (! in_equilibrium(sd, cells)) return; bool u = sd.conserve_linear_p;
    bool symmetric = true; for (auto& c : cells) symmetric = symmetric && sd.vertices.contains(turned(c.index)); if (! symmetric) { vp::observe("lopsided"); return; } // a block on the refinement radius to rounding
    auto s = filled(create_solution(rc), sd, disturbed(profile(rc), rng, rng.uniform(0, 0.5))); s.orbital_elements.pomega = rng.uniform(-3, 3); s.time = rng.uniform(0, 10);
    auto r = turn(s, u); double dt = rng.uniform(0.02, 0.3) * maximum_timestep(s, sd); bool safe = rng.chance(0.2); double dr = maximum_timestep(r, sd), ds = maximum_timestep(s, sd);
    VP_CHECK(near(dr, ds, ds), "disk/turned-step", "the time step of a turned solution is %.15g, not %.15g", dr, ds);
    for (int n = 0; n < 2; ++n)
    {
        bool fs = false, fr = false; solution_t s1, r1; try { s1 = advance(s, sd, dt, safe); } catch (const std::exception&) { fs = true; } try { r1 = advance(r, sd, dt, safe); } catch (const std::exception&) { fr = true; }
        if (fs || fr) { vp::observe("broke-down"); return; }
        auto want = values_of(turn(s1, u), sd, cells), got = values_of(r1, sd, cells); double scale[3] = {0, 0, 0}; for (auto& w : want) for (int q = 0; q < 3; ++q) scale[q] = std::max(scale[q], std::abs(w[q])); if (u) scale[1] = scale[2] = std::max(scale[1], scale[2]);
        for (std::size_t c = 0; c < cells.size(); ++c) for (int q = 0; q < 3; ++q) if (! VP_CHECK(std::abs(got[c][q] - want[c][q]) <= (n == 0 ? 1e-9 : 1e-6) * scale[q], "disk/turned", "step %d: component %d of the cell at (%g %g) is %.15g in the turned run, %.15g in the original", n, q, cells[c].x, cells[c].y, got[c][q], want[c][q])) return;
        for (int k = 0; k < 2; ++k)
        {
            VP_CHECK(near(r1.mass_accreted_on[k].value, s1.mass_accreted_on[k].value, scale[0] * 10, 1e-10) && near(r1.integrated_torque_on[k].value, s1.integrated_torque_on[k].value, scale[0] * 100, 1e-9) && near(r1.angular_momentum_accreted_on[k].value, s1.angular_momentum_accreted_on[k].value, scale[0] * 100, 1e-9), "disk/turned-totals", "the totals of a turned run differ");
            VP_CHECK(near(r1.work_done_on[k].value, s1.work_done_on[k].value, scale[0] * 100, 1e-9), "disk/turned-totals", "the work of a turned run differs");
        }
        s = s1; r = r1; vp::observe("turned"); if (o.number("begin_live_binary") < 1e6) break; // adding up small changes of the elements of a nearly circular orbit is ill-conditioned
    }
}

// on a mesh of one level, a step is what the numerical method prescribes, cell by cell
VP_SECTION("update", 200, 4000)
{
    auto o = physics(mesh(rng), rng); o.set("depth", rng.range(0, 2)).set("focus_factor", 1e6).set("block_size", 2 * rng.range(1, 4)); auto rc = o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); vp::signature(o.text()); if (! in_equilibrium(sd, cells)) return;
    bool u = sd.conserve_linear_p, pcm = rc.get_string("reconstruct_method") == "pcm"; auto field = disturbed(profile(rc), rng, rng.uniform(0, 0.5)); auto s = filled(create_solution(rc), sd, field); s.time = rng.uniform(0, 10); s.orbital_elements.pomega = rng.uniform(-3, 3); bool safe = rng.chance(0.2);
    double dt = rng.uniform(0.02, 0.3) * maximum_timestep(s, sd); solution_t t; try { t = advance(s, sd, dt, safe); } catch (const std::exception&) { vp::observe("broke-down"); return; }
    long B = long(rc.get_int("block_size")), N = B << long(rc.get_int("depth")); double R = rc.get_double("domain_radius"), h = 2 * R / N, theta = safe ? 0.0 : rc.get_double("plm_theta"), ma = rc.get_double("mach_number"), rs = rc.get_double("softening_radius");
    auto b = mara::compute_two_body_state(s.orbital_elements, s.time.value); std::vector<vec3> P(N * N); auto at = [&] (long i, long j) -> vec3& { return P[((i + N) % N) * N + (j + N) % N]; };
    if (long(cells.size()) != N * N) { vp::observe("other-mesh"); return; }
    for (auto& c : cells) at(long(c.index.coordinates[0]) * B + long(c.i), long(c.index.coordinates[1]) * B + long(c.j)) = field(c.x, c.y);
    auto cs2 = [&] (double x, double y) { if (o.number("axisymmetric_cs2")) return 1 / std::hypot(x, y) / ma / ma; double f = 0; for (auto& k : {b.body1, b.body2}) f += k.mass / std::sqrt(std::pow(x - k.position_x, 2) + std::pow(y - k.position_y, 2) + rs * rs); return f / ma / ma; };
    auto nu = [&] (double x, double y, double c2) { double r = std::hypot(x, y), rc0 = rc.get_double("alpha_cutoff_radius"), p = rc0 > 0 ? 0.5 * (1 + std::tanh(3 * (r - rc0))) : 1; return rc.get_double("nu") > 0 ? p * rc.get_double("nu") : p * rc.get_double("alpha") * std::sqrt(c2) * r / ma; };
    auto slope = [&] (long i, long j, int axis) { vec3 g; for (int k = 0; k < 3; ++k) { double a = axis == 0 ? at(i - 1, j)[k] : at(i, j - 1)[k], m = at(i, j)[k], c = axis == 0 ? at(i + 1, j)[k] : at(i, j + 1)[k], x = theta * (m - a), y = 0.5 * (c - a), z = theta * (c - m); g[k] = x > 0 && y > 0 && z > 0 ? std::min({x, y, z}) / h : x < 0 && y < 0 && z < 0 ? std::max({x, y, z}) / h : 0; } return g; };
    auto flux = [&] (long i, long j, int axis) // through the lower face of cell i, j on an axis
    {
        long il = axis == 0 ? i - 1 : i, jl = axis == 1 ? j - 1 : j; vec3 l = at(il, jl), r = at(i, j), gl = slope(il, jl, axis), gr = slope(i, j, axis), hl = slope(il, jl, 1 - axis), hr = slope(i, j, 1 - axis); double x = -R + h * (axis == 0 ? i : i + 0.5), y = -R + h * (axis == 1 ? j : j + 0.5), c2 = cs2(x, y), e = pcm ? 0 : 0.5 * h;
        auto prim = [] (vec3 a) { return mara::iso2d::primitive_t().with_sigma(a[0]).with_velocity_x(a[1]).with_velocity_y(a[2]); };
        for (int k = 0; k < 3; ++k) { l[k] += gl[k] * e; r[k] -= gr[k] * e; }
        auto f = mara::iso2d::riemann_hlle(prim(l), prim(r), c2, c2, mara::unit_vector_t::on_axis(axis)); double mu = nu(x, y, c2) * 0.5 * (l[0] + r[0]); auto mean = [&] (int d, int k) { return d == axis ? 0.5 * (gl[k] + gr[k]) : 0.5 * (hl[k] + hr[k]); };
        double xx = mu * (mean(0, 1) - mean(1, 2)), xy = mu * (mean(0, 2) + mean(1, 1)), fx = mara::get<1>(f).value - (axis == 0 ? xx : xy), fy = mara::get<2>(f).value - (axis == 0 ? xy : -xx);
        if (u) return vec3 {mara::get<0>(f).value, fx, fy};
        bool edge = axis == 0 ? i == 0 || i == N : j == 0 || j == N; return vec3 {mara::get<0>(f).value, x * fx + y * fy, edge ? 0.0 : x * fy - y * fx};
    };
    auto v0 = values_of(s, sd, cells), v1 = values_of(t, sd, cells); auto init = s; init.conserved_u = sd.initial_conserved_u; init.conserved_q = sd.initial_conserved_q; auto w = values_of(init, sd, cells); double sr2 = std::pow(rc.get_double("source_term_softening") * h, 2);
    for (std::size_t n = 0; n < cells.size(); ++n)
    {
        auto& c = cells[n]; long i = long(c.index.coordinates[0]) * B + long(c.i), j = long(c.index.coordinates[1]) * B + long(c.j); auto a = flux(i, j, 0), bb = flux(i + 1, j, 0), d = flux(i, j, 1), ee = flux(i, j + 1, 1); double k = 0, fx = 0, fy = 0; auto p = at(i, j);
        for (auto& body : {b.body1, b.body2}) { k += sink(body, rc.get_double("sink_rate"), rc.get_double("sink_radius"), c.x, c.y); auto g = gravity(body, rs, c.x, c.y); fx += p[0] * g.x; fy += p[0] * g.y; }
        double br = rc.get_double("buffer_damping_rate") * (1 + std::tanh(3 * (std::hypot(c.x, c.y) - R))), ramp = 1 - std::exp(-(c.x * c.x + c.y * c.y) / sr2); vec3 f = u ? vec3 {0, fx, fy} : vec3 {0, c.x * fx + c.y * fy + ramp * p[0] * (p[1] * p[1] + p[2] * p[2] + 2 * cs2(c.x, c.y)), c.x * fy - c.y * fx};
        double size = u ? 1 : 1 + R;
        for (int q = 0; q < 3; ++q)
        {
            double want = v0[n][q] - (bb[q] - a[q] + ee[q] - d[q]) * dt / h + dt * (f[q] - v0[n][q] * k + (w[n][q] - v0[n][q]) * br), scale = (std::abs(a[q]) + std::abs(bb[q]) + std::abs(d[q]) + std::abs(ee[q])) * dt / h + std::abs(v0[n][q]) * (1 + dt * (k + br)) + std::abs(w[n][q]) * dt * br + dt * std::abs(f[q]) + size * p[0] * 0.1;
            if (! VP_CHECK(std::abs(v1[n][q] - want) <= 1e-9 * scale, "disk/update", "component %d of the cell at (%g %g) became %.15g, its fluxes and sources make it %.15g (was %.15g)", q, c.x, c.y, v1[n][q], want, v0[n][q])) return;
        }
    }
    vp::observe("updated", cells.size()); vp::observe(pcm ? "pcm" : "plm");
}

// what the diagnostics show is the solution
VP_SECTION("diagnostics", 80, 1000)
{
    auto o = physics(mesh(rng), rng); auto rc = o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); vp::context(o.text()); vp::signature(o.text()); if (! in_equilibrium(sd, cells)) return; bool u = sd.conserve_linear_p;
    auto field = disturbed(profile(rc), rng, rng.uniform(0, 0.5)); auto s = filled(create_solution(rc), sd, field); s.time = rng.uniform(0, 10); s.orbital_elements.pomega = rng.uniform(-3, 3);
    auto d = diagnostic_fields(s, rc); auto b = mara::compute_two_body_state(s.orbital_elements, s.time.value); auto p = recover_primitive(s, sd); double best = 1e300;
    VP_CHECK(d.time.value == s.time.value && d.position_of_mass1[0].value == b.body1.position_x && d.position_of_mass1[1].value == b.body1.position_y && d.position_of_mass2[0].value == b.body2.position_x && d.position_of_mass2[1].value == b.body2.position_y, "disk/diagnostics", "time or positions differ from the solution's");
    for (auto& c : cells)
    {
        auto f = field(c.x, c.y); double r = std::hypot(c.x, c.y), vr = (f[1] * c.x + f[2] * c.y) / r, vphi = (f[2] * c.x - f[1] * c.y) / r, sg = d.sigma.at(c.index)(c.i, c.j), gr = d.radial_velocity.at(c.index)(c.i, c.j), gp = d.phi_velocity.at(c.index)(c.i, c.j); auto q = p.at(c.index)(c.i, c.j); double tol = 1e-10 * (1 + std::abs(vr) + std::abs(vphi));
        if (! VP_CHECK(std::abs(sg - f[0]) <= 1e-12 * f[0] && std::abs(gr - vr) <= tol && std::abs(gp - vphi) <= tol, "disk/diagnostics", "at (%g %g) density %g, velocities %g %g are shown, the solution holds %g, %g %g", c.x, c.y, sg, gr, gp, f[0], vr, vphi)) return;
        if (! VP_CHECK(std::abs(q.sigma() - f[0]) <= 1e-12 * f[0] && std::abs(q.velocity_x() - f[1]) <= tol && std::abs(q.velocity_y() - f[2]) <= tol, "disk/primitive", "the state recovered at (%g %g) differs", c.x, c.y)) return;
        double cs2 = o.number("axisymmetric_cs2") ? 1 / r : b.body1.mass / std::sqrt(std::pow(c.x - b.body1.position_x, 2) + std::pow(c.y - b.body1.position_y, 2) + std::pow(sd.softening_radius.value, 2)) + b.body2.mass / std::sqrt(std::pow(c.x - b.body2.position_x, 2) + std::pow(c.y - b.body2.position_y, 2) + std::pow(sd.softening_radius.value, 2)); cs2 /= std::pow(rc.get_double("mach_number"), 2);
        best = std::min(best, c.dx / (std::max(std::abs(f[1]), std::abs(f[2])) + std::sqrt(cs2)));
        auto v = d.vertices.at(c.index); VP_CHECK(std::abs(0.5 * (v(c.i, c.j)[0].value + v(c.i + 1, c.j)[0].value) - c.x) <= 1e-14 * (1 + std::abs(c.x)), "disk/diagnostics", "the vertices differ from the mesh");
    }
    double got = maximum_timestep(s, sd); VP_CHECK(near(got, best, best, 1e-10), "disk/time-step", "the largest stable time step is given as %.12g, signals cross a cell in %.12g", got, best); vp::observe("diagnosed", cells.size());
}

// runs start from the configured disk: its mass, its ambient density, rotation that balances gravity and pressure, its drift, and the orbit
VP_SECTION("initial model", 200, 4000)
{
    auto o = physics(mesh(rng), rng); if (rng.chance(0.4)) o.set("mdot", rng.log_uniform(1e-6, 1e-2)); auto rc = o.config(); auto f = profile(rc); vp::context(o.text()); double R = o.number("disk_radius"), M = o.number("disk_mass"), A = o.number("ambient_density"), rs = o.number("softening_radius"), Ma2 = std::pow(o.number("mach_number"), 2), mdot = o.number("mdot"), spin = o.number("counter_rotate") ? -1 : 1;
    auto at = [&] (double r, double q) { auto p = f(r * std::cos(q), r * std::sin(q)); return vec3 {p[0], std::cos(q) * p[1] + std::sin(q) * p[2], std::cos(q) * p[2] - std::sin(q) * p[1]}; };
    double ambient = at(60 * R, 0)[0], peak = at(R, 1)[0] - ambient, sum = 0; int N = 4000; for (int k = 0; k < N; ++k) { double r = 12 * R * (k + 0.5) / N; sum += 2 * M_PI * r * (at(r, 0.3)[0] - ambient) * 12 * R / N; }
    VP_CHECK(near(sum, M, M, 1e-5), "disk/initial", "the disk holds %.10g above the ambient density, configured are %.10g", sum, M); VP_CHECK(near(ambient, A * peak, A * peak, 1e-9), "disk/initial", "the ambient density is %.12g, the greatest density of the disk %.12g", ambient, peak);
    for (int k = 0; k < 20; ++k)
    {
        double r = rng.log_uniform(0.05, 5 * R), q = rng.uniform(-3.14, 3.14), h = 1e-5 * r; auto p = at(r, q), a = at(r - h, q), b = at(r + h, q); double slope = (b[0] - a[0]) / (2 * h), v2 = 1 / (r + rs) + r / p[0] * slope / Ma2 / (r + rs) - 1 / Ma2 / (r + rs); // gravity, and the gradient of the pressure sigma / (r + rs) / Mach^2
        VP_CHECK(near(p[0], at(r, 0)[0], p[0], 1e-12) && near(p[0], ambient + peak * std::exp(-0.5 * std::pow(r / R - 1, 2)), p[0], 1e-9), "disk/initial", "the surface density at r=%g is %.12g", r, p[0]);
        if (v2 < 1e-3 / r) { vp::observe("thick"); continue; }
        VP_CHECK(near(p[2], spin * std::sqrt(v2), std::sqrt(v2), 1e-5 / std::min(1.0, v2 * r)), "disk/initial", "the gas at r=%g turns with %.12g, balance needs %.12g", r, p[2], spin * std::sqrt(v2));
        if (std::abs(r - 2) > 1e-6) { double want = r > 2 ? -mdot / (2 * M_PI * r * p[0]) : 0; VP_CHECK(near(p[1], want, std::abs(want) + std::abs(p[2]), 1e-10), "disk/initial", "the gas at r=%g drifts with %.12g, the accretion rate needs %.12g", r, p[1], want); if (want != 0) vp::observe("drift"); } vp::observe("initial-point");
    }
    if (index % 4) return;
    set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); if (! in_equilibrium(sd, cells)) return; auto s = create_solution(rc); double area = 0; for (auto& c : cells) { area += c.dA; VP_CHECK(std::abs(c.x) < o.number("domain_radius") && std::abs(c.y) < o.number("domain_radius"), "disk/initial", "a cell lies at (%g %g)", c.x, c.y); } double L = 2 * o.number("domain_radius"); VP_CHECK(near(area, L * L, L * L), "disk/initial", "the cells cover an area of %.12g", area);
    VP_CHECK(! sd.conserve_linear_p ? s.conserved_u.size() != cells.size() && s.conserved_q.size() > 0 : s.conserved_u.size() > 0, "disk/initial", "the conserved variables are not the configured ones"); auto v = values_of(s, sd, cells); for (std::size_t n = 0; n < cells.size(); ++n) { auto& c = cells[n]; auto p = f(c.x, c.y); vec3 w = sd.conserve_linear_p ? vec3 {p[0], p[0] * p[1], p[0] * p[2]} : vec3 {p[0], p[0] * (c.x * p[1] + c.y * p[2]), p[0] * (c.x * p[2] - c.y * p[1])}; double z = p[0] * (std::abs(p[1]) + std::abs(p[2])) * (sd.conserve_linear_p ? 1 : std::abs(c.x) + std::abs(c.y)); VP_CHECK(near(v[n][0], w[0], w[0]) && near(v[n][1], w[1], z) && near(v[n][2], w[2], z), "disk/initial", "the cell at (%g %g) does not hold the profile", c.x, c.y); }
    auto e = s.orbital_elements; VP_CHECK(s.time.value == 0 && s.iteration == mara::make_rational(0, 1) && e.elements.total_mass == 1 && e.elements.separation == o.number("separation") && e.elements.mass_ratio == o.number("mass_ratio") && e.elements.eccentricity == o.number("eccentricity") && e.pomega == 0 && e.tau == 0 && e.cm_position_x == 0 && e.cm_position_y == 0 && e.cm_velocity_x == 0 && e.cm_velocity_y == 0, "disk/initial", "the orbit is not the configured one");
    for (double x : {s.mass_accreted_on[0].value, s.mass_accreted_on[1].value, s.angular_momentum_accreted_on[0].value, s.angular_momentum_accreted_on[1].value, s.integrated_torque_on[0].value, s.integrated_torque_on[1].value, s.work_done_on[0].value, s.work_done_on[1].value, s.mass_ejected.value, s.angular_momentum_ejected.value}) VP_CHECK(x == 0, "disk/initial", "a total starts from %g", x);
    for (auto& z : {s.orbital_elements_acc, s.orbital_elements_grav}) VP_CHECK(z.pomega == 0 && z.tau == 0 && z.cm_position_x == 0 && z.cm_position_y == 0 && z.cm_velocity_x == 0 && z.cm_velocity_y == 0 && z.elements.separation == 0 && z.elements.total_mass == 0 && z.elements.mass_ratio == 0 && z.elements.eccentricity == 0, "disk/initial", "a change of the orbit starts from other than zero"); vp::observe("initial-state");
}

// whole runs: the recorded time series balances
VP_SECTION("runs", 1, 4)
{
    int n = vp::S().thorough ? 16 : 8; auto seed = rng.next(); std::atomic<int> broke {0};
    app::parallel(n, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + k)}; auto o = physics(mesh(r), r); o.set("outdir", "out").set("tfinal", r.uniform(0.01, 0.03)).set("tsi", 1e-3).set("cpi", 0.01).set("dfi", 1); bool u = o.number("conserve_linear_p"); double tol = o.number("axisymmetric_cs2") ? 1e-11 : 1e-3;
        app::args_t args = {"binary"}; for (auto& kv : o.items) args.push_back(kv.first + "=" + kv.second);
        auto dir = app::new_dir("run"); auto a = app::run(args, dir); if (! a.ok() && (a.err.find("negative density") != std::string::npos || a.err.find("bound orbit") != std::string::npos)) { ++broke; vp::observe("broke-down"); app::remove_tree(dir); return; }
        if (! vp::check(a.ok(), "runs/failed", o.text() + a.describe())) return;
        auto files = app::files(dir + "/out"); std::string last; for (auto& f : files) if (f.compare(0, 5, "chkpt") == 0) last = std::max(last, f);
                auto col = [&] (const char* name) { return app::member(dir + "/out/" + last, "/time_series", name); };
        auto dm = col("disk_mass"), dl = col("disk_angular_momentum"), am = col("mass_accreted_on"), al = col("angular_momentum_accreted_on"), tq = col("integrated_torque_on"), em = col("mass_ejected"), el = col("angular_momentum_ejected"), tm = col("time");
        vp::check(dm.size() > 1 && am.size() == 2 * dm.size() && tq.size() == 2 * dm.size() && el.size() == dm.size(), "runs/series", o.text() + vp::fmt("%zu samples", dm.size()));
        for (std::size_t i = 0; i < dm.size() && am.size() == 2 * dm.size(); ++i)
        {
            double m = dm[i] + am[2 * i] + am[2 * i + 1] + em[i], l = dl[i] + al[2 * i] + al[2 * i + 1] + tq[2 * i] + tq[2 * i + 1] + el[i];
            vp::check(near(m, dm[0], dm[0] + std::abs(em[i]), tol), "runs/mass", o.text() + vp::fmt("time %g: disk, accreted and ejected mass add up to %.15g, at first %.15g", tm[i], m, dm[0]));
            if (! u) vp::check(near(l, dl[0], std::abs(dl[0]) + std::abs(el[i]) + dm[0] * std::sqrt(o.number("domain_radius")), 1e-10), "runs/angmom", o.text() + vp::fmt("time %g: angular momenta add up to %.15g, at first %.15g", tm[i], l, dl[0]));
            vp::observe("sample");
        }
        vp::observe("run"); vp::signature(o.text()); app::remove_tree(dir);
    }, 4);
    vp::check(broke * 2 <= n, "runs/broke", vp::fmt("%d of %d runs broke down", int(broke), n));
}

// whole runs with everything written at every step: each step is the configured method applied to the state before it, and the recorded samples describe their states
static bool same_values(const std::vector<vec3>& a, const std::vector<vec3>& b, double tol) { double s[3] = {}; for (auto& x : a) for (int k = 0; k < 3; ++k) s[k] = std::max(s[k], std::abs(x[k])); s[1] = s[2] = std::max(s[1], s[2]); if (a.size() != b.size()) return false; for (std::size_t n = 0; n < a.size(); ++n) for (int k = 0; k < 3; ++k) if (! (std::abs(a[n][k] - b[n][k]) <= tol * (s[k] + 1e-300))) return false; return true; }
static std::vector<double> numbers_of(const mara::full_orbital_elements_t& e) { return {e.pomega, e.tau, e.cm_position_x, e.cm_position_y, e.cm_velocity_x, e.cm_velocity_y, e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity}; }
static std::vector<double> totals_recorded(const solution_t& s) { std::vector<double> r; for (int k = 0; k < 2; ++k) { r.push_back(s.mass_accreted_on[k].value); r.push_back(s.angular_momentum_accreted_on[k].value); r.push_back(s.integrated_torque_on[k].value); r.push_back(s.work_done_on[k].value); } r.push_back(s.mass_ejected.value); r.push_back(s.angular_momentum_ejected.value); return r; }
static bool near_all(const std::vector<double>& a, const std::vector<double>& b, double scale, double tol) { for (std::size_t n = 0; n < a.size(); ++n) if (! (std::abs(a[n] - b[n]) <= tol * (scale + std::abs(a[n])))) return false; return a.size() == b.size(); }

VP_SECTION("run steps", 3, 40)
{
    (void) index; struct run_t { options_t o; std::string dir; app::result_t r; bool skip = false; }; std::vector<run_t> runs(12);
    for (auto& x : runs)
    {
        x.o = physics(mesh(rng), rng); if (rng.chance(0.4)) x.o.set("fixed_dt", 1); if (rng.chance(0.5)) x.o.set("begin_live_binary", 0.0); auto rc = x.o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); if (! in_equilibrium(sd, cells)) { x.skip = true; continue; }
        auto s = create_solution(rc); double dt = sd.fixed_dt ? sd.recommended_time_step.value : sd.cfl_number * maximum_timestep(s, sd); x.o.set("tfinal", dt * rng.uniform(2, 7) / (2 * M_PI)).set("cpi", 0).set("dfi", 0).set("tsi", 0).set("outdir", "out"); x.dir = app::new_dir("step");
    }
    app::parallel(runs.size(), [&] (std::size_t k) { auto& x = runs[k]; if (x.skip) return; app::args_t args = {"binary"}; for (auto& kv : x.o.items) args.push_back(kv.first + "=" + kv.second); x.r = app::run(args, x.dir); }, 4);
    int broke = 0;
    for (auto& x : runs)
    {
        if (x.skip) continue; auto& o = x.o; vp::context(o.text());
        if (! x.r.ok() && (x.r.err.find("negative density") != std::string::npos || x.r.err.find("bound orbit") != std::string::npos)) { ++broke; vp::observe("broke-down"); app::remove_tree(x.dir); continue; }
        if (! vp::check(x.r.ok(), "run-steps/failed", o.text() + x.r.describe())) { app::remove_tree(x.dir); continue; }
        auto rc = o.config(); set_scheme_globals(rc); auto sd = create_solver_data(rc); auto cells = cells_of(sd); auto out = x.dir + "/out"; auto cn = app::numbers(out, "chkpt"), dn = app::numbers(out, "diagnostics"); std::vector<solution_t> states; std::vector<time_series_sample_t> samples;
        vp::check(cn.size() >= 2 && dn.size() == cn.size(), "run-steps/outputs", o.text() + vp::fmt("%zu checkpoints and %zu diagnostics", cn.size(), dn.size()));
        for (std::size_t k = 0; k < cn.size(); ++k)
        {
            auto st = mara::read<state_t>(h5::File(app::numbered(out, "chkpt", cn[k]), "r").open_group("/"), "/").with(rc); states.push_back(st.solution); auto& s = states.back(); samples.assign(st.time_series.begin(), st.time_series.end());
            vp::check(samples.size() == k + 1, "run-steps/samples", o.text() + vp::fmt("checkpoint %zu holds %zu samples", k, samples.size())); vp::observe("run-state");
            if (! samples.empty())
            {
                auto& a = samples[0]; auto b = mara::compute_two_body_state(s.orbital_elements, s.time.value); solution_t r; r.mass_accreted_on = a.mass_accreted_on; r.angular_momentum_accreted_on = a.angular_momentum_accreted_on; r.integrated_torque_on = a.integrated_torque_on; r.work_done_on = a.work_done_on; r.mass_ejected = a.mass_ejected; r.angular_momentum_ejected = a.angular_momentum_ejected;
                vp::check(a.time.value == s.time.value && totals_recorded(r) == totals_recorded(s), "run-steps/sample", o.text() + vp::fmt("sample %zu does not have the totals of its state", k));
                vp::check(numbers_of(a.orbital_elements) == numbers_of(s.orbital_elements) && numbers_of(a.orbital_elements_acc) == numbers_of(s.orbital_elements_acc) && numbers_of(a.orbital_elements_grav) == numbers_of(s.orbital_elements_grav), "run-steps/sample", o.text() + vp::fmt("sample %zu does not have the orbit of its state", k));
                std::vector<double> got = {a.position_of_mass1[0].value, a.position_of_mass1[1].value, a.position_of_mass2[0].value, a.position_of_mass2[1].value}, want = {b.body1.position_x, b.body1.position_y, b.body2.position_x, b.body2.position_y};
                vp::check(near_all(got, want, 1, 1e-12), "run-steps/sample", o.text() + vp::fmt("sample %zu has the bodies at (%.12g %.12g) and (%.12g %.12g), the orbit at (%.12g %.12g) and (%.12g %.12g)", k, got[0], got[1], got[2], got[3], want[0], want[1], want[2], want[3]));
                auto c = totals_of(s, sd, cells); vp::check(near(a.disk_mass.value, c.mass, c.scale_m) && near(a.disk_angular_momentum.value, c.lz, c.scale_l), "run-steps/sample", o.text() + vp::fmt("sample %zu has disk mass %.15g and angular momentum %.15g, its cells hold %.15g and %.15g", k, a.disk_mass.value, a.disk_angular_momentum.value, c.mass, c.lz)); vp::observe("run-sample");
            }
            if (k < dn.size()) // the diagnostics of the same moment
            {
                diagnostic_fields_t d {rc}; { auto g = h5::File(app::numbered(out, "diagnostics", dn[k]), "r").open_group("/"); mara::read(g, "/", d); } auto p = recover_primitive(s, sd); bool ok = d.time.value == s.time.value;
                for (auto& c : cells) { auto q = p.at(c.index)(c.i, c.j); double r = std::sqrt(c.x * c.x + c.y * c.y), vr = (c.x * q.velocity_x() + c.y * q.velocity_y()) / r, vp_ = (c.x * q.velocity_y() - c.y * q.velocity_x()) / r, v = std::abs(q.velocity_x()) + std::abs(q.velocity_y()) + 1e-9; ok = ok && near(d.sigma.at(c.index)(c.i, c.j), q.sigma(), q.sigma(), 1e-10) && near(d.radial_velocity.at(c.index)(c.i, c.j), vr, v, 1e-9) && near(d.phi_velocity.at(c.index)(c.i, c.j), vp_, v, 1e-9); }
                vp::check(ok, "run-steps/diagnostics", o.text() + vp::fmt("diagnostics %zu do not show the state of the checkpoint", k));
            }
            if (k == 0) { vp::check(s.time.value == 0 && s.iteration == mara::make_rational(0, 1) && same_values(values_of(s, sd, cells), values_of(create_solution(rc), sd, cells), 1e-13), "run-steps/initial", o.text() + "the run does not start from the initial model"); continue; }
            auto& s0 = states[k - 1]; double dt = sd.fixed_dt ? 0.0 : sd.cfl_number * maximum_timestep(s0, sd);
            if (sd.fixed_dt) { double h = 1e300, v = 1; for (auto& c : cells) h = std::min(h, c.dx); auto prim = profile(rc); for (auto& c : cells) { auto q = prim(c.x, c.y); v = std::max(v, std::sqrt(q[1] * q[1] + q[2] * q[2])); } dt = o.number("cfl_number") * h / v; vp::observe("fixed-step"); }
            auto step = [&] (double h, bool safe) { auto s1 = advance(s0, sd, h, safe); if (sd.rk_order == 1) return s1; auto s2 = advance(s1, sd, h, safe); auto half = mara::make_rational(1, 2); return s0 * half + s2 * half; };
            solution_t w; try { w = step(dt, false); } catch (const std::exception&) { try { w = step(dt * 0.1, true); vp::observe("safe-step"); } catch (const std::exception&) { vp::observe("unsure"); continue; } }
            vp::check(near(s.time.value, w.time.value, w.time.value, 1e-9) && s.iteration == s0.iteration + 1, "run-steps/time", o.text() + vp::fmt("step %zu went from time %.15g to %.15g, the configured step leads to %.15g", k, s0.time.value, s.time.value, w.time.value));
            if (! near(s.time.value, w.time.value, w.time.value, 1e-9)) break;
            vp::check(same_values(values_of(s, sd, cells), values_of(w, sd, cells), 1e-8), "run-steps/step", o.text() + vp::fmt("step %zu is not the configured method applied to the state before it", k));
            vp::check(near_all(totals_recorded(s), totals_recorded(w), 1, 1e-8), "run-steps/totals", o.text() + vp::fmt("the totals after step %zu are not those of the configured method", k)); vp::observe(sd.rk_order == 2 ? "two-stage-step" : "one-stage-step");
            auto b0 = mara::compute_two_body_state(s.orbital_elements, s.time.value), b1 = mara::compute_two_body_state(w.orbital_elements, s.time.value); vp::check(near_all({b0.body1.position_x, b0.body1.position_y, b0.body2.position_x, b0.body2.position_y, b0.body1.velocity_x, b0.body2.velocity_y}, {b1.body1.position_x, b1.body1.position_y, b1.body2.position_x, b1.body2.position_y, b1.body1.velocity_x, b1.body2.velocity_y}, 1, 1e-6), "run-steps/orbit", o.text() + vp::fmt("the bodies after step %zu are not where the configured method takes them", k));
        }
        if (! states.empty()) { double end = states.back().time.value / (2 * M_PI); vp::check(end >= o.number("tfinal") && (states.size() < 3 || states[states.size() - 3].time.value / (2 * M_PI) < o.number("tfinal")), "run-steps/end", o.text() + vp::fmt("the run ended at %g orbits", end)); }
        vp::observe("run-stepped"); vp::signature(o.text()); app::remove_tree(x.dir);
    }
    vp::check(broke * 2 <= int(runs.size()), "run-steps/broke", vp::fmt("%d of %zu runs broke down", broke, runs.size()));
}
VP_MAIN()
