// C13: the explosion, jet and advection programs evolve by their conservation laws. Whole programs run with an output at every step;
// each step in the files is compared with one computed here, cell by cell, from the state before it.
#include "vp.hpp"
#include "app.hpp"
#include <cmath>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_geometric.hpp"
#include "physics_srhd.hpp"
#include "physics_euler.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
static const double gamma_law = 4. / 3;
static std::string num(double x) { return vp::fmt("%.6g", x); }
using vec5 = std::array<double, 5>;
struct options_t
{
    std::string prog; std::map<std::string, std::string> items;
    std::string start; bool symmetric = true; // the checkpoint a run was taken up from, after its state was replaced by another one
    options_t& set(const std::string& k, const std::string& v) { items[k] = v; return *this; }
    options_t& set(const std::string& k, double v) { return set(k, num(v)); }
    double number(const std::string& k) const { return std::atof(items.at(k).c_str()); }
    app::args_t args() const { app::args_t a {prog}; for (auto& kv : items) a.push_back(kv.first + "=" + kv.second); return a; }
    std::string text() const { return app::joined(args()); }
};
template<typename T> static vec5 values(const mara::arithmetic_sequence_t<T, 5>& s) { return {s[0].value, s[1].value, s[2].value, s[3].value, s[4].value}; }
template<typename U> static U density(const vec5& u, double dv) { U r; for (int k = 0; k < 5; ++k) r[k].value = u[k] / dv; return r; }
static double size_of(const vec5& u) { double s = 0; for (double x : u) s = std::max(s, std::abs(x)); return s; }
static std::vector<vec5> fives(const app::file_t& f, const std::string& path) { auto d = app::doubles(f, path); std::vector<vec5> r(d.size() / 5); for (std::size_t n = 0; n < r.size(); ++n) std::copy(&d[5 * n], &d[5 * n] + 5, r[n].begin()); return r; }
static bool close_to(double a, double b, double tol) { return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }

// the checkpoints of a run in order, each with the diagnostics of the same moment (none for the replaced state)
struct output_t { std::string checkpoint, diagnostics; };
static std::vector<output_t> outputs_of(const options_t& o, const std::string& dir, std::size_t& unpaired)
{
    auto out = dir + (o.start.empty() ? "/out" : "/out2"); auto cn = app::numbers(out, "chkpt"), dn = app::numbers(out, "diagnostics"); std::vector<output_t> r; if (! o.start.empty()) r.push_back({o.start, ""});
    for (std::size_t k = 0; k < std::min(cn.size(), dn.size()); ++k) r.push_back({app::numbered(out, "chkpt", cn[k]), app::numbered(out, "diagnostics", dn[k])}); unpaired = std::max(cn.size(), dn.size()) - std::min(cn.size(), dn.size()); return r;
}
static bool cut_short = false; // the run being judged ended early
// runs a set of configurations at once, then hands each finished run to `judge`
template<typename J> static void run_all(std::vector<options_t>& configs, J judge)
{
    std::vector<std::string> dirs(configs.size()); std::vector<app::result_t> results(configs.size()); for (auto& d : dirs) d = app::new_dir("s");
    app::parallel(configs.size(), [&] (std::size_t n) { results[n] = app::run(configs[n].args(), dirs[n], "PLAIN", 100); });
    // a jet without a temperature floor, or with steep reconstruction, may break down and says so: its steps until then are judged all the same
    int broke = 0; auto gave_up = [&] (std::size_t n) { auto& r = results[n]; auto& c = configs[n]; return c.prog == "cloud" && ! r.ok() && r.err.find("recover_primitive failure") != std::string::npos && (c.number("temperature_floor") == 0 || c.number("reconstruct_method") == 2); };
    for (std::size_t n = 0; n < configs.size(); ++n)
    {
        vp::context(configs[n].text()); cut_short = gave_up(n); if (cut_short) { ++broke; vp::observe("unstable-configuration"); }
        if (cut_short || vp::check(results[n].ok(), "run-failed", configs[n].text() + results[n].describe())) { judge(configs[n], dirs[n]); vp::observe("run:" + configs[n].prog); } app::remove_tree(dirs[n]);
    }
    cut_short = false; vp::check(broke * 3 <= int(configs.size()), "run-failed", vp::fmt("%d of %zu configurations broke down", broke, configs.size()));
}

//-----------------------------------------------------------------------------
// Statements about reported positions of a shock. Positions are indexes found from the reported radius; comparisons allow for round-off ties.
static int index_of(const std::vector<double>& r, double x) { for (std::size_t i = 0; i < r.size(); ++i) if (close_to(r[i], x, 1e-11)) return i; return -1; }
static bool steepest_entropy_drop(const std::vector<double>& s, int i) // the global minimum of the difference of s
{
    if (i < 0 || i + 1 >= int(s.size())) return false; for (std::size_t k = 0; k + 1 < s.size(); ++k) if (s[k + 1] - s[k] < s[i + 1] - s[i] - 1e-9 * (1 + std::abs(s[k]) + std::abs(s[i]))) return false; return true;
}
static bool first_maximum_behind(const std::vector<double>& y, int from, int i, double tol) // walking inwards from `from`, the first place where y no longer grows
{
    if (i < 0 || i > from) return false; for (int k = from; k > i; --k) if (y[k - 1] < y[k] - tol * (std::abs(y[k]) + std::abs(y[k - 1]))) return false;
    return i == 0 || y[i - 1] <= y[i] + tol * (std::abs(y[i]) + std::abs(y[i - 1]));
}
static bool plateau_ahead(const std::vector<double>& p, int from, int i) // walking outwards, the first place where log p stops steepening by a factor of two; 0 if there is none
{
    auto l = [&p] (int k) { return std::log(p[k + 1] / p[k]); }; int n = p.size() - 1; auto sure = [&] (int k, int sign) { double a = l(k - 1), b = 0.5 * l(k - 2); return sign * (b - a) > 1e-8 * (1e-3 + std::abs(a) + std::abs(b)); }; // sure(+1): surely goes on, sure(-1): surely stops
    int k = from; for (;; ++k) { if (k < 2 || k - 1 >= n) return i == 0; if (k == i && ! sure(k, 1)) return true; if (sure(k, -1)) return k == i; }
}

//-----------------------------------------------------------------------------
struct shells_t { std::vector<double> r; double area(int i) const { return r[i] * r[i]; } double volume(int i) const { return (std::pow(r[i + 1], 3) - std::pow(r[i], 3)) / 3; } double center(int i) const { return 0.5 * (r[i] + r[i + 1]); } };
static mara::srhd::primitive_t mirrored(mara::srhd::primitive_t p) { return p.with_gamma_beta_1(-p.gamma_beta_1()); }
static mara::euler::primitive_t mirrored(mara::euler::primitive_t p) { return p.with_velocity_1(-p.velocity_1()); }
static double speed(const mara::srhd::primitive_t& p) { return p.gamma_beta_1(); }
static double speed(const mara::euler::primitive_t& p) { return p.velocity_1(); }

template<typename System> static void judge_sedov(const options_t& o, const std::string& dir)
{
    std::size_t unpaired; auto outputs = outputs_of(o, dir, unpaired); auto sig = o.text();
    if (! vp::check(outputs.size() >= 3 && unpaired == 0, "outputs-missing", sig + vp::fmt("%zu outputs, %zu without partner", outputs.size(), unpaired))) return;
    std::vector<vec5> before; double t0 = 0, lost = 0, first_mass = 0; shells_t s; int it0 = 0;
    static const char* columns[] = {"shock_radius", "shock_radius_upstream", "shock_radius_downstream", "shock_radius_interpolated", "shock_velocity"}; std::map<double, std::map<std::string, double>> rows;
    for (std::size_t k = 0; k < outputs.size(); ++k)
    {
        app::file_t f, d; bool described = ! outputs[k].diagnostics.empty(); if (! vp::check(app::load(outputs[k].checkpoint, f) && (! described || app::load(outputs[k].diagnostics, d)), "file-unreadable", sig)) return;
        auto at = sig + vp::fmt("| output %zu: ", k); auto r = app::doubles(f, "/solution/vertices"); auto u = fives(f, "/solution/conserved"); double t = app::scalar(f, "/solution/time"); int it = app::integer(f, "/solution/iteration"); std::size_t n = u.size();
        if (! vp::check(r.size() == n + 1 && n >= 2, "shape", at + vp::fmt("%zu vertices, %zu cells", r.size(), n))) return;
        if (! described) { s.r = r; for (auto& x : u) first_mass += x[0]; before = u; t0 = t; it0 = it; continue; }
        if (k == 0)
        {
            s.r = r; double R = o.number("outer_radius");
            for (std::size_t i = 0; i < n; ++i) vp::check(r[i + 1] > r[i], "mesh", at + "vertices do not increase");
            vp::check(close_to(r[n], R, 1e-12) && r[0] < 1 && r[0] > 0, "mesh", at + vp::fmt("the mesh covers %g to %g", r[0], r[n]));
            double zones = std::log10(R) * o.number("nr"); bool edge = std::abs(zones - std::round(zones)) < 1e-9; vp::check(edge ? std::abs(double(n) - zones) < 1.5 : n == std::size_t(zones), "mesh", at + vp::fmt("%zu zones, %g asked for", n, zones));
            for (std::size_t i = 0; i < n; ++i) vp::check(close_to(r[i + 1] / r[i], std::pow(r[n] / r[0], 1.0 / n), 1e-11), "mesh", at + "vertices are not in geometric progression");
            vp::check(t == 0 && it == 0, "initial", at + vp::fmt("starts at time %g, iteration %d", t, it));
            for (std::size_t i = 0; i < n; ++i)
            {
                double rc = s.center(i), rho = rc < 1 ? o.number("explosion_density") : std::pow(rc, -o.number("density_index")), p = rc < 1 ? o.number("explosion_pressure") : 1e-6 * rho; double want[5] = {rho, 0, 0, 0, p / (gamma_law - 1)};
                for (int c = 0; c < 5; ++c) vp::check(std::abs(u[i][c] / s.volume(i) - want[c]) <= (c == 4 ? 1e-12 * (want[0] + want[4]) : 1e-12 * std::abs(want[c])), "initial", at + vp::fmt("cell %zu at r=%g component %d is %.17g, not %.17g", i, rc, c, u[i][c] / s.volume(i), want[c]));
            }
            for (auto& x : u) first_mass += x[0];
        }
        else
        {
            vp::check(r == s.r, "mesh", at + "vertices changed");
            double dt = t - t0, dr = r[1] - r[0]; for (std::size_t i = 0; i < n; ++i) dr = std::min(dr, r[i + 1] - r[i]); vp::check(it == it0 + 1, "iteration", at + vp::fmt("iteration %d after %d", it, it0));
            std::vector<typename System::primitive_t> p; for (std::size_t i = 0; i < n; ++i) p.push_back(System::recover_primitive(density<typename System::conserved_density_t>(before[i], s.volume(i)), gamma_law, 0.0));
            auto nh = mara::unit_vector_t::on_axis_1(); double fastest = 1; for (auto& q : p) { auto a = q.wavespeeds(nh, gamma_law); fastest = std::max(fastest, std::max(std::abs(a.m.value), std::abs(a.p.value))); }
            vp::check(dt > 0 && dt * fastest <= 0.4 * dr * (1 + 1e-9), "time-step", at + vp::fmt("time went from %.17g to %.17g, cells of %g and signals at %g", t0, t, dr, fastest)); if (fastest > 1.1) vp::observe("fast-signals");
            std::vector<vec5> F; F.push_back(values(System::riemann_hlle(mirrored(p[0]), p[0], nh, gamma_law))); for (std::size_t i = 0; i + 1 < n; ++i) F.push_back(values(System::riemann_hlle(p[i], p[i + 1], nh, gamma_law))); F.push_back(values(System::riemann_hlle(p[n - 1], p[n - 1], nh, gamma_law)));
            vp::check(std::abs(F[0][0]) <= 1e-13 * (size_of(before[0]) / s.volume(0)) && std::abs(F[0][4]) <= 1e-13 * size_of(before[0]) / s.volume(0), "inner-wall", at + vp::fmt("mass flux %g through the wall", F[0][0]));
            double mass = 0, old_mass = 0, energy = 0, old_energy = 0; for (std::size_t i = 0; i < n; ++i)
            {
                auto S = values(p[i].spherical_geometry_source_terms_radial(s.center(i), gamma_law)); double scale = size_of(before[i]) + dt * (s.area(i) * size_of(F[i]) + s.area(i + 1) * size_of(F[i + 1]));
                for (int c = 0; c < 5; ++c) { double want = before[i][c] + dt * (s.area(i) * F[i][c] - s.area(i + 1) * F[i + 1][c] + s.volume(i) * S[c]); vp::check(std::abs(u[i][c] - want) <= 1e-11 * scale, "step", at + vp::fmt("cell %zu component %d is %.17g, not %.17g (before %.17g)", i, c, u[i][c], want, before[i][c])); }
                mass += u[i][0]; old_mass += before[i][0]; energy += u[i][4]; old_energy += before[i][4]; vp::observe("cell-step");
            }
            lost += dt * s.area(n) * F[n][0]; vp::check(std::abs(mass - old_mass + dt * s.area(n) * F[n][0]) <= 1e-12 * old_mass, "mass-budget", at + vp::fmt("mass went from %.17g to %.17g, %.17g left", old_mass, mass, dt * s.area(n) * F[n][0]));
            vp::check(std::abs(energy - old_energy + dt * s.area(n) * F[n][4]) <= 1e-12 * (old_energy + old_mass), "energy-budget", at + vp::fmt("energy went from %.17g to %.17g, %.17g left", old_energy, energy, dt * s.area(n) * F[n][4]));
            vp::check(std::abs(mass + lost - first_mass) <= 1e-11 * first_mass, "mass-budget", at + vp::fmt("mass %.17g + lost %.17g, started with %.17g", mass, lost, first_mass));
        }
        // the diagnostics describe the same moment and state
        auto rho = app::doubles(d, "/mass_density"), pre = app::doubles(d, "/gas_pressure"), vel = app::doubles(d, "/radial_gamma_beta"), rc = app::doubles(d, "/radial_coordinates"), ent = app::doubles(d, "/specific_entropy");
        if (vp::check(rho.size() == n && pre.size() == n && vel.size() == n && rc.size() == n && ent.size() == n, "diagnostics-shape", at)) for (std::size_t i = 0; i < n; ++i)
        {
            auto q = System::recover_primitive(density<typename System::conserved_density_t>(u[i], s.volume(i)), gamma_law, 0.0);
            vp::check(std::isfinite(rho[i] + pre[i] + vel[i]) && rho[i] > 0 && pre[i] > 0, "unphysical", at + vp::fmt("cell %zu: density %g pressure %g velocity %g", i, rho[i], pre[i], vel[i]));
            vp::check(close_to(rho[i], q.mass_density(), 1e-9) && std::abs(pre[i] - q.gas_pressure()) <= 1e-9 * (rho[i] + q.gas_pressure()) && std::abs(vel[i] - speed(q)) <= 1e-9 * (1 + std::abs(vel[i])) && close_to(rc[i], s.center(i), 1e-12), "diagnostics", at + vp::fmt("cell %zu: %.17g %.17g %.17g at %.17g, state has %.17g %.17g %.17g", i, rho[i], pre[i], vel[i], rc[i], q.mass_density(), q.gas_pressure(), speed(q)));
            vp::check(std::abs(ent[i] - std::log(pre[i] / std::pow(rho[i], gamma_law))) <= 1e-9 * (1 + std::abs(ent[i])), "diagnostics", at + vp::fmt("cell %zu: entropy %.17g", i, ent[i]));
        }
        vp::check(app::scalar(d, "/time") == t, "diagnostics", at + vp::fmt("diagnostics at time %.17g, checkpoint at %.17g", app::scalar(d, "/time"), t));
        if (rho.size() == n && pre.size() == n && vel.size() == n && rc.size() == n && ent.size() == n)
        {
            std::map<std::string, double> x; for (auto name : columns) x[name] = app::scalar(d, std::string("/") + name);
            int mid = index_of(r, x["shock_radius"]), up = index_of(rc, x["shock_radius_upstream"]), down = index_of(rc, x["shock_radius_downstream"]);
            vp::check(steepest_entropy_drop(ent, mid), "shock", at + vp::fmt("shock radius %.17g is vertex %d of %zu, not at the steepest fall of entropy", x["shock_radius"], mid, n));
            if (mid >= 0 && mid < int(n))
            {
                vp::check(first_maximum_behind(pre, mid, down, 1e-9), "shock", at + vp::fmt("downstream radius %.17g is cell %d, shock %d", x["shock_radius_downstream"], down, mid));
                vp::check(plateau_ahead(pre, mid, up), "shock", at + vp::fmt("upstream radius %.17g is cell %d, shock %d", x["shock_radius_upstream"], up, mid)); vp::observe("shock");
            }
            if (up >= 0 && down >= 0)
            {
                bool newtonian = o.number("newtonian"); auto W = [&] (int i) { return newtonian ? 1.0 : std::sqrt(1 + vel[i] * vel[i]); }; double a = rho[down] * vel[down] - rho[up] * vel[up], b = rho[down] * W(down) - rho[up] * W(up), v = x["shock_velocity"];
                if (up == down || std::abs(b) < 1e-6 * (rho[up] + rho[down])) vp::observe("no-shock-speed"); else { vp::check(std::abs(v - a / b) <= 1e-8 * (std::abs(rho[down] * vel[down]) + std::abs(rho[up] * vel[up]) + 1e-9 * (rho[up] + rho[down])) / std::abs(b), "shock", at + vp::fmt("shock velocity %.17g, mass balance gives %.17g", v, a / b)); vp::observe("shock-speed"); }
                double y = x["shock_radius_interpolated"]; if (down == 0 || down + 1 == int(n)) vp::check(close_to(y, rc[down], 1e-12), "shock", at + vp::fmt("interpolated radius %.17g at the edge", y));
                else if (vel[down] > vel[down - 1] && vel[down] > vel[down + 1] && vel[down] - std::max(vel[down - 1], vel[down + 1]) > 1e-6 * std::abs(vel[down])) { vp::check(y > rc[down - 1] && y < rc[down + 1], "shock", at + vp::fmt("interpolated radius %.17g outside of %.17g to %.17g", y, rc[down - 1], rc[down + 1])); auto slope = [&] (int i) { return (vel[i + 1] - vel[i]) / (rc[i + 1] - rc[i]); }; double s0 = slope(down - 1), s1 = slope(down), m0 = 0.5 * (rc[down] + rc[down - 1]), m1 = 0.5 * (rc[down] + rc[down + 1]), want = m0 + (m1 - m0) * s0 / (s0 - s1); vp::check(std::abs(y - want) < 1e-6 * want, "shock", at + vp::fmt("interpolated radius %.17g, the parabola has its top at %.17g", y, want)); vp::observe("shock-interpolated"); }
            }
            rows[t] = x;
        }
        if (o.start.empty() && o.number("explosion_pressure") == 1e-6 && o.number("explosion_density") == 1 && o.number("density_index") == 0) for (std::size_t i = 0; i < n; ++i) { double h = r[i + 1] - r[i], limit = 4e-6 * t * std::pow(h / s.center(i), 2) / r[0] + 1e-10; vp::check(std::abs(vel[i]) < limit, "rest", at + vp::fmt("gas at rest moves in cell %zu of %zu: %g, limit %g", i, n, vel[i], limit)); vp::observe("rest-cell"); } // only the truncation error of the mesh
        before = u; t0 = t; it0 = it; vp::observe("step");
    }
    app::file_t series; if (o.start.empty() && vp::check(app::load(dir + "/out/time_series.h5", series), "file-unreadable", sig))
    {
        auto when = app::doubles(series, "/time"); vp::check(! when.empty(), "series", sig + "no rows"); if (o.number("tsi") == 0) vp::check(when.size() == outputs.size(), "series", sig + vp::fmt("%zu rows, %zu steps", when.size(), outputs.size()));
        for (std::size_t k = 0; k < when.size(); ++k)
        {
            if (k > 0) vp::check(when[k] > when[k - 1], "series", sig + vp::fmt("row %zu at time %.17g after %.17g", k, when[k], when[k - 1]));
            if (! vp::check(rows.count(when[k]) == 1, "series", sig + vp::fmt("row %zu at time %.17g, which is not one of the steps", k, when[k]))) continue;
            for (auto name : columns) { auto col = app::doubles(series, std::string("/") + name); double want = rows[when[k]][name]; if (vp::check(col.size() == when.size(), "series", sig + name + vp::fmt(": %zu rows", col.size()))) vp::check(col[k] == want || (std::isnan(col[k]) && std::isnan(want)), "series", sig + name + vp::fmt(" in row %zu is %.17g, the diagnostics of that time have %.17g", k, col[k], want)); } vp::observe("series-row");
        }
    }
    vp::signature(sig);
}
static options_t sedov(vp::rng_t& rng)
{
    options_t o; o.prog = "sedov"; double decades = rng.uniform(0.2, 1.2); int nr = rng.range(8, 40); while (int(std::log10(std::atof(num(std::pow(10, decades)).c_str())) * nr) < 4) ++nr;
    o.set("outdir", "out").set("nr", nr).set("outer_radius", std::pow(10, decades)).set("newtonian", rng.range(0, 1)).set("cpi", 0).set("dfi", 0).set("tsi", rng.chance(0.3) ? 0 : rng.uniform(0, 0.2));
    bool rest = rng.chance(0.15); o.set("explosion_pressure", rest ? 1e-6 : rng.log_uniform(1e-4, 1e2)).set("explosion_density", rest ? 1 : rng.log_uniform(1e-2, 1e2)).set("density_index", rest ? 0 : rng.chance(0.4) ? 0 : rng.uniform(0, 2.5));
    double log_r = decades + 0.5, dr = std::pow(10, -0.5) * (std::pow(10, log_r / std::max(1, int(decades * nr))) - 1); o.set("tfinal", 0.4 * dr * rng.range(5, 60)); return o;
}
VP_SECTION("explosions", 5, 100)
{
    std::vector<options_t> c; for (int n = 0; n < 16; ++n) c.push_back(sedov(rng)); (void) index;
    run_all(c, [] (auto& o, auto& d) { if (o.number("newtonian")) judge_sedov<mara::euler>(o, d); else judge_sedov<mara::srhd>(o, d); });
}

//-----------------------------------------------------------------------------
struct jet_t
{
    options_t o; std::vector<double> r, q; std::size_t n, m; double length, mass, time;
    mara::jet_nozzle_model nozzle; mara::cloud_and_envelop_model cloud;
    double volume(int i, int j) const { return 2 * M_PI / 3 * (std::pow(r[i + 1], 3) - std::pow(r[i], 3)) * (std::cos(q[j]) - std::cos(q[j + 1])); }
    double radial_area(int i, int j) const { return 2 * M_PI * r[i] * r[i] * (std::cos(q[j]) - std::cos(q[j + 1])); }
    double polar_area(int i, int j) const { return 2 * M_PI * 0.5 * (r[i] + r[i + 1]) * (r[i + 1] - r[i]) * std::sin(q[j]); }
};
using prim_t = mara::srhd::primitive_t;
static double slope(double theta, double a, double b, double c)
{
    double x = theta * (b - a), y = 0.5 * (c - a), z = theta * (c - b); if (x > 0 && y > 0 && z > 0) return std::min(std::min(x, y), z); if (x < 0 && y < 0 && z < 0) return std::max(std::max(x, y), z); return 0;
}
struct change_t { std::vector<vec5> u; double inflow[5] {}, outflow[5] {}; std::vector<double> scale; };
// one forward step of `u`; the nozzle is the one of `nozzle_time`
static change_t jet_step(const jet_t& g, const std::vector<vec5>& u, double nozzle_time, double dt)
{
    std::size_t n = g.n, m = g.m; double floor = g.o.number("temperature_floor"), theta = g.o.number("plm_theta"); bool plm = g.o.number("reconstruct_method") == 2; change_t out; std::vector<prim_t> p; auto at = [m] (std::size_t i, std::size_t j) { return i * m + j; };
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) p.push_back(mara::srhd::recover_primitive(density<mara::srhd::conserved_density_t>(u[at(i, j)], g.volume(i, j)), gamma_law, floor));
    auto faces = [&] (const std::vector<prim_t>& line, int axis) // fluxes between consecutive states
    {
        std::vector<std::array<double, 5>> G(line.size(), {{0, 0, 0, 0, 0}}); if (plm) for (std::size_t k = 1; k + 1 < line.size(); ++k) for (int c = 0; c < 5; ++c) G[k][c] = slope(theta, line[k - 1][c], line[k][c], line[k + 1][c]);
        std::vector<vec5> F; for (std::size_t k = 0; k + 1 < line.size(); ++k) { auto L = line[k], R = line[k + 1]; for (int c = 0; c < 5; ++c) { L[c] += 0.5 * G[k][c]; R[c] -= 0.5 * G[k + 1][c]; } F.push_back(values(mara::srhd::riemann_hlle(L, R, axis ? mara::unit_vector_t::on_axis_2() : mara::unit_vector_t::on_axis_1(), gamma_law))); }
        return F;
    };
    out.u = u; out.scale.assign(u.size(), 0); for (std::size_t k = 0; k < u.size(); ++k) out.scale[k] = size_of(u[k]);
    double t = nozzle_time * g.time, d = g.nozzle.density_at_base() / (g.mass / std::pow(g.length, 3));
    for (std::size_t j = 0; j < m; ++j)
    {
        double qc = 0.5 * (g.q[j] + g.q[j + 1]); std::vector<prim_t> line {prim_t().with_mass_density(d).with_gamma_beta_1(g.nozzle.gamma_beta(qc, t) + g.nozzle.gamma_beta(M_PI - qc, t))}; for (std::size_t i = 0; i < n; ++i) line.push_back(p[at(i, j)]); line.push_back(p[at(n - 1, j)]);
        auto F = faces(line, 0); for (std::size_t i = 0; i < n; ++i) for (int c = 0; c < 5; ++c) { double a = g.radial_area(i, j) * F[i][c] * dt, b = g.radial_area(i + 1, j) * F[i + 1][c] * dt; out.u[at(i, j)][c] += a - b; out.scale[at(i, j)] += std::abs(a) + std::abs(b); }
        for (int c = 0; c < 5; ++c) { out.inflow[c] += g.radial_area(0, j) * F[0][c] * dt; out.outflow[c] += g.radial_area(n, j) * F[n][c] * dt; }
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        std::vector<prim_t> line; for (std::size_t j = 0; j < m; ++j) line.push_back(p[at(i, j)]); auto F = faces(line, 1);
        for (std::size_t j = 0; j + 1 < m; ++j) for (int c = 0; c < 5; ++c) { double a = g.polar_area(i, j + 1) * F[j][c] * dt; out.u[at(i, j)][c] -= a; out.u[at(i, j + 1)][c] += a; out.scale[at(i, j)] += std::abs(a); out.scale[at(i, j + 1)] += std::abs(a); }
        for (std::size_t j = 0; j < m; ++j) { auto S = values(p[at(i, j)].spherical_geometry_source_terms(0.5 * (g.r[i] + g.r[i + 1]), 0.5 * (g.q[j] + g.q[j + 1]), gamma_law)); for (int c = 0; c < 5; ++c) out.u[at(i, j)][c] += S[c] * g.volume(i, j) * dt; }
    }
    return out;
}
static void judge_cloud(const options_t& o, const std::string& dir)
{
    std::size_t unpaired; auto outputs = outputs_of(o, dir, unpaired); auto sig = o.text();
    if (! cut_short && ! vp::check(outputs.size() >= 3 && unpaired == 0, "outputs-missing", sig + vp::fmt("%zu outputs, %zu without partner", outputs.size(), unpaired))) return;
    jet_t g; g.o = o; g.length = o.number("inner_radius"); g.mass = o.number("cloud_mass") * 1.989e33; g.time = g.length / 2.998e10;
    g.nozzle = mara::jet_nozzle_model().with_inner_radius(g.length).with_total_energy(o.number("jet_total_energy")).with_jet_duration(o.number("jet_duration")).with_structure_exponent(o.number("jet_structure_exp")).with_opening_angle(o.number("jet_opening_angle")).with_lorentz_factor(o.number("jet_gamma_beta"));
    g.cloud = mara::cloud_and_envelop_model().with_inner_radius(g.length).with_cloud_index(o.number("density_index")); double rho0 = g.mass / std::pow(g.length, 3), c2 = 2.998e10 * 2.998e10;
    std::vector<vec5> before; double t0 = 0; int it0 = 0;
    for (std::size_t k = 0; k < outputs.size(); ++k)
    {
        app::file_t f, d; bool described = ! outputs[k].diagnostics.empty(); if (! vp::check(app::load(outputs[k].checkpoint, f) && (! described || app::load(outputs[k].diagnostics, d)), "file-unreadable", sig)) return;
        auto at = sig + vp::fmt("| output %zu: ", k); auto r = app::doubles(f, "/solution/radial_vertices"), q = app::doubles(f, "/solution/polar_vertices"); auto u = fives(f, "/solution/conserved"); double t = app::scalar(f, "/solution/time"); int it = app::integer(f, "/solution/iteration");
        if (! vp::check(r.size() > 2 && q.size() > 2 && u.size() == (r.size() - 1) * (q.size() - 1), "shape", at + vp::fmt("%zu radial and %zu polar vertices, %zu cells", r.size(), q.size(), u.size()))) return;
        if (! described) { g.r = r; g.q = q; g.n = r.size() - 1; g.m = q.size() - 1; before = u; t0 = t; it0 = it; continue; }
        if (k == 0)
        {
            g.r = r; g.q = q; g.n = r.size() - 1; g.m = q.size() - 1; std::size_t nr = o.number("nr"); double D = o.number("num_decades");
            vp::check(g.m == nr && g.n == std::size_t(D * nr) && r[0] == 1 && close_to(r[g.n], std::pow(10, D), 1e-12) && q[0] == 0 && close_to(q[g.m], M_PI, 1e-15), "mesh", at + vp::fmt("%zu x %zu cells over %g-%g, %g-%g", g.n, g.m, r[0], r[g.n], q[0], q[g.m]));
            for (std::size_t i = 0; i < g.n; ++i) vp::check(close_to(r[i + 1] / r[i], std::pow(10, D / g.n), 1e-12), "mesh", at + "radial vertices are not in geometric progression"); for (std::size_t j = 0; j <= g.m; ++j) vp::check(std::abs(q[j] - M_PI * j / g.m) < 1e-14, "mesh", at + "polar vertices are not evenly spaced");
            vp::check(t == 0 && it == 0, "initial", at + vp::fmt("starts at time %g, iteration %d", t, it));
            for (std::size_t i = 0; i < g.n; ++i) for (std::size_t j = 0; j < g.m; ++j)
            {
                double rc = 0.5 * (r[i] + r[i + 1]) * g.length, delay = o.number("jet_delay_time"), rho = g.cloud.density_at(rc, delay) / rho0, ub = g.cloud.gamma_beta_at(rc, delay), W = std::sqrt(1 + ub * ub), p = rho * 1e-6, h = 1 + p / rho * gamma_law / (gamma_law - 1), w = rho * h; double dv = g.volume(i, j), want[5] = {rho * W, w * W * ub, 0, 0, w * W * W - p - rho * W};
                for (int c = 0; c < 5; ++c) vp::check(std::abs(u[i * g.m + j][c] / dv - want[c]) <= 1e-10 * rho * W * W, "initial", at + vp::fmt("cell %zu,%zu component %d is %.17g, not %.17g", i, j, c, u[i * g.m + j][c] / dv, want[c]));
            }
        }
        else
        {
            vp::check(r == g.r && q == g.q, "mesh", at + "vertices changed"); double dt = t - t0;
            vp::check(dt > 0 && dt <= o.number("cfl_number") * (r[1] - r[0]) * (1 + 1e-9), "time-step", at + vp::fmt("time went from %.17g to %.17g, cells of %g", t0, t, r[1] - r[0])); vp::check(it == it0 + 1, "iteration", at + vp::fmt("iteration %d after %d", it, it0));
            auto e = jet_step(g, before, t0, dt); double in = e.inflow[0], outf = e.outflow[0], ein = e.inflow[4], eout = e.outflow[4];
            if (o.number("rk_order") == 2) { auto e2 = jet_step(g, e.u, t0, dt); for (std::size_t c = 0; c < e.u.size(); ++c) { for (int z = 0; z < 5; ++z) e.u[c][z] = 0.5 * before[c][z] + 0.5 * e2.u[c][z]; e.scale[c] += e2.scale[c]; } in = 0.5 * (in + e2.inflow[0]); outf = 0.5 * (outf + e2.outflow[0]); ein = 0.5 * (ein + e2.inflow[4]); eout = 0.5 * (eout + e2.outflow[4]); }
            double mass = 0, old_mass = 0, en = 0, old_en = 0; for (std::size_t c = 0; c < u.size(); ++c)
            {
                mass += u[c][0]; old_mass += before[c][0]; en += u[c][4]; old_en += before[c][4]; vp::observe("cell-step");
                for (int z = 0; z < 5; ++z) vp::check(std::abs(u[c][z] - e.u[c][z]) <= 1e-10 * e.scale[c], "step", at + vp::fmt("cell %zu,%zu component %d is %.17g, not %.17g (before %.17g, scale %g)", c / g.m, c % g.m, z, u[c][z], e.u[c][z], before[c][z], e.scale[c]));
            }
            vp::check(std::abs(mass - old_mass - in + outf) <= 1e-12 * (old_mass + std::abs(in)), "mass-budget", at + vp::fmt("mass went from %.17g to %.17g, %.17g came in and %.17g left", old_mass, mass, in, outf));
            vp::check(std::abs(en - old_en - ein + eout) <= 1e-11 * (old_mass + std::abs(old_en) + std::abs(ein)), "energy-budget", at + vp::fmt("energy went from %.17g to %.17g, %.17g came in and %.17g left", old_en, en, ein, eout));
        }
        if (o.symmetric) for (std::size_t i = 0; i < g.n; ++i) for (std::size_t j = 0; j < g.m; ++j) // the two hemispheres stay mirror images
        {
            auto& a = u[i * g.m + j]; auto& b = u[i * g.m + g.m - 1 - j]; double s = std::max(size_of(a), size_of(b));
            vp::check(std::abs(a[0] - b[0]) <= 1e-8 * s && std::abs(a[1] - b[1]) <= 1e-8 * s && std::abs(a[2] + b[2]) <= 1e-8 * s && std::abs(a[3]) + std::abs(b[3]) <= 1e-8 * s && std::abs(a[4] - b[4]) <= 1e-8 * s, "mirror", at + vp::fmt("cells %zu,%zu and %zu,%zu: %.17g %.17g %.17g %.17g, %.17g %.17g %.17g %.17g", i, j, i, g.m - 1 - j, a[0], a[1], a[2], a[4], b[0], b[1], b[2], b[4]));
        }
        auto rho = app::doubles(d, "/mass_density"), pre = app::doubles(d, "/gas_pressure"), vel = app::doubles(d, "/radial_gamma_beta"), flow = app::doubles(d, "/radial_energy_flow"), ent = app::doubles(d, "/specific_entropy"), rv = app::doubles(d, "/radial_vertices"), qv = app::doubles(d, "/polar_vertices"), sa = app::doubles(d, "/solid_angle_at_theta"), te = app::doubles(d, "/total_energy_at_theta");
        if (vp::check(rho.size() == u.size() && pre.size() == u.size() && vel.size() == u.size() && flow.size() == u.size() && ent.size() == u.size() && rv.size() == r.size() && qv.size() == q.size() && sa.size() == g.m && te.size() == g.m, "diagnostics-shape", at))
        {
            for (std::size_t c = 0; c < u.size(); ++c)
            {
                int i = c / g.m, j = c % g.m; auto p = mara::srhd::recover_primitive(density<mara::srhd::conserved_density_t>(u[c], g.volume(i, j)), gamma_law, o.number("temperature_floor"));
                vp::check(std::isfinite(rho[c] + pre[c] + vel[c] + flow[c]) && rho[c] > 0 && pre[c] > 0, "unphysical", at + vp::fmt("cell %d,%d: density %g pressure %g velocity %g", i, j, rho[c], pre[c], vel[c]));
                double F = values(p.flux(mara::unit_vector_t::on_axis_1(), gamma_law))[4] * g.radial_area(i, j) * g.mass * c2 / g.time;
                vp::check(close_to(rho[c], p.mass_density() * rho0, 1e-9) && std::abs(pre[c] - p.gas_pressure() * rho0 * c2) <= 1e-9 * rho0 * c2 * (p.mass_density() + p.gas_pressure()) && std::abs(vel[c] - p.gamma_beta_1()) <= 1e-9 * (1 + std::abs(vel[c])) && std::abs(flow[c] - F) <= 1e-8 * (std::abs(F) + g.radial_area(i, j) * size_of(u[c]) / g.volume(i, j) * g.mass * c2 / g.time), "diagnostics", at + vp::fmt("cell %d,%d: %.17g %.17g %.17g %.17g, state has %.17g %.17g %.17g %.17g", i, j, rho[c], pre[c], vel[c], flow[c], p.mass_density() * rho0, p.gas_pressure() * rho0 * c2, p.gamma_beta_1(), F));
            }
            for (std::size_t j = 0; j < g.m; ++j) { double e = 0, s = 0, dm = 2 * M_PI * (std::cos(q[j]) - std::cos(q[j + 1])); for (std::size_t i = 0; i < g.n; ++i) { e += u[i * g.m + j][4]; s += std::abs(u[i * g.m + j][4]); } vp::check(std::abs(te[j] - e * g.mass * c2) <= 1e-10 * s * g.mass * c2 && close_to(sa[j], dm, 1e-10), "diagnostics", at + vp::fmt("theta %zu: energy %.17g solid angle %.17g, not %.17g and %.17g", j, te[j], sa[j], e * g.mass * c2, dm)); }
            for (std::size_t i = 0; i < r.size(); ++i) vp::check(close_to(rv[i], r[i] * g.length, 1e-12), "diagnostics", at + "radial vertices in cm"); vp::check(qv == q, "diagnostics", at + "polar vertices");
        }
        if (rho.size() == u.size() && pre.size() == u.size() && vel.size() == u.size() && ent.size() == u.size())
        {
            std::map<std::string, std::vector<double>> x; bool shaped = true; for (auto name : {"shock_midpoint_radius", "shock_upstream_radius", "shock_pressure_radius", "shock_luminosity_radius", "postshock_flow_gamma", "postshock_flow_power", "postshock_flow_power02", "postshock_flow_power04", "postshock_flow_power08", "postshock_flow_power16", "postshock_flow_power32", "postshock_flow_power64", "postshock_flow_power_max"}) { x[name] = app::doubles(d, std::string("/") + name); shaped = shaped && x[name].size() == g.m; }
            if (vp::check(shaped, "diagnostics-shape", at + "a profile in angle does not have one value per angle")) for (std::size_t j = 0; j < g.m; ++j)
            {
                std::vector<double> rc, s, p, L, Ls, W; for (std::size_t i = 0; i < g.n; ++i)
                {
                    std::size_t c = i * g.m + j; auto P = mara::srhd::recover_primitive(density<mara::srhd::conserved_density_t>(u[c], g.volume(i, j)), gamma_law, o.number("temperature_floor")); double A = 0.5 * (g.radial_area(i, j) + g.radial_area(i + 1, j)) * g.mass * c2 / g.time;
                    vp::check(std::abs(ent[c] - std::log(P.gas_pressure() / std::pow(P.mass_density(), gamma_law))) <= 1e-6 * (1 + std::abs(ent[c])), "diagnostics", at + vp::fmt("cell %zu,%zu: entropy %.17g, pressure %g and density %g", i, j, ent[c], P.gas_pressure(), P.mass_density()));
                    rc.push_back(0.5 * (g.r[i] + g.r[i + 1]) * g.length); s.push_back(ent[c]); p.push_back(pre[c]); W.push_back(std::sqrt(1 + P.gamma_beta_squared())); L.push_back(values(P.flux(mara::unit_vector_t::on_axis_1(), gamma_law))[4] * A); Ls.push_back(A * size_of(u[c]) / g.volume(i, j));
                }
                auto where = at + vp::fmt("theta %zu: ", j); int mid = index_of(rc, x["shock_midpoint_radius"][j]), up = index_of(rc, x["shock_upstream_radius"][j]), top = index_of(rc, x["shock_pressure_radius"][j]), lum = index_of(rc, x["shock_luminosity_radius"][j]);
                if (! vp::check(steepest_entropy_drop(s, mid), "shock", where + vp::fmt("shock radius %.17g is cell %d of %zu, not at the steepest fall of entropy", x["shock_midpoint_radius"][j], mid, g.n))) continue;
                vp::check(plateau_ahead(p, mid, up), "shock", where + vp::fmt("upstream radius %.17g is cell %d, shock %d", x["shock_upstream_radius"][j], up, mid)); bool a = vp::check(first_maximum_behind(p, mid, top, 1e-9), "shock", where + vp::fmt("pressure radius %.17g is cell %d, shock %d", x["shock_pressure_radius"][j], top, mid)); double tol = 0; for (int i = 0; i <= mid; ++i) tol = std::max(tol, 1e-8 * Ls[i]);
                bool ok = lum >= 0 && lum <= mid; for (int i = mid; ok && i > lum; --i) ok = L[i - 1] > L[i] - tol; if (ok && lum > 0) ok = L[lum - 1] <= L[lum] + tol; vp::check(ok, "shock", where + vp::fmt("luminosity radius %.17g is cell %d, shock %d", x["shock_luminosity_radius"][j], lum, mid)); vp::observe("shock"); if (mid > 64) vp::observe("shock-beyond-64");
                if (a) vp::check(close_to(x["postshock_flow_gamma"][j], W[top], 1e-9) && std::abs(x["postshock_flow_power"][j] - L[top]) <= 1e-8 * (std::abs(L[top]) + Ls[top]), "shock", where + vp::fmt("gamma %.17g power %.17g behind the shock, cell %d has %.17g %.17g", x["postshock_flow_gamma"][j], x["postshock_flow_power"][j], top, W[top], L[top]));
                if (ok) vp::check(std::abs(x["postshock_flow_power_max"][j] - L[lum]) <= 1e-8 * (std::abs(L[lum]) + Ls[lum]), "shock", where + vp::fmt("greatest power %.17g, cell %d has %.17g", x["postshock_flow_power_max"][j], lum, L[lum]));
                for (int b : {2, 4, 8, 16, 32, 64}) { int i = std::max(0, mid - b); double y = x[vp::fmt("postshock_flow_power%02d", b)][j]; vp::check(std::abs(y - L[i]) <= 1e-8 * (std::abs(L[i]) + Ls[i]), "shock", where + vp::fmt("power %d cells behind the shock is %.17g, cell %d has %.17g", b, y, i, L[i])); }
            }
        }
        vp::check(close_to(app::scalar(d, "/time"), t * g.time, 1e-12), "diagnostics", at + vp::fmt("diagnostics at time %.17g s, checkpoint at %.17g", app::scalar(d, "/time"), t * g.time));
        before = u; t0 = t; it0 = it; vp::observe("step");
    }
    vp::signature(sig);
}
static options_t cloud(vp::rng_t& rng)
{
    options_t o; o.prog = "cloud"; bool far = rng.chance(0.12); int nr = far ? rng.range(10, 14) : rng.range(4, 14); double D = far ? rng.uniform(5.5, 7.5) : rng.uniform(0.5, 2); D = std::max(D, 3.5 / nr);
    o.set("outdir", "out").set("nr", nr).set("num_decades", D).set("cpi", 0).set("dfi", 0).set("tsi", 1).set("inner_radius", rng.log_uniform(5e7, 1e9)).set("cloud_mass", rng.log_uniform(1e-3, 0.1)).set("density_index", rng.chance(0.3) ? 2 : rng.uniform(1, 3)).set("jet_delay_time", rng.log_uniform(0.3, 5));
    o.set("jet_total_energy", rng.log_uniform(1e49, 1e51)).set("jet_duration", rng.log_uniform(0.05, 5)).set("jet_gamma_beta", rng.uniform(2, 20)).set("jet_opening_angle", rng.uniform(0.05, 0.6)).set("jet_structure_exp", rng.uniform(1, 4));
    o.set("cfl_number", rng.uniform(0.1, 0.4)).set("rk_order", rng.range(1, 2)).set("reconstruct_method", rng.range(1, 2)).set("plm_theta", rng.chance(0.4) ? rng.range(1, 2) : rng.uniform(1, 2)).set("temperature_floor", rng.chance(0.2) ? 0 : rng.log_uniform(1e-9, 1e-6));
    o.set("tfinal", o.number("cfl_number") * (std::pow(10, D / int(D * nr)) - 1) * rng.range(3, far ? 8 : 40)); return o;
}
VP_SECTION("jets", 4, 80)
{
    std::vector<options_t> c; for (int n = 0; n < 16; ++n) c.push_back(cloud(rng)); (void) index;
    run_all(c, judge_cloud);
}

//-----------------------------------------------------------------------------
//-----------------------------------------------------------------------------
// States that the programs do not start from: a run is stopped, the gas in its checkpoint is replaced by another, and it is taken up again.
static bool replace(const std::string& file, const std::vector<vec5>& u)
{
    std::lock_guard<std::mutex> lock(app::h5lock()); hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); if (f < 0) return false; hid_t d = H5Dopen2(f, "/solution/conserved", H5P_DEFAULT), t = H5Dget_type(d); bool ok = H5Tget_size(t) == sizeof(vec5) && H5Dwrite(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, u.data()) >= 0;
    H5Tclose(t); H5Dclose(d); H5Fclose(f); return ok;
}
struct disturbance_t
{
    double rho, noise, drift[3], swing, hot_low, hot_high; int waves;
    static disturbance_t any(vp::rng_t& r, double top)
    {
        disturbance_t d; d.rho = r.log_uniform(1e-3, 1e2); d.noise = r.chance(0.3) ? 0 : r.uniform(0, 1); d.swing = r.chance(0.3) ? 0 : r.log_uniform(1e-2, top); d.waves = r.range(0, 4); for (auto& x : d.drift) x = r.chance(0.4) ? 0 : r.sign() * r.log_uniform(1e-2, top);
        d.hot_low = r.log_uniform(1e-5, 1); d.hot_high = d.hot_low * r.log_uniform(1, 1e3); return d;
    }
    template<typename P> P make(vp::rng_t& r, double x, double y) const // x, y in [0, 1]
    {
        double w = std::sin(2 * M_PI * waves * x) * std::cos(M_PI * waves * y), rho_ = rho * std::exp(-2 * x + w + noise * r.uniform(-1, 1)), p = rho_ * r.log_uniform(hot_low, hot_high * 1.0001); P q; q[0] = rho_; for (int c = 0; c < 3; ++c) q[1 + c] = drift[c] + swing * (r.chance(0.5) ? w : r.uniform(-1, 1)); q[4] = p; return q;
    }
};
// runs `c` for a few steps, lets `fill` replace the state and takes the run up again; `judge` gets the second part
template<typename F, typename J> static void run_replaced(std::vector<options_t>& configs, F fill, J judge)
{
    std::vector<std::string> dirs(configs.size()); std::vector<app::result_t> first(configs.size()), second(configs.size()); for (auto& d : dirs) d = app::new_dir("r");
    app::parallel(configs.size(), [&] (std::size_t n) { first[n] = app::run(configs[n].args(), dirs[n], "PLAIN", 100); });
    std::vector<bool> ready(configs.size()); for (std::size_t n = 0; n < configs.size(); ++n)
    {
        auto& c = configs[n]; vp::context(c.text()); auto k = app::numbers(dirs[n] + "/out", "chkpt"); if (! vp::check(first[n].ok() && k.size() >= 2, "run-failed", c.text() + first[n].describe())) continue;
        c.start = app::numbered(dirs[n] + "/out", "chkpt", k.back()); app::file_t f; app::load(c.start, f); auto u = fill(c, f); if (! vp::check(! u.empty() && replace(c.start, u), "shape", c.text() + "the state of the checkpoint could not be replaced")) continue;
        double more = c.number("tfinal"); c.set("restart", c.start).set("outdir", "out2").set("tfinal", app::scalar(f, "/solution/time") + more); ready[n] = true;
    }
    app::parallel(configs.size(), [&] (std::size_t n) { if (ready[n]) second[n] = app::run(configs[n].args(), dirs[n], "PLAIN", 100); });
    int broke = 0, ran = 0; for (std::size_t n = 0; n < configs.size(); ++n) if (ready[n])
    {
        vp::context(configs[n].text()); ++ran; cut_short = ! second[n].ok() && second[n].err.find("recover_primitive failure") != std::string::npos; if (cut_short) { ++broke; vp::observe("replaced-breaks-down"); }
        if (cut_short || vp::check(second[n].ok(), "run-failed", configs[n].text() + second[n].describe())) { judge(configs[n], dirs[n]); vp::observe("replaced:" + configs[n].prog); } app::remove_tree(dirs[n]);
    }
    cut_short = false; vp::check(broke * 2 <= ran, "run-failed", vp::fmt("%d of %d replaced states broke down", broke, ran));
}
VP_SECTION("replaced explosions", 2, 60)
{
    std::vector<options_t> c; (void) index; for (int n = 0; n < 16; ++n) { auto o = sedov(rng); o.set("tsi", 1e6).set("tfinal", o.number("tfinal") / 4); c.push_back(o); }
    run_replaced(c, [&rng] (const options_t& o, const app::file_t& f)
    {
        shells_t s; s.r = app::doubles(f, "/solution/vertices"); std::size_t n = s.r.size() - 1; std::vector<vec5> u; auto d = disturbance_t::any(rng, o.number("newtonian") ? 1 : 3); d.drift[1] = d.drift[2] = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            vec5 v; if (o.number("newtonian")) { auto p = d.make<mara::euler::primitive_t>(rng, double(i) / n, 0); p[2] = p[3] = 0; v = values(p.to_conserved_density(gamma_law)); } else { auto p = d.make<mara::srhd::primitive_t>(rng, double(i) / n, 0); p[2] = p[3] = 0; v = values(p.to_conserved_density(gamma_law)); }
            for (auto& x : v) x *= s.volume(i); u.push_back(v);
        }
        return u;
    }, [] (auto& o, auto& d) { if (o.number("newtonian")) judge_sedov<mara::euler>(o, d); else judge_sedov<mara::srhd>(o, d); });
}
VP_SECTION("replaced jets", 2, 60)
{
    std::vector<options_t> c; (void) index; for (int n = 0; n < 16; ++n) { auto o = cloud(rng); o.set("tfinal", o.number("tfinal") / 4).set("temperature_floor", rng.log_uniform(1e-9, rng.chance(0.5) ? 1e-6 : 1e-2)); if (rng.chance(0.5)) o.set("reconstruct_method", 1); o.symmetric = rng.chance(0.3); c.push_back(o); }
    run_replaced(c, [&rng] (const options_t& o, const app::file_t& f)
    {
        jet_t g; g.r = app::doubles(f, "/solution/radial_vertices"); g.q = app::doubles(f, "/solution/polar_vertices"); g.n = g.r.size() - 1; g.m = g.q.size() - 1; auto d = disturbance_t::any(rng, 2); std::vector<vec5> u(g.n * g.m); if (o.symmetric) d.drift[1] = 0;
        for (std::size_t i = 0; i < g.n; ++i) for (std::size_t j = 0; j < g.m; ++j)
        {
            std::size_t k = g.m - 1 - j; auto p = d.make<prim_t>(rng, double(i) / g.n, double(j) / g.m); if (o.symmetric) { p[3] = 0; if (j == k) p[2] = 0; }
            auto v = values(p.to_conserved_density(gamma_law)); for (auto& x : v) x *= g.volume(i, j); if (o.symmetric && j > k) { v = u[i * g.m + k]; v[2] = -v[2]; } u[i * g.m + j] = v;
        }
        return u;
    }, judge_cloud);
}

//-----------------------------------------------------------------------------
VP_SECTION("template", 1, 10)
{
    std::vector<options_t> c; (void) index;
    for (int n = 0; n < 16; ++n) { options_t o; o.prog = "boilerplate"; int N = rng.chance(0.2) ? rng.range(1, 4) : rng.range(3, 100); o.set("N", N).set("cpi", 0).set("tfinal", 0.25 / (N + 1) * rng.range(3, 60)); c.push_back(o); }
    run_all(c, [] (auto& o, auto& d)
    {
        auto nums = app::numbers(d, "chkpt"); auto sig = o.text(); if (! vp::check(nums.size() >= 3, "outputs-missing", sig)) return; std::vector<double> before, mesh; double t0 = 0; int it0 = 0, N = o.number("N");
        for (std::size_t k = 0; k < nums.size(); ++k)
        {
            app::file_t f; if (! vp::check(app::load(app::numbered(d, "chkpt", nums[k]), f), "file-unreadable", sig)) return; auto at = sig + vp::fmt("| output %zu: ", k);
            auto x = app::doubles(f, "/solution/vertices"), u = app::doubles(f, "/solution/solution"); double t = app::scalar(f, "/solution/time"), dt = 0.25 / (N + 1), total = 0, old = 0; int it = app::integer(f, "/solution/iteration");
            if (! vp::check(int(u.size()) == N && int(x.size()) == N + 1, "shape", at + vp::fmt("%zu cells", u.size()))) return;
            if (k == 0) { mesh = x; for (int i = 0; i < N; ++i) { double want = std::sin(2 * M_PI * (i + 0.5) / N); vp::check(std::abs(u[i] - want) < 1e-12 && std::abs(x[i] - double(i) / N) < 1e-12, "initial", at + vp::fmt("cell %d is %.17g, not %.17g", i, u[i], want)); } vp::check(t == 0 && it == 0, "initial", at + "time"); }
            else
            {
                vp::check(x == mesh, "mesh", at + "vertices changed"); vp::check(std::abs(t - t0 - dt) < 1e-13 && it == it0 + 1, "time", at + vp::fmt("time %.17g after %.17g, iteration %d after %d", t, t0, it, it0));
                for (int i = 0; i < N; ++i) { double want = before[i] - dt * N * (before[i] - before[(i + N - 1) % N]); vp::check(std::abs(u[i] - want) < 1e-12, "step", at + vp::fmt("cell %d is %.17g, not %.17g", i, u[i], want)); total += u[i]; old += before[i]; vp::observe("cell-step"); } vp::check(std::abs(total - old) < 1e-12 * (1 + N), "total", at + vp::fmt("the total went from %.17g to %.17g", old, total));
            }
            before = u; t0 = t; it0 = it; vp::observe("step");
        }
        vp::signature(sig);
    });
}

//-----------------------------------------------------------------------------
struct patch_t { int level, i, j; std::size_t n, m; std::vector<double> u; double x0, y0, dx, dy; };
static std::vector<patch_t> patches_of(const app::file_t& f)
{
    std::vector<patch_t> r; for (auto& kv : f) if (kv.second.kind == 'd' && kv.first.compare(0, 11, "/conserved/") == 0)
    {
        patch_t p; auto name = kv.first.substr(11); if (std::sscanf(name.c_str(), "%d:%d-%d", &p.level, &p.i, &p.j) != 3 || kv.second.dims.size() != 2) continue; p.n = kv.second.dims[0]; p.m = kv.second.dims[1]; p.u = app::doubles(f, kv.first);
        auto v = app::doubles(f, "/vertices/" + name); if (v.size() != 2 * (p.n + 1) * (p.m + 1)) continue; p.x0 = v[0]; p.y0 = v[1]; p.dx = (v[v.size() - 2] - v[0]) / p.n; p.dy = (v[v.size() - 1] - v[1]) / p.m; r.push_back(p);
    }
    return r;
}
VP_SECTION("mesh sandbox", 1, 6)
{
    std::vector<options_t> c; (void) index;
    for (int n = 0; n < 14; ++n) { options_t o; o.prog = "amrsand"; int depth = n % 5, bs = 2 * rng.range(1, depth > 2 ? 3 : 8); o.set("outdir", "out").set("block_size", bs).set("depth", depth).set("dfi", 0).set("tfinal", 2.0 / (bs + 1) / (1 << depth) * rng.range(3, depth > 3 ? 6 : 12)); c.push_back(o); }
    run_all(c, [] (auto& o, auto& d)
    {
        auto out = d + "/out"; auto nums = app::numbers(out, "diagnostics"); auto sig = o.text(); if (! vp::check(nums.size() >= 3, "outputs-missing", sig)) return; std::vector<patch_t> before; double t0 = 0;
        for (std::size_t k = 0; k < nums.size(); ++k)
        {
            app::file_t f; if (! vp::check(app::load(app::numbered(out, "diagnostics", nums[k]), f), "file-unreadable", sig)) return; auto at = sig + vp::fmt("| output %zu: ", k); auto now = patches_of(f); double t = app::scalar(f, "/time"), area = 0; int finest = 0; bool uniform = true; for (auto& p : now) { finest = std::max(finest, p.level); area += p.n * p.dx * p.m * p.dy; uniform = uniform && p.level == now[0].level; }
            if (! vp::check(! now.empty() && (before.empty() || now.size() == before.size()), "shape", at + vp::fmt("%zu blocks", now.size()))) return;
            vp::check(std::abs(area - 4) < 1e-12, "mesh", at + vp::fmt("the blocks cover %g", area)); double total = 0, old = 0;
            if (k == 0) { vp::check(t == 0, "initial", at + "time"); for (auto& p : now) for (std::size_t i = 0; i < p.n; ++i) for (std::size_t j = 0; j < p.m; ++j) { double x = p.x0 + (i + 0.5) * p.dx, y = p.y0 + (j + 0.5) * p.dy, want = std::exp(-(x * x + y * y) / 0.025); vp::check(std::abs(p.u[i * p.m + j] - want) < 1e-12, "initial", at + vp::fmt("at (%g %g): %.17g, not %.17g", x, y, p.u[i * p.m + j], want)); } }
            else
            {
                // the average of the field over a cell, wherever it lies (periodic), from the finest cells it covers or the coarse one that covers it
                int B = o.number("block_size"), Nf = B << finest; std::vector<double> fine(std::size_t(Nf) * Nf); for (auto& p : before) { int s = 1 << (finest - p.level); for (std::size_t i = 0; i < p.n; ++i) for (std::size_t j = 0; j < p.m; ++j) for (int a = 0; a < s; ++a) for (int b = 0; b < s; ++b) fine[std::size_t((p.i * B + i) * s + a) * Nf + (p.j * B + j) * s + b] = p.u[i * p.m + j]; }
                auto average = [&] (int level, int i, int j) { int N = B << level, s = 1 << (finest - level); i = (i + N) % N; j = (j + N) % N; double sum = 0; for (int a = 0; a < s; ++a) for (int b = 0; b < s; ++b) sum += fine[std::size_t(i * s + a) * Nf + j * s + b]; return sum / s / s; };
                double dt = 2.0 / (B + 1) / (1 << finest); vp::check(std::abs(t - t0 - dt) < 1e-13, "time", at + vp::fmt("time %.17g after %.17g, not by %.17g", t, t0, dt));
                for (std::size_t b = 0; b < now.size(); ++b)
                {
                    auto& p = now[b]; auto& q = before[b]; if (! vp::check(p.level == q.level && p.i == q.i && p.j == q.j && int(p.n) == B && int(p.m) == B && p.x0 == q.x0 && p.y0 == q.y0, "mesh", at + "blocks changed")) return;
                    for (int i = 0; i < B; ++i) for (int j = 0; j < B; ++j) { int I = p.i * B + i, J = p.j * B + j; double u0 = q.u[i * B + j], want = u0 - 0.5 * dt * ((u0 - average(p.level, I - 1, J)) / p.dx + (u0 - average(p.level, I, J - 1)) / p.dy), got = p.u[i * B + j]; vp::check(std::abs(got - want) < 1e-12, "step", at + vp::fmt("block %d:%d-%d cell %d,%d is %.17g, not %.17g", p.level, p.i, p.j, i, j, got, want)); vp::check(got > -1e-12 && got < 1 + 1e-12, "bounds", at + vp::fmt("block %d:%d-%d cell %d,%d is %.17g", p.level, p.i, p.j, i, j, got)); total += got * p.dx * p.dy; old += u0 * p.dx * p.dy; vp::observe("cell-step"); }
                }
                if (uniform) { vp::check(std::abs(total - old) < 1e-13, "total", at + vp::fmt("the total went from %.17g to %.17g", old, total)); vp::observe("uniform-step"); } else vp::observe("refined-step");
            }
            before = now; t0 = t; vp::observe("step");
        }
        vp::signature(sig);
    });
}
VP_MAIN()
