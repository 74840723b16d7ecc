// Random physical states and directions for the gas-dynamics checks (C14, C15, C16).
#pragma once
#include <array>
#include <limits>
#include "vp.hpp"
#include "core_geometric.hpp"
#include "core_matrix.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
#include "physics_srhd.hpp"

namespace gas
{
    using vp::rng_t;
    constexpr double eps = 2.220446049250313e-16;
    using vec = std::array<double, 3>;

    inline double any_gamma(rng_t& r) { return r.chance(0.3) ? 5. / 3 : r.chance(0.3) ? 4. / 3 : r.uniform(1.05, 2.0); }

    inline mara::unit_vector_t axis(int i, double sign=1.0)
    {
        return mara::unit_vector_t(i == 0 ? sign : 0.0, i == 1 ? sign : 0.0, i == 2 ? sign : 0.0);
    }
    inline mara::unit_vector_t any_direction(rng_t& r)
    {
        if (r.chance(0.5)) return mara::unit_vector_t::on_axis(r.range(0, 2));
        double q = std::acos(r.uniform(-1, 1)), f = r.uniform(0, 2 * M_PI);
        return mara::unit_vector_t(std::sin(q) * std::cos(f), std::sin(q) * std::sin(f), std::cos(q));
    }
    inline mara::unit_vector_t any_planar(rng_t& r)
    {
        if (r.chance(0.5)) return mara::unit_vector_t::on_axis(r.range(0, 1));
        double f = r.uniform(0, 2 * M_PI);
        return mara::unit_vector_t(std::cos(f), std::sin(f), 0.0);
    }
    inline mara::unit_vector_t negated(const mara::unit_vector_t& n) { return mara::unit_vector_t(-n.get_n1(), -n.get_n2(), -n.get_n3()); }

    inline vec any_vector(rng_t& r, double size)
    {
        vec v {};
        if (r.chance(0.1)) return v;
        if (r.chance(0.3)) { v[r.range(0, 2)] = r.sign() * size; return v; }
        double q = std::acos(r.uniform(-1, 1)), f = r.uniform(0, 2 * M_PI);
        return {size * std::sin(q) * std::cos(f), size * std::sin(q) * std::sin(f), size * std::cos(q)};
    }

    // isothermal disk: Mach numbers up to 100
    inline mara::iso2d::primitive_t any_iso2d(rng_t& r, double cs2, double mach_max=100.0)
    {
        double v = std::sqrt(cs2) * r.log_uniform(1e-3, mach_max), f = r.uniform(0, 2 * M_PI);
        if (r.chance(0.1)) v = 0.0;
        return mara::iso2d::primitive_t().with_sigma(r.log_uniform(1e-8, 1e4)).with_velocity_x(v * std::cos(f)).with_velocity_y(v * std::sin(f));
    }
    // Newtonian: Mach numbers up to mach_max
    inline mara::euler::primitive_t any_euler(rng_t& r, double gm, double mach_max=100.0)
    {
        double d = r.log_uniform(1e-8, 1e6), p = d * r.log_uniform(1e-6, 1e4);
        auto v = any_vector(r, std::sqrt(gm * p / d) * r.log_uniform(1e-3, mach_max));
        return mara::euler::primitive_t().with_mass_density(d).with_velocity_1(v[0]).with_velocity_2(v[1]).with_velocity_3(v[2]).with_gas_pressure(p);
    }
    // relativistic: Lorentz factors up to w_max, cold to relativistically hot
    inline mara::srhd::primitive_t any_srhd(rng_t& r, double w_max, double density_min, double density_max, double cold=1e-6, double hot=1e3)
    {
        double d = r.log_uniform(density_min, density_max), p = d * r.log_uniform(cold, hot);
        auto u = any_vector(r, r.chance(0.5) ? r.uniform(0, 2) : r.log_uniform(1e-3, std::sqrt(w_max * w_max - 1)));
        return mara::srhd::primitive_t().with_mass_density(d).with_gamma_beta_1(u[0]).with_gamma_beta_2(u[1]).with_gamma_beta_3(u[2]).with_gas_pressure(p);
    }

    inline std::string show(const mara::iso2d::primitive_t& p) { return vp::fmt("(%.17g %.17g %.17g)", p[0], p[1], p[2]); }
    template<typename P> std::string show(const P& p) { return vp::fmt("(%.17g %.17g %.17g %.17g %.17g)", p[0], p[1], p[2], p[3], p[4]); }

    template<typename T, std::size_t... I> std::array<double, sizeof...(I)> tuple_values(const T& t, std::index_sequence<I...>) { return {mara::get<I>(t).value...}; }
    inline std::array<double, 3> values(const mara::iso2d::conserved_per_area_t& t) { return tuple_values(t, std::make_index_sequence<3>()); }
    inline std::array<double, 3> values(const mara::iso2d::conserved_angmom_per_area_t& t) { return tuple_values(t, std::make_index_sequence<3>()); }
    inline std::array<double, 3> values(const mara::iso2d::flux_t& t) { return tuple_values(t, std::make_index_sequence<3>()); }
    inline std::array<double, 3> values(const mara::iso2d::flux_angmom_t& t) { return tuple_values(t, std::make_index_sequence<3>()); }
    template<typename T> std::array<double, 5> values(const mara::arithmetic_sequence_t<T, 5>& s) { std::array<double, 5> a; for (int i = 0; i < 5; ++i) a[i] = s[i].value; return a; }
}
