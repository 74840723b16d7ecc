// C09: run options.  A reference model (map of typed values) is driven in
// lock-step with mara::config_t through random histories of updates.
#include <stdexcept>
#include <functional>
#include <sstream>
#include <limits>
#include <climits>
#include "app_config.hpp"
#include "vp.hpp"
using value_t = mara::config_parameter_t;
using model_t = std::map<std::string, value_t>;

static bool same(const value_t& a, const value_t& b)
{
    if (a.index() != b.index()) return false;
    if (a.index() == 1) return vp::same_bits(std::get<1>(a), std::get<1>(b));
    return a == b;
}
static std::string text(const value_t& v) { return v.index() == 0 ? std::to_string(std::get<0>(v)) : v.index() == 1 ? vp::fmt("%.17g", std::get<1>(v)) : "'" + std::get<2>(v) + "'"; }

static std::string random_key(vp::rng_t& rng)
{
    static const std::vector<std::string> common = {"N", "tfinal", "outdir", "cfl_number", "plm_theta", "nr", "x", "restart", "a", "A", "b c", "", "key.with.dots", "N ", "n"};
    if (rng.chance(0.7)) return rng.pick(common);
    std::string s; int n = rng.chance(0.15) ? rng.range(13, 200) : rng.range(1, 12); for (int i = 0; i < n; ++i) s += char(rng.range(33, 126)); for (auto& c : s) if (c == '=') c = '_';
    return s;
}
static std::string random_string(vp::rng_t& rng)
{
    switch (rng.range(0, 6)) { case 0: return ""; case 1: return "data"; case 2: return "a=b=c"; case 3: return "12"; case 4: return " spaces and\ttabs "; case 5: return std::string(rng.range(1, 300), 'x'); default: { std::string s; int n = rng.range(1, 20); for (int i = 0; i < n; ++i) s += char(rng.range(1, 255)); return s; } }
}
static value_t random_value(vp::rng_t& rng, int type)
{
    if (type == 0) switch (rng.range(0, 4)) { case 0: return 0; case 1: return INT_MAX; case 2: return INT_MIN; case 3: return int(rng.range(-20, 20)); default: return int(rng.next()); }
    if (type == 1) switch (rng.range(0, 6)) { case 0: return 0.0; case 1: return -0.0; case 2: return 0.1; case 3: return 1e300; case 4: return -2.5e-300; case 5: return double(rng.range(-10, 10)); default: return rng.uniform(-1, 1) * std::pow(10.0, rng.range(-200, 200)); }
    return random_string(rng);
}
static void agree(const mara::config_t& c, const model_t& m, const char* when)
{
    std::size_t n = 0;
    for (auto item : c)
    {
        auto it = m.find(item.first);
        VP_CHECK(it != m.end(), "undeclared-option-present", "%s: option '%s' was never declared", when, item.first.c_str());
        if (it != m.end()) VP_CHECK(same(item.second, it->second), "option-value", "%s: option '%s' is %s, expected %s", when, item.first.c_str(), text(item.second).c_str(), text(it->second).c_str());
        ++n;
    }
    VP_CHECK(n == m.size(), "option-missing", "%s: %zu options listed, %zu declared", when, n, m.size());
    for (auto& kv : m)
    {
        const mara::config_t& k = c;
        bool ok = false;
        try {
            if (kv.second.index() == 0) ok = k.get_int(kv.first) == std::get<0>(kv.second) && k.get<int>(kv.first) == std::get<0>(kv.second);
            if (kv.second.index() == 1) ok = vp::same_bits(k.get_double(kv.first), std::get<1>(kv.second)) && vp::same_bits(k.get<double>(kv.first), std::get<1>(kv.second));
            if (kv.second.index() == 2) ok = k.get_string(kv.first) == std::get<2>(kv.second);
        } catch (const std::exception& e) { vp::context(std::string("getter threw ") + e.what()); }
        VP_CHECK(ok, "option-getter", "%s: getter of '%s' disagrees with %s", when, kv.first.c_str(), text(kv.second).c_str());
        // a getter of another type must not deliver a value
        int other = (int(kv.second.index()) + 1) % 3;
        VP_CHECK(vp::throws([&] { if (other == 0) k.get_int(kv.first); if (other == 1) k.get_double(kv.first); if (other == 2) k.get_string(kv.first); }), "option-wrong-type-read", "%s: option '%s' read with another type", when, kv.first.c_str());
        vp::observe("option-read");
    }
    VP_CHECK(vp::throws([&] { c.get_int("~no such option~"); }) && vp::throws([&] { c.get_double("~no such option~"); }) && vp::throws([&] { c.get_string("~no such option~"); }), "undeclared-read", "%s: undeclared option readable", when);
}
// text that is a complete literal of the type
static std::string good_text(vp::rng_t& rng, int type, value_t& out)
{
    out = random_value(rng, type);
    if (type == 0) { auto i = std::get<0>(out); return rng.chance(0.1) && i >= 0 ? "+" + std::to_string(i) : std::to_string(i); }
    if (type == 1)
    {
        double d = std::get<1>(out);
        switch (rng.range(0, 3)) { case 0: { std::string s = rng.pick(std::vector<std::string>{"1", "-3", ".5", "1.", "1e-3", "2E+5", "007.25", "+0.125"}); out = std::strtod(s.c_str(), nullptr); return s; }
            default: return vp::fmt("%.17g", d); }
    }
    return std::get<2>(out);
}
static std::string bad_text(vp::rng_t& rng, int type)
{
    static const std::vector<std::string> bad_int = {"", "abc", "x12", "--5", "-", "+", "99999999999", "-2147483649", "2147483648", "12abc", "3.7", "1e3", "1,000", "5 6", "0x10", "ten", "4.", "1;", "true"};
    static const std::vector<std::string> bad_dbl = {"", "abc", "e5", ".", "-", "1.5x", "1.2.3", "1e", "1e999", "1,5", "2.0 3.0", "--1", "1e5e5", "5s", "0.1/2"};
    return rng.pick(type == 0 ? bad_int : bad_dbl);
}

struct world_t { model_t declared; mara::config_template_t tmpl; };
static world_t random_template(vp::rng_t& rng, std::string& sig)
{
    world_t w; w.tmpl = mara::make_config_template();
    int n = rng.range(0, 12);
    for (int i = 0; i < n; ++i)
    {
        auto key = random_key(rng); auto v = random_value(rng, rng.range(0, 2)); w.declared[key] = v; sig += key + ":" + std::to_string(v.index()) + " ";
        auto before = w.tmpl;
        if (rng.chance(0.5)) w.tmpl = std::visit([&] (auto x) { return std::move(w.tmpl).item(key.c_str(), x); }, v);
        else w.tmpl = std::visit([&] (auto x) { return static_cast<const mara::config_template_t&>(w.tmpl).item(key.c_str(), x); }, v);
    }
    return w;
}

VP_SECTION("histories", 900, 40000)
{
    std::string sig;
    auto w = random_template(rng, sig);
    auto cfg = w.tmpl.create();
    auto model = w.declared;
    agree(cfg, model, "fresh");
    std::vector<std::pair<mara::config_t, model_t>> earlier;
    int steps = rng.range(1, 14);
    auto pick_key = [&] { if (model.empty() || rng.chance(0.15)) return random_key(rng); auto it = model.begin(); std::advance(it, rng.range(0, model.size() - 1)); return it->first; };
    for (int s = 0; s < steps; ++s)
    {
        earlier.push_back({cfg, model});
        int op = rng.range(0, 6);
        auto key = pick_key(); bool known = w.declared.count(key); int type = known ? int(w.declared.at(key).index()) : int(rng.range(0, 2));
        vp::context(sig + vp::fmt("step %d op %d key '%s'", s, op, key.c_str()));
        if (op == 0 || op == 1)          // text
        {
            value_t v; bool good = type == 2 || rng.chance(0.6); auto t = good ? good_text(rng, type, v) : bad_text(rng, type);
            if (type == 2) v = t;
            vp::context(sig + vp::fmt("step %d set '%s' from text '%s'", s, key.c_str(), t.c_str()));
            try { auto next = op == 0 ? static_cast<const mara::config_t&>(cfg).set(key, t) : mara::config_t(cfg).set(key, t);
                VP_CHECK(known, "undeclared-accepted", "undeclared key '%s' accepted", key.c_str());
                VP_CHECK(good, "bad-text-accepted", "'%s' accepted for an option of type %d", t.c_str(), type);
                if (known && good) { cfg = next; model[key] = v; vp::observe("text-accepted"); }
            } catch (const std::exception&) { VP_CHECK(! known || ! good, "good-text-rejected", "'%s' rejected for '%s'", t.c_str(), key.c_str()); vp::observe("text-rejected"); }
            sig += "t";
        }
        else if (op == 2)     // typed
        {
            int vt = rng.chance(0.6) ? type : int(rng.range(0, 2)); auto v = random_value(rng, vt);
            try { auto next = rng.chance(0.5) ? static_cast<const mara::config_t&>(cfg).set(key, v) : mara::config_t(cfg).set(key, v);
                VP_CHECK(known, "undeclared-accepted", "undeclared key '%s' accepted", key.c_str());
                VP_CHECK(! known || vt == type, "wrong-type-accepted", "value of type %d accepted for '%s' of type %d", vt, key.c_str(), type);
                if (known && vt == type) { cfg = next; model[key] = v; vp::observe("typed-accepted"); }
            } catch (const std::exception&) { VP_CHECK(! known || vt != type, "good-value-rejected", "value rejected for '%s'", key.c_str()); vp::observe("typed-rejected"); }
            sig += "v";
        }
        else if (op <= 4)     // stored options or a text map
        {
            mara::config_parameter_map_t pm; mara::config_string_map_t sm; model_t next_model = model; bool ok = true; int n = rng.range(0, 4);
            bool spoil = rng.chance(0.4);
            for (int i = 0; i < n; ++i)
            {
                auto k = pick_key(); if (pm.count(k) || sm.count(k)) continue; bool kn = w.declared.count(k); int ty = kn ? int(w.declared.at(k).index()) : 0;
                if (! spoil && ! kn) continue;
                if (op == 3) { int vt = spoil && rng.chance(0.4) ? int(rng.range(0, 2)) : ty; pm[k] = random_value(rng, vt); if (! kn || vt != ty) ok = false; else next_model[k] = pm[k]; }
                else { value_t v; if (spoil && ty != 2 && rng.chance(0.5)) { sm[k] = bad_text(rng, ty); ok = false; } else { sm[k] = good_text(rng, ty, v); if (kn) next_model[k] = ty == 2 ? value_t(sm[k]) : v; else ok = false; } }
            }
            try { auto next = op == 3 ? (rng.chance(0.5) ? static_cast<const mara::config_t&>(cfg).update(pm) : mara::config_t(cfg).update(pm)) : static_cast<const mara::config_t&>(cfg).update(sm);
                VP_CHECK(ok, "bad-update-accepted", "an update with an undeclared or ill-typed item was accepted");
                if (ok) { cfg = next; model = next_model; vp::observe("update-accepted"); }
            } catch (const std::exception&) { VP_CHECK(! ok, "good-update-rejected", "a valid update was rejected"); vp::observe("update-rejected"); }
            sig += "u";
        }
        else if (op == 5)     // one option set applied over another
        {
            auto other = w.tmpl.create(); auto next = static_cast<const mara::config_t&>(other).update(cfg);
            agree(next, model, "rebuilt from the template"); cfg = next; sig += "r";
        }
        else                  // command line
        {
            std::vector<std::string> args = {"subprogram"}; model_t next_model = model; bool ok = true; std::set<std::string> used;
            int n = rng.range(0, 5);
            for (int i = 0; i < n; ++i)
            {
                auto k = pick_key(); if (k.find('=') != std::string::npos) continue;
                if (rng.chance(0.2)) { args.push_back(rng.pick(std::vector<std::string>{"--verbose", "chkpt.0000.h5", "", "x"})); continue; }
                bool kn = w.declared.count(k); if (! kn && rng.chance(0.7)) continue; int ty = kn ? int(w.declared.at(k).index()) : 2; value_t v; auto t = good_text(rng, ty, v);
                if (rng.chance(0.1) && ty != 2) { t = bad_text(rng, ty); ok = false; }
                if (! kn || used.count(k)) ok = false; used.insert(k); args.push_back(k + "=" + t); if (kn) next_model[k] = ty == 2 ? value_t(t) : v;
            }
            std::vector<const char*> argv; for (auto& a : args) argv.push_back(a.c_str());
            try { auto m = mara::argv_to_string_map(int(argv.size()), argv.data());
                VP_CHECK(m.size() == used.size(), "command-line-items", "%zu options recognised of %zu given", m.size(), used.size());
                auto next = static_cast<const mara::config_t&>(cfg).update(m);
                VP_CHECK(ok, "bad-command-line-accepted", "a command line with a duplicate, undeclared or malformed option was accepted");
                if (ok) { cfg = next; model = next_model; vp::observe("command-line-accepted"); }
            } catch (const std::exception&) { VP_CHECK(! ok, "good-command-line-rejected", "a valid command line was rejected"); vp::observe("command-line-rejected"); }
            sig += "c";
        }
        agree(cfg, model, "after update");
    }
    for (auto& e : earlier) agree(e.first, e.second, "earlier option set");
    agree(w.tmpl.create(), w.declared, "template");
    vp::signature(sig);
}

VP_SECTION("command-lines", 4000, 80000)
{
    // argv_to_string_map against a direct definition
    int n = rng.range(0, 8); std::vector<std::string> args; std::map<std::string, std::string> want; bool dup = false; std::string sig;
    for (int i = 0; i < n; ++i)
    {
        std::string k = random_key(rng), v = random_string(rng); for (auto& c : v) if (! c) c = '0';
        if (rng.chance(0.2)) { std::string plain; for (char c : k) if (c != '=') plain += c; args.push_back(plain); }
        else { if (want.count(k)) dup = true; else want[k] = v; args.push_back(k + "=" + v); }
        sig += args.back() + "|";
    }
    vp::context(sig); std::vector<const char*> argv; for (auto& a : args) argv.push_back(a.c_str());
    try { auto m = mara::argv_to_string_map(n, argv.data()); VP_CHECK(! dup, "duplicate-accepted", "a key given twice was accepted"); if (! dup) VP_CHECK(m == want, "command-line-map", "map differs"); vp::observe("command-line-parsed"); }
    catch (const std::exception&) { VP_CHECK(dup, "command-line-rejected", "no key was given twice"); vp::observe("duplicate-rejected"); }
    vp::signature(sig);
}

VP_SECTION("printing", 300, 3000)
{
    std::string sig; auto w = random_template(rng, sig); auto c = w.tmpl.create(); std::ostringstream os; os << std::setw(3) << std::setfill('#') << std::hex; auto fill = os.fill(); auto flags = os.flags();
    mara::pretty_print(os, "header", c);
    VP_CHECK(os.str().find("header") != std::string::npos && os.str().find("header") < os.str().find('\t'), "print-header", "the listing does not start with its header");
    for (auto& kv : w.declared) VP_CHECK(os.str().find(kv.first) != std::string::npos, "print-missing", "option '%s' not listed", kv.first.c_str());
    VP_CHECK(os.fill() == fill && os.flags() == flags, "print-format-leak", "stream formatting changed");
    vp::observe("printed"); vp::signature(sig);
}
VP_MAIN()
