// Shared run-time monitoring support for every harness in /verif.
//
//   * deterministic random case generation (VERIF_SEED -> section -> case)
//   * VP_CHECK(...)   : an oracle that records a violation and carries on
//   * vp::observe()   : an event seen by a monitor
//   * vp::signature() : marks the current case as distinct (hash set)
//   * results go as JSON lines to the file named by $VP_OUT, ending in a
//     {"done": ...} line; a run with no such line crashed or was killed.
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vp
{
    //-------------------------------------------------------------------------
    inline std::uint64_t mix(std::uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline std::uint64_t hash_str(const std::string& s)
    {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    struct rng_t
    {
        std::uint64_t state = 1;
        std::uint64_t next() { state += 0x9e3779b97f4a7c15ull; return mix(state); }
        double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        double uniform(double a, double b) { return a + (b - a) * unit(); }
        double log_uniform(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
        // inclusive on both ends
        long range(long a, long b) { return a + long(next() % std::uint64_t(b - a + 1)); }
        bool chance(double p) { return unit() < p; }
        template<typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
        double sign() { return chance(0.5) ? 1.0 : -1.0; }
    };

    //-------------------------------------------------------------------------
    struct state_t
    {
        std::mutex m;
        std::uint64_t seed = 1;
        bool thorough = false;
        double scale = 1.0;
        std::string only_section;
        long only_case = -1;
        std::string section = "-";
        long index = -1;
        std::string context;
        std::atomic<std::uint64_t> evaluations {0};
        std::atomic<std::uint64_t> checks {0};
        std::unordered_set<std::uint64_t> distinct;
        std::map<std::string, std::uint64_t> events;
        std::vector<std::string> samples;
        std::map<std::string, int> viol_count;
        int violations = 0;
        std::FILE* out = nullptr;
    };
    inline state_t& S() { static state_t s; return s; }

    inline std::string json_escape(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r;
    }

    inline std::string fmt(const char* f, ...)
    {
        char buf[4096];
        va_list ap; va_start(ap, f); std::vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
        return buf;
    }

    inline void line(const std::string& s)
    {
        if (! S().out)
        {
            const char* p = std::getenv("VP_OUT");
            S().out = p ? std::fopen(p, "a") : stderr;
            if (! S().out) S().out = stderr;
        }
        std::fprintf(S().out, "%s\n", s.c_str());
        std::fflush(S().out);
    }

    // `key` identifies the kind of violation (used against known_findings.json).
    inline void violation(const std::string& key, const std::string& what)
    {
        std::lock_guard<std::mutex> lock(S().m);
        S().violations++;
        if (S().viol_count[key]++ < 3)
        {
            line("{\"viol\": \"" + json_escape(key) + "\", \"section\": \"" + json_escape(S().section) +
                "\", \"case\": " + std::to_string(S().index) + ", \"what\": \"" + json_escape(what) +
                "\", \"context\": \"" + json_escape(S().context) + "\"}");
        }
    }

    inline bool check(bool ok, const std::string& key, const std::string& what)
    {
        S().checks++;
        if (! ok) violation(key, what);
        return ok;
    }

    inline void observe(const std::string& kind, std::uint64_t n=1)
    {
        std::lock_guard<std::mutex> lock(S().m);
        S().events[kind] += n;
    }

    inline void signature(const std::string& s)
    {
        std::lock_guard<std::mutex> lock(S().m);
        S().distinct.insert(hash_str(s));
        if (S().samples.size() < 400 && (S().samples.empty() || s != S().samples.back())) S().samples.push_back(S().section + ": " + s);
    }

    inline void context(const std::string& s) { S().context = s; }

    //-------------------------------------------------------------------------
    struct section_t { std::string name; double quick_cases; double thorough_cases; std::function<void(rng_t&, long)> fn; };
    inline std::vector<section_t>& sections() { static std::vector<section_t> v; return v; }
    struct reg_t { reg_t(std::string n, double q, double t, std::function<void(rng_t&, long)> f) { sections().push_back({n, q, t, f}); } };

    inline void finish()
    {
        auto& s = S();
        std::string o = "{\"done\": true, \"evaluations\": " + std::to_string(s.evaluations.load()) +
            ", \"checks\": " + std::to_string(s.checks.load()) +
            ", \"distinct\": " + std::to_string(s.distinct.size()) +
            ", \"violations\": " + std::to_string(s.violations) + ", \"events\": {";
        bool first = true;
        for (auto& e : s.events) { o += (first ? "" : ", ") + ("\"" + json_escape(e.first) + "\": " + std::to_string(e.second)); first = false; }
        o += "}, \"samples\": [";
        first = true;
        std::size_t step = s.samples.size() > 12 ? s.samples.size() / 12 : 1;
        for (std::size_t i = 0; i < s.samples.size(); i += step) { o += (first ? "\"" : ", \"") + json_escape(s.samples[i]) + "\""; first = false; }
        o += "]}";
        line(o);
    }

    // usage: harness SEED TIER [only_section [only_case]]
    inline int main(int argc, const char* argv[])
    {
        auto& s = S();
        s.seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
        s.thorough = argc > 2 && std::string(argv[2]) == "thorough";
        s.only_section = argc > 3 ? argv[3] : "";
        s.only_case = argc > 4 ? std::atol(argv[4]) : -1;
        if (auto p = std::getenv("VP_SCALE")) s.scale = std::atof(p);

        for (auto& sec : sections())
        {
            if (! s.only_section.empty() && s.only_section != sec.name) continue;
            long n = std::max(1L, long((s.thorough ? sec.thorough_cases : sec.quick_cases) * s.scale));
            auto t0 = std::chrono::steady_clock::now();
            for (long i = 0; i < n; ++i)
            {
                if (s.only_case >= 0 && i != s.only_case) continue;
                s.section = sec.name;
                s.index = i;
                s.context = "";
                rng_t rng { mix(mix(s.seed) ^ mix(hash_str(sec.name)) ^ mix(std::uint64_t(i) * 7919 + 13)) };
                s.evaluations++;
                try {
                    sec.fn(rng, i);
                }
                catch (const std::exception& e)
                {
                    violation("unexpected-exception/" + sec.name, std::string("exception escaped: ") + e.what());
                }
                if (s.violations > 60) break;
            }
            std::fprintf(stderr, "[vp] section %-32s %8ld cases %8.2fs\n", sec.name.c_str(), n,
                std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
        }
        finish();
        return 0;
    }

    //-------------------------------------------------------------------------
    // helpers
    template<typename F> bool throws(F&& f) { try { f(); return false; } catch (...) { return true; } }
    template<typename E, typename F> bool throws_as(F&& f) { try { f(); return false; } catch (const E&) { return true; } catch (...) { return false; } }
    inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
    inline bool close(double a, double b, double rtol, double atol=0.0) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b)); }
}

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_SECTION(name, quick, thorough) \
    static void VP_CAT(vp_section_, __LINE__)(vp::rng_t& rng, long index); \
    static vp::reg_t VP_CAT(vp_reg_, __LINE__)(name, quick, thorough, VP_CAT(vp_section_, __LINE__)); \
    static void VP_CAT(vp_section_, __LINE__)([[maybe_unused]] vp::rng_t& rng, [[maybe_unused]] long index)
#define VP_CHECK(cond, key, ...) ([&] { const bool vp_ok = bool(cond); vp::S().checks++; if (! vp_ok) vp::violation(key, std::string(#cond) + " -- " + vp::fmt(__VA_ARGS__)); return vp_ok; }())
#define VP_MAIN() int main(int argc, const char* argv[]) { return vp::main(argc, argv); }
