// C04: the decomposition program lists every block, the points of each, and stores those of the first in their place
#include "app.hpp"
#include <array>
#include <set>
using point_t = std::array<double, 3>;
static std::vector<double> numbers_in(const std::string& l) { std::vector<double> v; const char* p = l.c_str(); while (*p) { if (std::isdigit((unsigned char) *p) || (*p == '-' && std::isdigit((unsigned char) p[1]))) { char* e; v.push_back(std::strtod(p, &e)); p = e; } else ++p; } return v; }

VP_SECTION("decomposition program", 40, 800)
{
    auto d = app::new_dir("partdom"); int N = rng.range(1, 11), procs = rng.chance(0.5) ? rng.range(1, 8) : rng.range(1, 40); app::args_t args = {"partdom"}; if (N != 4 || rng.chance(0.5)) args.push_back("N=" + std::to_string(N)); if (procs != 2 || rng.chance(0.5)) args.push_back("procs=" + std::to_string(procs));
    vp::context(app::joined(args)); auto r = app::run(args, d); if (! r.ok()) { VP_CHECK(! r.timed_out && procs > 1, "program-failed", "%s", r.describe().c_str()); int left = procs, most = 1; for (int f = 2; left > 1; ) if (left % f == 0) { left /= f; most = std::max(most, f); } else ++f; VP_CHECK(most > N || procs > N * N * N || procs > N, "program-failed", "%d blocks of a domain of %d cells per side: %s", procs, N, r.describe().c_str()); vp::observe("decomposition-refused"); app::remove_tree(d); return; }
    // block index -> points
    std::map<std::vector<double>, std::vector<point_t>> vertices, cells; auto* now = &vertices; std::vector<double> block; std::istringstream is(r.out); std::string l; bool inside = false;
    while (std::getline(is, l))
    {
        if (l.find("vertex array") != std::string::npos || l.find("cell-center array") != std::string::npos) { now = l.find("vertex array") != std::string::npos ? &vertices : &cells; block = numbers_in(l); if (block.size() == 3) { VP_CHECK(! now->count(block), "block-listed-twice", "%s", l.c_str()); (*now)[block]; } inside = true; continue; }
        auto v = numbers_in(l); if (inside && v.size() == 12) v = {v[0], v[4], v[8]}; /* each number is followed by its dimensions */ if (inside && v.size() == 3 && l[0] == '(') (*now)[block].push_back({v[0], v[1], v[2]});
    }
    VP_CHECK(int(cells.size()) == procs && vertices.size() == cells.size(), "block-count", "%zu and %zu blocks listed, %d asked for", vertices.size(), cells.size(), procs);
    std::set<point_t> seen; std::size_t total = 0;
    for (auto& b : cells)
    {
        total += b.second.size(); VP_CHECK(! b.second.empty(), "block-empty", "a block without cells"); std::set<point_t> corners, listed(vertices[b.first].begin(), vertices[b.first].end());
        for (auto& c : b.second) { seen.insert(c); for (int k = 0; k < 8; ++k) corners.insert({c[0] + (k & 1) - 0.5, c[1] + (k >> 1 & 1) - 0.5, c[2] + (k >> 2) - 0.5}); VP_CHECK(c[0] > 0 && c[0] < N && c[1] > 0 && c[1] < N && c[2] > 0 && c[2] < N && c[0] - std::floor(c[0]) == 0.5 && c[1] - std::floor(c[1]) == 0.5 && c[2] - std::floor(c[2]) == 0.5, "cell-center", "(%g, %g, %g)", c[0], c[1], c[2]); }
        VP_CHECK(listed == corners && vertices[b.first].size() == corners.size(), "block-vertices", "%zu vertices for %zu cells", vertices[b.first].size(), b.second.size()); vp::observe("program-block");
        for (std::size_t k = 1; k < b.second.size(); ++k) if (! VP_CHECK(b.second[k - 1] < b.second[k], "cell-order", "cells are not listed in row-major order")) break;
    }
    VP_CHECK(total == seen.size() && total == std::size_t(N) * N * N, "cells-covered", "%zu cells listed, %zu different, %d in the domain", total, seen.size(), N * N * N);
    // the file holds the first coordinate of the first block in its place
    app::file_t f; if (VP_CHECK(app::load(d + "/test.h5", f), "file", "test.h5 cannot be read"))
    {
        auto x = app::doubles(f, "/data"); auto& o = f["/data"]; std::set<point_t> first; auto it = cells.find({0, 0, 0}); if (it != cells.end()) first.insert(it->second.begin(), it->second.end());
        if (VP_CHECK(o.dims == std::vector<unsigned long>(3, N) && x.size() == std::size_t(N) * N * N, "file-shape", "%zu numbers", x.size())) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) { double want = first.count({i + 0.5, j + 0.5, k + 0.5}) ? i + 0.5 : 0.0; if (! VP_CHECK(x[(i * N + j) * N + k] == want, "file-content", "(%d, %d, %d) holds %g, expected %g", i, j, k, x[(i * N + j) * N + k], want)) { i = j = N; break; } }
        vp::observe("program-file");
    }
    vp::signature(app::joined(args)); app::remove_tree(d);
}
VP_MAIN()
