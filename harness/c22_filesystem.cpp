// C22: filesystem helpers.  Runs as an unprivileged user inside a scratch
// folder of its own; every removing call of the process is interposed and
// refused (and reported) when it would leave that folder.
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <dirent.h>
#include <unistd.h>
#include "app_filesystem.hpp"
#include "vp.hpp"
namespace fs = mara::filesystem;

static std::string scratch;              // canonical path of the scratch folder
static int escapes = 0, removals = 0;

// canonical location of the directory entry that `path` names
static std::string entry_location(int dirfd, const char* path)
{
    std::string p = path; while (p.size() > 1 && p.back() == '/') p.pop_back();
    if (p[0] != '/') { char b[PATH_MAX]; ssize_t n = 0; if (dirfd == AT_FDCWD) { if (! getcwd(b, sizeof b)) return "?"; p = std::string(b) + "/" + p; } else { n = readlink(vp::fmt("/proc/self/fd/%d", dirfd).c_str(), b, sizeof b); if (n <= 0) return "?"; p = std::string(b, n) + "/" + p; } }
    auto s = p.rfind('/'); std::string dir = s == 0 ? "/" : p.substr(0, s), last = p.substr(s + 1); char b[PATH_MAX]; if (! realpath(dir.c_str(), b)) return "(nonexistent)";
    return std::string(b) + "/" + last;
}
static bool inside(int dirfd, const char* path)
{
    auto e = entry_location(dirfd, path);
    if (e == "(nonexistent)" || (! scratch.empty() && e.compare(0, scratch.size() + 1, scratch + "/") == 0)) { ++removals; return true; }
    ++escapes; vp::violation("removal-outside-scratch", "attempt to remove " + e); return false;
}
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" int unlink(const char* p) noexcept { if (! inside(AT_FDCWD, p)) { errno = EPERM; return -1; } return REAL(unlink)(p); }
extern "C" int rmdir(const char* p) noexcept { if (! inside(AT_FDCWD, p)) { errno = EPERM; return -1; } return REAL(rmdir)(p); }
extern "C" int remove(const char* p) noexcept { if (! inside(AT_FDCWD, p)) { errno = EPERM; return -1; } return REAL(remove)(p); }
extern "C" int unlinkat(int d, const char* p, int f) noexcept { if (! inside(d, p)) { errno = EPERM; return -1; } return REAL(unlinkat)(d, p, f); }
extern "C" int rename(const char* a, const char* b) noexcept { if (! inside(AT_FDCWD, a) || ! inside(AT_FDCWD, b)) { errno = EPERM; return -1; } return REAL(rename)(a, b); }

// a snapshot of everything below a folder, without following links
using snap_t = std::map<std::string, std::string>;
static void walk(const std::string& root, const std::string& rel, snap_t& out)
{
    std::string full = rel.empty() ? root : root + "/" + rel; struct stat st; if (lstat(full.c_str(), &st)) return;
    std::string d = vp::fmt("%o", st.st_mode & S_IFMT);
    if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; auto n = readlink(full.c_str(), b, sizeof b); d += "->" + std::string(b, std::max<ssize_t>(0, n)); }
    if (S_ISREG(st.st_mode)) { d += ":"; if (auto f = std::fopen(full.c_str(), "r")) { char b[256]; auto n = std::fread(b, 1, sizeof b, f); d += std::string(b, n); std::fclose(f); } }
    if (! rel.empty()) out[rel] = d;
    if (S_ISDIR(st.st_mode)) if (auto dp = opendir(full.c_str())) { std::vector<std::string> names; while (auto e = readdir(dp)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(dp); for (auto& n : names) walk(root, rel.empty() ? n : rel + "/" + n, out); }
}
static snap_t snapshot() { snap_t s; walk(scratch, "", s); return s; }
static void wipe(const std::string& p)   // the harness's own clean-up, link-safe
{
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); if (auto d = opendir(p.c_str())) { std::vector<std::string> n; while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") n.push_back(s); } closedir(d); for (auto& s : n) wipe(p + "/" + s); } REAL(rmdir)(p.c_str()); }
    else REAL(unlink)(p.c_str());
}
static void wipe_contents() { if (auto d = opendir(scratch.c_str())) { std::vector<std::string> n; while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") n.push_back(s); } closedir(d); for (auto& s : n) wipe(scratch + "/" + s); } }
static void put(const std::string& p, const std::string& text) { if (auto f = std::fopen(p.c_str(), "w")) { std::fwrite(text.data(), 1, text.size(), f); std::fclose(f); } }

static std::string name(vp::rng_t& rng)
{
    static const std::vector<std::string> odd = {"data", "chkpt.0000.h5", "with space", ".hidden", "..double", "a.b.c", "new\nline", "~", "-rf", "*", "\xc3\xa9t\xc3\xa9", "x", "...", "end.", "100%", "%s.%d", "a\\b", "$HOME", "`x`"};
    if (rng.chance(0.5)) return rng.pick(odd);
    if (rng.chance(0.05)) return std::string(rng.range(200, 255), 'l');
    std::string s; int n = rng.range(1, 8); for (int i = 0; i < n; ++i) s += "abcdefghij.-_"[rng.range(0, 12)]; if (s == "." || s == "..") s = "dot"; return s;
}
// builds a random tree below `root`; returns the relative paths of its entries
static void grow(vp::rng_t& rng, const std::string& root, int depth, std::string& sig)
{
    int n = rng.range(0, 5);
    for (int i = 0; i < n; ++i)
    {
        std::string p = root + "/" + name(rng); struct stat st; if (! lstat(p.c_str(), &st)) continue;
        switch (rng.range(0, 9))
        {
            case 0: case 1: case 2: put(p, vp::fmt("%ld", rng.range(0, 1000000))); sig += "f"; break;
            case 3: case 4: if (! mkdir(p.c_str(), 0755) && depth > 0) { sig += "d("; grow(rng, p, depth - 1, sig); sig += ")"; } break;
            case 5: symlink((scratch + "/outside").c_str(), p.c_str()); sig += "L"; break;
            case 6: symlink(rng.chance(0.5) ? (scratch + "/outside/keep").c_str() : "../../outside/sub", p.c_str()); sig += "l"; break;
            case 7: symlink("/nonexistent/target", p.c_str()); sig += "x"; break;
            case 8: mkfifo(p.c_str(), 0644); sig += "p"; break;
            case 9: { int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a {}; a.sun_family = AF_UNIX; if (p.size() < sizeof(a.sun_path)) { std::strcpy(a.sun_path, p.c_str()); ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a); sig += "s"; } close(s); break; }
        }
    }
}
static void fresh(vp::rng_t& rng)
{
    wipe_contents(); chdir(scratch.c_str());
    mkdir("outside", 0755); mkdir("outside/sub", 0755); put("outside/keep", "keep"); put("outside/sub/keep", "keep too"); mkdir("sibling", 0755); put("sibling/file", "sibling"); put("plain", "plain");
}
static bool under(const std::string& p, const std::string& root) { return p == root || p.compare(0, root.size() + 1, root + "/") == 0; }

VP_SECTION("remove-recurse", 700, 12000)
{
    fresh(rng); std::string sig = "tree:"; mkdir("tree", 0755); grow(rng, scratch + "/tree", 3, sig);
    std::string target = "tree"; int kind = rng.range(0, 9); bool absolute = rng.chance(0.4), blocked = false;
    if (kind == 0) { target = "missing"; } else if (kind == 1) { target = "plain"; } else if (kind == 2) { symlink("outside", "link"); target = "link"; }
    else if (kind == 3 && geteuid() != 0) { mkdir("tree/locked", 0755); put("tree/locked/f", "x"); chmod("tree/locked", 0500); blocked = true; }
    else if (kind == 4) { mkdir("tree/KB", 0755); mkdir("tree/KB/c", 0755); grow(rng, scratch + "/tree/KB", 1, sig); target = "tree/KB"; }
    auto before = snapshot(); sig += vp::fmt(" k%d a%d", kind, absolute); vp::context(sig);
    int e0 = escapes; int rc = fs::remove_recurse(absolute ? scratch + "/" + target : target);
    auto after = snapshot(); VP_CHECK(escapes == e0, "removed-outside", "removal left the scratch folder");
    for (auto& kv : before) if (! under(kv.first, target)) VP_CHECK(after.count(kv.first) && after[kv.first] == kv.second, "removed-too-much", "'%s' outside '%s' was removed or changed", kv.first.c_str(), target.c_str());
    for (auto& kv : after) VP_CHECK(before.count(kv.first), "removal-created", "'%s' appeared", kv.first.c_str());
    if (kind == 0) VP_CHECK(rc != 0, "missing-removed", "removing a missing folder reported success");
    else if (kind == 1 || kind == 2) { if (rc == 0) VP_CHECK(! after.count(target), "removal-reported", "reported success but '%s' is still there", target.c_str()); }
    else if (blocked) { VP_CHECK(rc != 0 && after.count("tree/locked/f"), "blocked-removal", "removal of an undeletable tree reported %d", rc); chmod("tree/locked", 0700); vp::observe("blocked-removal"); }
    else { int left = 0; for (auto& kv : after) left += under(kv.first, target); VP_CHECK(rc == 0 && left == 0, "removed-too-little", "rc %d, %d entries left of '%s'", rc, left, target.c_str()); vp::observe("tree-removed"); for (auto& kv : before) if (under(kv.first, target)) vp::observe("entry-removed"); }
    chdir(scratch.c_str()); vp::signature(sig);
}
VP_SECTION("remove-file", 300, 4000)
{
    fresh(rng); symlink("outside/keep", "flink"); symlink("outside", "dlink"); symlink("nowhere", "dangling"); mkdir("empty", 0755);
    std::string t = rng.pick(std::vector<std::string>{"plain", "flink", "dlink", "dangling", "sibling", "missing", "sibling/file", "outside/keep"}); bool absolute = rng.chance(0.5);
    auto before = snapshot(); int rc = fs::remove_file(absolute ? scratch + "/" + t : t); auto after = snapshot(); vp::context(t);
    bool can = t != "missing" && t != "sibling"; auto want = before; if (can) want.erase(t);
    VP_CHECK((rc == 0) == can, "remove-file-status", "removing '%s' reported %d", t.c_str(), rc); VP_CHECK(after == want, "remove-file-effect", "removing '%s' changed something else, or nothing", t.c_str());
    vp::observe("file-removed"); vp::signature(t + (absolute ? "/a" : "/r"));
}
VP_SECTION("require-dir", 900, 15000)
{
    fresh(rng); bool absolute = rng.chance(0.5); std::vector<std::string> parts; int n = rng.range(1, 6); for (int i = 0; i < n; ++i) parts.push_back(rng.chance(0.1) ? "." : name(rng));
    auto slashes = [&] { return std::string(rng.chance(0.85) ? 1 : rng.range(2, 4), '/'); };
    // part of the path may exist already, with contents
    std::string pre = scratch; if (rng.chance(0.5)) for (int i = 0; i < rng.range(0, n); ++i) { pre += "/" + parts[i]; mkdir(pre.c_str(), 0755); if (rng.chance(0.3)) put(pre + "/inhabitant", "here"); }
    std::string path = absolute ? scratch + slashes() : rng.chance(0.1) ? "./" : ""; for (int i = 0; i < n; ++i) path += (i ? slashes() : "") + parts[i]; if (rng.chance(0.2)) path += slashes();
    if (rng.chance(0.03)) { path = absolute ? scratch : ""; parts.clear(); }
    vp::context(path); auto before = snapshot(); auto want = before; std::string rel; for (auto& p : parts) { if (p == ".") continue; rel += (rel.empty() ? "" : "/") + p; if (! want.count(rel)) want[rel] = vp::fmt("%o", S_IFDIR); }
    fs::require_dir(path); auto after = snapshot();
    for (auto& kv : want) VP_CHECK(after.count(kv.first) && after[kv.first] == kv.second, "directory-missing", "'%s' of '%s' missing or changed", kv.first.c_str(), path.c_str());
    for (auto& kv : after) VP_CHECK(want.count(kv.first), "directory-extra", "'%s' created by '%s'", kv.first.c_str(), path.c_str());
    if (! rel.empty()) { VP_CHECK(access((scratch + "/" + rel).c_str(), R_OK | W_OK | X_OK) == 0, "directory-mode", "'%s' is not usable by its owner", rel.c_str()); }
    fs::require_dir(path); VP_CHECK(snapshot() == after, "require-dir-again", "repeating it changed something"); vp::observe("directory-required"); if (absolute) vp::observe("absolute-path");
    vp::signature(path.substr(absolute ? scratch.size() : 0) + (absolute ? "A" : "R"));
}
VP_SECTION("queries", 700, 8000)
{
    fresh(rng); std::string sig; mkdir("tree", 0755); grow(rng, scratch + "/tree", 2, sig); vp::context(sig); auto all = snapshot(); symlink("tree", "dirlink"); all = snapshot();
    for (auto& kv : all) for (bool absolute : {false, true})
    {
        std::string p = absolute ? scratch + "/" + kv.first : kv.first; struct stat st; bool ok = stat(p.c_str(), &st) == 0;
        VP_CHECK(fs::isfile(p) == (ok && S_ISREG(st.st_mode)), "isfile", "isfile('%s') is %d, mode %o", p.c_str(), int(fs::isfile(p)), ok ? st.st_mode : 0); VP_CHECK(fs::isdir(p) == (ok && S_ISDIR(st.st_mode)), "isdir", "isdir('%s') is %d, mode %o", p.c_str(), int(fs::isdir(p)), ok ? st.st_mode : 0); vp::observe("type-query");
        if (ok && S_ISDIR(st.st_mode))
        {
            std::vector<std::string> want; if (auto d = opendir(p.c_str())) { while (auto e = readdir(d)) if (e->d_name[0] != '.') want.push_back(e->d_name); closedir(d); }
            auto got = fs::listdir(p); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); VP_CHECK(got == want, "listdir", "listing of '%s' has %zu entries, want %zu", p.c_str(), got.size(), want.size()); vp::observe("listing");
        }
        else VP_CHECK(vp::throws([&] { fs::listdir(p); }), "listdir-not-a-directory", "listing '%s' did not throw", p.c_str());
    }
    for (auto p : {"missing", "missing/deeper", "/dev/null", "plain/impossible", ""}) { struct stat st; bool ok = stat(p, &st) == 0; VP_CHECK(fs::isfile(p) == (ok && S_ISREG(st.st_mode)) && fs::isdir(p) == (ok && S_ISDIR(st.st_mode)), "type-query", "'%s'", p); VP_CHECK(vp::throws([&] { fs::listdir(p); }), "listdir-not-a-directory", "listing '%s' did not throw", p); }
    int fds = 0; if (auto d = opendir("/proc/self/fd")) { while (readdir(d)) ++fds; closedir(d); } VP_CHECK(fds < 100, "descriptor-leak", "%d descriptors open", fds);
    vp::signature(sig);
}
VP_SECTION("paths", 20000, 400000)
{
    std::vector<std::string> parts; int n = rng.range(1, 7); for (int i = 0; i < n; ++i) parts.push_back(rng.chance(0.15) ? "" : name(rng));
    std::string p; for (int i = 0; i < n; ++i) p += (i ? "/" : "") + parts[i]; vp::context(p);
    VP_CHECK(fs::split(p) == parts, "split", "split('%s') has %zu components, want %zu", p.c_str(), fs::split(p).size(), parts.size()); VP_CHECK(fs::join(parts) == p, "join", "join gives '%s'", fs::join(parts).c_str()); VP_CHECK(fs::join(fs::split(p)) == p, "join-split", "'%s'", p.c_str());
    VP_CHECK(fs::join(std::string("a"), std::string("b"), p) == "a/b/" + p, "join-variadic", "'%s'", p.c_str());
    VP_CHECK(fs::join(std::vector<std::string>{}) == "", "join-nothing", "join of nothing");
    auto leaf = name(rng); VP_CHECK(fs::parent(fs::join(p, leaf)) == p, "parent", "parent of '%s' is '%s'", fs::join(p, leaf).c_str(), fs::parent(fs::join(p, leaf)).c_str());
    auto dot = leaf.rfind('.'); if (leaf[0] != '.' && leaf != "..") { std::string want = dot == std::string::npos ? "" : leaf.substr(dot); VP_CHECK(fs::extension(fs::join(p, leaf)) == want && fs::extension(leaf) == want, "extension", "extension of '%s' is '%s'", fs::join(p, leaf).c_str(), fs::extension(fs::join(p, leaf)).c_str()); }
    VP_CHECK(fs::extension(fs::join(p, leaf)) == fs::extension(leaf), "extension", "extension of '%s' is '%s', of its last component '%s'", fs::join(p, leaf).c_str(), fs::extension(fs::join(p, leaf)).c_str(), fs::extension(leaf).c_str());
    vp::observe("path"); vp::signature(p);
}
int main(int argc, const char* argv[])
{
    char t[] = "/tmp/vp_fs_XXXXXX"; if (! mkdtemp(t)) { std::perror("mkdtemp"); return 3; }
    chmod(t, 0755); char b[PATH_MAX]; if (! realpath(t, b)) return 3; scratch = b;
    vp::line("{\"note\": \"scratch\"}");         // opens the log before privileges are dropped
    if (geteuid() == 0) { if (chown(t, 65534, 65534) == 0) { setgroups(0, nullptr); if (setgid(65534) || setuid(65534)) std::perror("setuid"); } }
    if (chdir(t)) return 3;
    int rc = vp::main(argc, argv);
    chdir("/tmp"); wipe(scratch); return rc;
}
