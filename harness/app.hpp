// Runs the real application as a child process in a scratch folder, and reads
// the HDF5 files it leaves behind with the C library (never with the code
// under test).
#pragma once
#include <algorithm>
#include <fstream>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
#include <hdf5.h>
#include "vp.hpp"

namespace app
{
    using args_t = std::vector<std::string>;
    // a child forked while another thread reads a file inherits that file's lock: take none
    static const int no_locks_here = setenv("HDF5_USE_FILE_LOCKING", "FALSE", 1);

    inline std::string slurp(const std::string& p) { std::ifstream f(p); return std::string(std::istreambuf_iterator<char>(f), {}); }

    inline std::string workdir() { const char* w = std::getenv("VP_WORK"); return w ? w : "/tmp"; }

    inline std::string new_dir(const std::string& tag)
    {
        static std::mutex m; static int n = 0; std::lock_guard<std::mutex> lock(m);
        auto d = workdir() + "/" + tag + "_" + std::to_string(n++); mkdir(d.c_str(), 0755); return d;
    }
    inline void remove_tree(const std::string& p)
    {
        struct stat st; if (lstat(p.c_str(), &st)) return;
        if (S_ISDIR(st.st_mode)) { if (auto d = opendir(p.c_str())) { std::vector<std::string> n; while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") n.push_back(s); } closedir(d); for (auto& s : n) remove_tree(p + "/" + s); } ::rmdir(p.c_str()); }
        else ::unlink(p.c_str());
    }
    inline std::vector<std::string> files(const std::string& dir)
    {
        std::vector<std::string> r; if (auto d = opendir(dir.c_str())) { while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != ".." && s != "stdout" && s != "stderr") r.push_back(s); } closedir(d); }
        std::sort(r.begin(), r.end()); return r;
    }
    inline bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }

    struct result_t
    {
        int status = -1; bool signalled = false; bool timed_out = false; std::string out, err;
        bool ok() const { return ! timed_out && ! signalled && status == 0; }
        std::string describe() const { auto e = err.size() > 700 ? err.substr(0, 700) : err; return timed_out ? "did not finish" : vp::fmt("%s %d: %s", signalled ? "signal" : "exit status", status, e.c_str()); }
    };

    // `variant` names the build: PLAIN, ASAN, TSAN
    inline result_t run(const args_t& args, const std::string& dir, const char* variant="PLAIN", double limit=120, const std::vector<std::string>& env={}, long kill_after_bytes=0)
    {
        const char* exe = std::getenv((std::string("VP_APP_") + variant).c_str());
        result_t r; if (! exe) { r.err = "no application"; return r; }
        static std::atomic<int> serial {0}; auto tag = std::to_string(serial++); auto so = dir + "/stdout", se = dir + "/stderr"; auto tmp = workdir() + "/t" + tag; mkdir(tmp.c_str(), 0700); // a session folder of its own: concurrent MPI programs race to create a shared one
        std::vector<std::string> vars; for (char** e = environ; *e; ++e) { std::string v = *e, name = v.substr(0, v.find('=') + 1); bool keep = name != "TMPDIR="; for (auto& kv : env) if (kv.compare(0, name.size(), name) == 0) keep = false; if (keep) vars.push_back(v); } for (auto& kv : env) vars.push_back(kv); vars.push_back("TMPDIR=" + tmp);
        std::vector<char*> envp; for (auto& v : vars) envp.push_back(const_cast<char*>(v.c_str())); envp.push_back(nullptr);
        std::vector<std::string> all = {exe}; all.insert(all.end(), args.begin(), args.end()); std::vector<char*> argv; for (auto& a : all) argv.push_back(const_cast<char*>(a.c_str())); argv.push_back(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0); if (chdir(dir.c_str())) _exit(125); int o = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(o, 1); dup2(e, 2); for (int fd = 3; fd < 256; ++fd) close(fd);
            execve(exe, argv.data(), envp.data()); _exit(126);
        }
        auto t0 = std::chrono::steady_clock::now(); int st = 0;
        while (true)
        {
            pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); r.timed_out = true; break; }
            usleep(1000);
        }
        r.signalled = WIFSIGNALED(st); r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st); r.out = slurp(so); r.err = slurp(se); remove_tree(tmp); vp::observe("program-run"); return r;
    }

    // run the jobs on all cores; results in order
    template<typename F> void parallel(std::size_t n, F f, unsigned workers=8)
    {
        std::atomic<std::size_t> next {0}; std::vector<std::thread> t; workers = unsigned(std::min<std::size_t>(workers, n));
        for (unsigned i = 0; i < workers; ++i) t.emplace_back([&] { while (true) { auto k = next++; if (k >= n) break; f(k); } }); for (auto& x : t) x.join();
    }

    //-------------------------------------------------------------------------
    inline std::mutex& h5lock() { static std::mutex m; return m; }
    struct object_t { char kind = 0; std::vector<unsigned long> dims; int type_class = -1; std::size_t type_size = 0; std::string bytes; };
    using file_t = std::map<std::string, object_t>;

    inline void visit_h5(hid_t loc, const std::string& prefix, file_t& out)
    {
        H5G_info_t info; if (H5Gget_info(loc, &info) < 0) { out["!error"] = {}; return; }
        for (hsize_t i = 0; i < info.nlinks; ++i)
        {
            char name[2048]; if (H5Lget_name_by_idx(loc, ".", H5_INDEX_NAME, H5_ITER_INC, i, name, sizeof name, H5P_DEFAULT) < 0) { out["!error"] = {}; continue; }
            hid_t o = H5Oopen(loc, name, H5P_DEFAULT); if (o < 0) { out["!error"] = {}; continue; } std::string path = prefix + "/" + name; object_t ob;
            if (H5Iget_type(o) == H5I_GROUP) { ob.kind = 'g'; out[path] = ob; visit_h5(o, path, out); }
            else if (H5Iget_type(o) == H5I_DATASET)
            {
                ob.kind = 'd'; hid_t t = H5Dget_type(o), s = H5Dget_space(o); ob.type_class = int(H5Tget_class(t)); ob.type_size = H5Tget_size(t); int rank = H5Sget_simple_extent_ndims(s); std::vector<hsize_t> d(std::max(rank, 1)); if (rank > 0) H5Sget_simple_extent_dims(s, d.data(), nullptr); d.resize(std::max(rank, 0)); ob.dims.assign(d.begin(), d.end());
                hssize_t n = H5Sget_simple_extent_npoints(s); ob.bytes.resize(std::max<hssize_t>(n, 0) * ob.type_size);
                if (n > 0) { hid_t nt = H5Tget_native_type(t, H5T_DIR_DEFAULT); if (H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &ob.bytes[0]) < 0) ob.kind = '!'; if (nt >= 0) H5Tclose(nt); }
                H5Tclose(t); H5Sclose(s); out[path] = ob;
            }
            H5Oclose(o);
        }
    }
    inline bool load(const std::string& path, file_t& out)
    {
        std::lock_guard<std::mutex> lock(h5lock()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); out.clear();
        hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) return false; visit_h5(f, "", out); H5Fclose(f); vp::observe("file-read"); return ! out.count("!error");
    }
    inline std::vector<double> doubles(const file_t& f, const std::string& path)
    {
        auto it = f.find(path); if (it == f.end() || it->second.kind != 'd') return {}; auto& b = it->second.bytes; std::vector<double> v(b.size() / 8); std::memcpy(v.data(), b.data(), v.size() * 8); return v;
    }
    inline double scalar(const file_t& f, const std::string& path) { auto v = doubles(f, path); return v.size() == 1 ? v[0] : NAN; }
    inline int integer(const file_t& f, const std::string& path) { auto it = f.find(path); if (it == f.end() || it->second.bytes.size() < 4) return -1; int i; std::memcpy(&i, it->second.bytes.data(), 4); return i; }
    inline std::string text(const file_t& f, const std::string& path) { auto it = f.find(path); return it == f.end() ? "" : std::string(it->second.bytes.c_str()); }
    inline std::vector<int> integers(const file_t& f, const std::string& path) { auto it = f.find(path); if (it == f.end()) return {}; std::vector<int> v(it->second.bytes.size() / 4); std::memcpy(v.data(), it->second.bytes.data(), v.size() * 4); return v; }
    // the doubles of one member (at a byte offset) of a compound dataset
    inline std::vector<double> member(const std::string& path, const std::string& dataset, const std::string& field)
    {
        std::lock_guard<std::mutex> lock(h5lock()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); std::vector<double> v; hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) return v;
        hid_t d = H5Dopen2(f, dataset.c_str(), H5P_DEFAULT); if (d >= 0) { hid_t t = H5Dget_type(d), s = H5Dget_space(d); hssize_t n = H5Sget_simple_extent_npoints(s); int i = H5Tget_member_index(t, field.c_str()); if (i >= 0 && n > 0) { std::size_t off = H5Tget_member_offset(t, i), sz = H5Tget_size(t); hid_t mt = H5Tget_member_type(t, i); std::size_t ms = H5Tget_size(mt); H5Tclose(mt); std::string b(n * sz, 0); H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &b[0]); for (hssize_t k = 0; k < n; ++k) for (std::size_t m = 0; m + 8 <= ms; m += 8) { double x; std::memcpy(&x, b.data() + k * sz + off + m, 8); v.push_back(x); } } H5Tclose(t); H5Sclose(s); H5Dclose(d); }
        H5Fclose(f); return v;
    }
    // first difference between two files, or "" (paths starting with one of `ignore` are skipped)
    inline std::string difference(const file_t& a, const file_t& b, const std::vector<std::string>& ignore={})
    {
        auto skip = [&] (const std::string& p) { for (auto& i : ignore) if (p.compare(0, i.size(), i) == 0) return true; return false; };
        for (auto& kv : a) { if (skip(kv.first)) continue; auto it = b.find(kv.first); if (it == b.end()) return kv.first + " is missing"; auto& x = kv.second; auto& y = it->second; if (x.kind != y.kind || x.type_class != y.type_class || x.type_size != y.type_size || x.dims != y.dims) return kv.first + " has another type or shape"; if (x.bytes != y.bytes) { std::size_t i = 0; while (x.bytes[i] == y.bytes[i]) ++i; double p = 0, q = 0; if (i / 8 * 8 + 8 <= x.bytes.size()) { std::memcpy(&p, &x.bytes[i / 8 * 8], 8); std::memcpy(&q, &y.bytes[i / 8 * 8], 8); } return kv.first + vp::fmt(" differs at byte %zu of %zu (%.17g, %.17g as double)", i, x.bytes.size(), p, q); } }
        for (auto& kv : b) if (! skip(kv.first) && ! a.count(kv.first)) return kv.first + " is extra";
        return "";
    }
    inline std::string joined(const args_t& a) { std::string s; for (auto& x : a) s += x + " "; return s; }
    inline std::string numbered(const std::string& dir, const char* prefix, int n) { return dir + "/" + vp::fmt("%s.%04d.h5", prefix, n); }
    // names like prefix.0003.h5 -> 3, sorted
    inline std::vector<int> numbers(const std::string& dir, const std::string& prefix)
    {
        std::vector<int> r; for (auto& f : files(dir)) { if (f.size() == prefix.size() + 8 && f.compare(0, prefix.size() + 1, prefix + ".") == 0 && f.substr(f.size() - 3) == ".h5") r.push_back(std::atoi(f.substr(prefix.size() + 1, 4).c_str())); } return r;
    }
}
