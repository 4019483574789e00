// Native harness frame: replays one case, or searches over seeded cases, against the real code compiled from /repo.
#ifndef VH_H
#define VH_H
#include <string>
#include <map>
#include <vector>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Case {
    std::map<std::string, std::string> m;
    static std::string enc(std::string const &v) {
        std::string o; char b[4];
        for (size_t i = 0; i < v.size(); ++i) { unsigned char c = v[i];
            if (c > 32 && c < 127 && c != '%') o += (char)c; else { snprintf(b, 4, "%%%02x", c); o += b; } }
        return o;
    }
    static std::string dec(std::string const &v) {
        std::string o;
        for (size_t i = 0; i < v.size(); ++i) if (v[i] == '%' && i + 2 < v.size() + 0 && i + 2 <= v.size() - 1) { o += (char)strtol(v.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += v[i];
        return o;
    }
    bool has(char const *k) const { return m.count(k) > 0; }
    std::string s(char const *k, char const *d = "") const { std::map<std::string, std::string>::const_iterator i = m.find(k); return i == m.end() ? std::string(d) : i->second; }
    int64_t i(char const *k, int64_t d = 0) const { return has(k) ? strtoll(s(k).c_str(), 0, 0) : d; }
    double d(char const *k, double dd = 0) const { return has(k) ? strtod(s(k).c_str(), 0) : dd; }
    void set(char const *k, std::string const &v) { m[k] = v; }
    void set(char const *k, char const *v) { m[k] = v; }
    void setn(char const *k, int64_t v) { char b[32]; snprintf(b, 32, "%lld", (long long)v); m[k] = b; }
    void setd(char const *k, double v) { char b[64]; snprintf(b, 64, "%a", v); m[k] = b; }
    std::string text() const { std::string o; for (std::map<std::string, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) o += i->first + "=" + enc(i->second) + "\n"; return o; }
    void parse(std::string const &t) { std::istringstream is(t); std::string l; while (std::getline(is, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find('='); if (p != std::string::npos) m[l.substr(0, p)] = dec(l.substr(p + 1)); } }
};

// to be defined by each harness
void vh_gen(std::string const &prop, Rng &r, Case &c, uint64_t n);
void vh_run(std::string const &prop, Case const &c);

struct VhShared { uint64_t evals, distinct; char msg[2048]; uint32_t len; char cur[1 << 20]; char samples[3][1500]; };
static VhShared *vh_sh;
static std::string vh_scratch;

static void vh_fail(char const *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(vh_sh->msg, sizeof(vh_sh->msg), fmt, ap); va_end(ap);
    _exit(3);
}
#define VH_REQUIRE(c, ...) do { if (!(c)) vh_fail(__VA_ARGS__); } while (0)

static void vh_hang(int) { strcpy(vh_sh->msg, "no termination (CPU limit of the case)"); _exit(4); }
static void vh_arm(int secs) { struct itimerval t; memset(&t, 0, sizeof(t)); t.it_value.tv_sec = secs; signal(SIGPROF, vh_hang); setitimer(ITIMER_PROF, &t, 0); }

static void vh_rmtree(std::string const &d) {
    if (d.compare(0, 9, "/tmp/vh-v") != 0 || d.find("..") != std::string::npos) return;      // only our own scratch directory
    DIR *dp = opendir(d.c_str()); if (!dp) return;
    while (struct dirent *e = readdir(dp)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) vh_rmtree(p); else unlink(p.c_str()); }
    closedir(dp); rmdir(d.c_str());
}
static std::string vh_dir() {       // scratch directory of this process, emptied by the parent
    return vh_scratch;
}
static void vh_clean() { std::string d = vh_scratch; DIR *dp = opendir(d.c_str()); if (!dp) return;
    while (struct dirent *e = readdir(dp)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) vh_rmtree(p); else unlink(p.c_str()); } closedir(dp); }

static double vh_now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }

int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: search PROP SEED SECONDS OUT | replay PROP FILE\n"); return 2; }
    std::string mode = argv[1], prop = argv[2];
    vh_sh = (VhShared *)mmap(0, sizeof(VhShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/vh-vXXXXXX"; vh_scratch = mkdtemp(tmpl);
    Case single; std::string out;
    if (mode == "replay") { std::ifstream f(argv[3]); std::stringstream ss; ss << f.rdbuf(); single.parse(ss.str()); }
    uint64_t seed = mode == "search" ? strtoull(argv[3], 0, 10) : 0; double secs = mode == "search" && argc > 4 ? atof(argv[4]) : 0;
    if (argc > 5) out = argv[5];
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("VH_VERBOSE")) dup2(nul, 2);
        if (mode == "replay") { std::string t = single.text(); vh_sh->len = t.size() < sizeof(vh_sh->cur) ? t.size() : 0; memcpy(vh_sh->cur, t.data(), vh_sh->len); vh_arm(20); vh_run(prop, single); vh_sh->evals = 1; _exit(0); }
        int vh_fd0 = dup(1); close(vh_fd0); double end = vh_now() + secs; Rng top(seed ? seed : 1); std::set<uint64_t> seen;
        for (uint64_t n = 0; vh_now() < end; ++n) {
            Rng r(top.next() ^ n); Case c; vh_gen(prop, r, c, n);
            std::string t = c.text(); vh_sh->len = t.size() < sizeof(vh_sh->cur) ? t.size() : 0; memcpy(vh_sh->cur, t.data(), vh_sh->len);
            if (n % 16 == 0 || n < 4) vh_arm(20);
            vh_run(prop, c);
#ifdef VH_CLOSEFDS
            for (int fd = vh_fd0; fd < vh_fd0 + 64; ++fd) close(fd);          // the code leaks the descriptor of a file it refuses to create
#endif
            ++vh_sh->evals;
            uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < t.size(); ++i) h = (h ^ (unsigned char)t[i]) * 1099511628211ULL;
            if (seen.size() < 2000000 && seen.insert(h).second) { if (vh_sh->distinct < 3) { snprintf(vh_sh->samples[vh_sh->distinct], sizeof(vh_sh->samples[0]), "%s", t.c_str()); } ++vh_sh->distinct; }
        }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    int rc = 0; std::string msg = vh_sh->msg;
    if (WIFSIGNALED(st)) { rc = 3; char b[64]; snprintf(b, 64, "crash: signal %d", WTERMSIG(st)); msg = b; }
    else if (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4) rc = 3;
    else if (WEXITSTATUS(st) == 99) { rc = 3; msg = "memory error (AddressSanitizer)"; }
    else if (WEXITSTATUS(st) != 0) { rc = 3; char b[64]; snprintf(b, 64, "abnormal exit status %d", WEXITSTATUS(st)); msg = b; }
    for (size_t i = 0; i < msg.size(); ++i) if (msg[i] == '\n' || msg[i] == '"' || msg[i] == '\\' || (unsigned char)msg[i] < 32 || (unsigned char)msg[i] > 126) msg[i] = ' ';
    if (rc == 3 && mode == "search" && !out.empty()) { std::ofstream f(out.c_str()); f << "# " << msg << "\n"; f.write(vh_sh->cur, vh_sh->len); }
    printf("{\"evals\": %llu, \"distinct\": %llu, \"violation\": %s, \"msg\": \"%s\", \"samples\": [", (unsigned long long)vh_sh->evals, (unsigned long long)vh_sh->distinct, rc ? "true" : "false", msg.c_str());
    for (int i = 0; i < 3 && i < (int)vh_sh->distinct; ++i) { std::string o; for (char *p = vh_sh->samples[i]; *p; ++p) { if (*p == '\n') o += ' '; else if (*p == '"' || *p == '\\') { o += '\\'; o += *p; } else if ((unsigned char)*p >= 32 && (unsigned char)*p < 127) o += *p; } printf("%s\"%s\"", i ? ", " : "", o.c_str()); }
    printf("]}\n");
    vh_rmtree(vh_scratch);
    return rc;
}
#endif
