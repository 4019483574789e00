// Oracles for flush requests (C29) and the ten-second window of an agent (C30)
// IStatStore.h befriends boost::checked_delete without its exception specification
#include <boost/config.hpp>
#undef BOOST_NOEXCEPT
#define BOOST_NOEXCEPT
#include <boost/checked_delete.hpp>
#undef BOOST_NOEXCEPT
#define BOOST_NOEXCEPT noexcept
#include <sstream>
#include <list>
#include <map>
#include <vector>
#include <string>
#include <tr1/unordered_map>
#include <boost/asio.hpp>
#include <boost/bind/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/signals2.hpp>
#include "vh.h"
#define private public
#define protected public
#include "daemon/IComplete.h"
#include "daemon/StatServer.h"
#include "daemon/Bucketizer.h"
#undef private
#undef protected
typedef int64_t L; typedef std::string S;
static std::vector<L> nums(S const &s) { std::vector<L> v; std::stringstream ss(s); L x; while (ss >> x) v.push_back(x); return v; }
// ---- C29
struct Once : public IComplete { int n; Once() : n(0) {} void on_complete() { ++n; } };
static void flushes(Case const &c) {
    std::vector<L> ops = nums(c.s("ops")); Once once; std::map<size_t, size_t> left;
    {
        AgentFlushRequest r(&once);
        for (size_t i = 0; i + 2 < ops.size(); i += 3) {
            size_t ix = ops[i + 1], n = ops[i + 2]; bool g = false;
            if (ops[i] == 0) { r.add(ix, n); left[ix] = n; g = r.completed(); } else { g = r.completed(ix, n); if (left.count(ix)) left[ix] -= std::min(left[ix], n); }
            bool w = true; for (std::map<size_t, size_t>::iterator k = left.begin(); k != left.end(); ++k) if (k->second) w = false;
            VH_REQUIRE(g == w, "step %zu: the request is %s, want %s", i / 3, g ? "complete" : "incomplete", w ? "complete" : "incomplete"); VH_REQUIRE(once.n == 0, "completed while it exists");
        }
    }
    VH_REQUIRE(once.n == 1, "completion is reported %d times", once.n);
}
// ---- C30
static void window(Case const &c) {
    time_t t0 = c.i("now"); std::vector<L> ts = nums(c.s("times")); L now = t0 - t0 % 10; L cnt[5] = { 0 }; double sum[5] = { 0 }; bool w = c.i("with") && !ts.empty();
    if (w && !(ts[0] - ts[0] % 10 >= now - 30 && ts[0] - ts[0] % 10 <= now + 10)) w = false;
    istat::Bucket f(1, 1, 1, 1, 1, w ? ts[0] : 0); Bucketizer z = w ? Bucketizer(t0, f) : Bucketizer(t0); if (w) { L k = (ts[0] - ts[0] % 10 - now) / 10 + 3; ++cnt[k]; sum[k] += 1; }
    for (size_t i = w; i < ts.size(); ++i) {
        L t = ts[i]; float v = (float)(i + 1); istat::Bucket b(v, v * v, v, v, 1, t); z.update(b); L k = (t - t % 10 - now) / 10 + 3; bool in = k >= 0 && k < 5;
        if (in) { ++cnt[k]; sum[k] += v; } VH_REQUIRE(z.getUpdateErrMsg().empty() == in, "a sample at %lld with the window at %lld is %s", (long long)t, (long long)now, in ? "refused" : "accepted");
        for (int j = 0; j < 5; ++j) VH_REQUIRE(z.get(j).count() == cnt[j] && (!cnt[j] || z.get(j).sum() == sum[j]), "after a sample at %lld (window %lld) bucket %d holds %d samples, want %lld", (long long)t, (long long)now, j, z.get(j).count(), (long long)cnt[j]);
    }
}
static S str(L v) { std::stringstream s; s << v; return s.str(); }
void vh_gen(S const &p, Rng &r, Case &c, uint64_t n) {
    S s; int k = r.range(1, 30);
    if (p == "C29") { c.set("kind", "flushes"); for (int i = 0; i < k; ++i) s += str(r.range(0, 1)) + " " + str(r.range(0, r.chance(90) ? 3 : 40)) + " " + str(r.chance(20) ? 0 : r.range(0, r.chance(50) ? 5 : 5000)) + " "; c.set("ops", s); }
    else if (p == "C30") { c.set("kind", "window"); L now = r.range(1000, 2000000000); c.setn("now", now); for (int i = 0; i < k; ++i) s += str(r.chance(85) ? now + r.range(-50, 40) : r.chance(50) ? now + (r.range(-3, 3) << 32) * 10 + r.range(-40, 40) : r.range(0, 2000000000)) + " "; c.set("times", s); c.setn("with", r.range(0, 1)); }
}
void vh_run(S const &p, Case const &c) { S k = c.s("kind"); if (k == "flushes") flushes(c); else if (k == "window") window(c); }
