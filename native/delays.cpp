// Oracle for retry delays (C28); what touches boost::asio is in delays98.cpp, whose layouts are those of the code under test
#include <sstream>
#include <vector>
#include <string>
#include "vh.h"
typedef int64_t L; typedef std::string S;
static std::vector<L> nums(S const &s) { std::vector<L> v; std::stringstream ss(s); L x; while (ss >> x) v.push_back(x); return v; }
// ---- C28: a history of failures (0), the delay running out (1) and successful writes (2)
extern "C" { void *conn_new(unsigned); void conn_del(void *); void conn_fail(void *); void conn_wrote(void *); void conn_due(void *); int conn_pending(void *); int conn_delay(void *); long conn_wait(void *); }
static void delays(Case const &c) {
    std::vector<L> ops = nums(c.s("ops")); struct Own { void *p; ~Own() { conn_del(p); } } own = { conn_new((unsigned)c.i("seed")) }; void *e = own.p; int b = conn_delay(e), writes = 1; bool pending = conn_pending(e); VH_REQUIRE(b == 1 && !pending, "a new connection starts with a delay of %d", b);
    for (size_t i = 0; i < ops.size(); ++i) {
        if (ops[i] == 0) {
            conn_fail(e); writes = 1; int n = conn_delay(e);
            if (pending) VH_REQUIRE(n == b, "the delay changes from %d to %d while an attempt is pending", b, n);
            else {
                int base = std::min(180, (int)((b + 1) * 1.5)), top = base + (base < 30 ? 3 : 15); VH_REQUIRE(n >= base && n <= top && n <= 195, "step %zu: the delay goes from %d to %d, want %d to %d", i, b, n, base, top);
                long w = conn_wait(e); VH_REQUIRE(w <= n * 1000 && w > n * 1000 - 2000, "step %zu: waits %ld ms for a delay of %d", i, w, n); b = n; pending = true;
            }
            VH_REQUIRE(conn_pending(e), "no attempt is pending after a failure");
        } else if (ops[i] == 1) { conn_due(e); pending = false; }
        else { conn_wrote(e); if (b != 1) { ++writes; if (writes > 3) b = 1; } VH_REQUIRE(conn_delay(e) == b, "step %zu: the delay is %d after a successful write, want %d", i, conn_delay(e), b); }
    }
}
void vh_gen(S const &p, Rng &r, Case &c, uint64_t n) {
    S s; int k = r.range(1, 30);
    if (p == "C28") { c.set("kind", "delays"); c.setn("seed", r.range(0, 1000000)); bool f = r.chance(60); for (int i = 0; i < k; ++i) s += f ? (r.chance(20) ? "2 " : "0 1 ") : r.chance(40) ? "0 " : r.chance(40) ? "1 " : "2 "; c.set("ops", s); }
}
void vh_run(S const &p, Case const &c) { delays(c); }
