// Oracle for the framing of stat input (C16)
#include <boost/config.hpp>
#undef BOOST_NOEXCEPT
#define BOOST_NOEXCEPT
#include <boost/checked_delete.hpp>
#undef BOOST_NOEXCEPT
#define BOOST_NOEXCEPT noexcept
#include <sstream>
#include <list>
#include <map>
#include <vector>
#include <string>
#include <tr1/unordered_map>
#include <boost/asio.hpp>
#include <boost/bind/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/signals2.hpp>
#include <boost/lexical_cast.hpp>
#include "vh.h"
// the framing template is local to StatServer.cpp: take that part of the file as it is, under other names
#define STAT_SERVER_TEST_ONLY
#define test_handleInputData vh_test1
#define test_to_double vh_test2
#define test_to_time_t vh_test3
#define test_to_size_t vh_test4
#define to_double vh_to_double
#define to_time_t vh_to_time_t
#define to_size_t vh_to_size_t
#define debugUdp vh_debugUdp
#define debugTcp vh_debugTcp
#include "daemon/IComplete.h"
#include "daemon/StatServer.cpp"
typedef std::string S;
struct Seen { S consumed; std::vector<S> lines; size_t pos; int blackAt; };
struct Eat { Seen *s; S const *in; void operator()(size_t n) const { VH_REQUIRE(n <= in->size() - s->pos, "consumes %zu of %zu left", n, in->size() - s->pos); s->pos += n; } };
struct Run { Seen *s; StatServer::HandleStatus operator()(S const &l) const { s->lines.push_back(l); return (int)s->lines.size() == s->blackAt ? StatServer::HandleBlacklisted : StatServer::HandleSuccess; } };
static void framing(Case const &c) {
    S in = c.s("text"); Seen all; all.blackAt = (int)c.i("black"); S buf; std::vector<S> got, want; size_t at = 0; uint64_t seed = c.i("seed"); Rng r(seed);
    std::vector<S> lines; S cur; for (size_t i = 0; i < in.size(); ++i) if (in[i] == '\n') { lines.push_back(cur); cur.clear(); } else cur += in[i];
    if (all.blackAt) {   // one read
        all.pos = 0; Eat e = { &all, &in }; Run h = { &all }; handle_inputData(in, e, h);
        want.assign(lines.begin(), lines.begin() + std::min(lines.size(), (size_t)all.blackAt)); VH_REQUIRE(all.lines == want, "%zu commands run, want %zu", all.lines.size(), want.size()); VH_REQUIRE(all.pos == in.size() - cur.size(), "%zu bytes consumed, want %zu", all.pos, in.size() - cur.size()); return;
    }
    while (at < in.size()) {   // reads of any size
        size_t n = std::min(in.size() - at, (size_t)r.range(1, 12)); buf += in.substr(at, n); at += n;
        Seen s; s.blackAt = 0; s.pos = 0; Eat e = { &s, &buf }; Run h = { &s }; handle_inputData(buf, e, h); VH_REQUIRE(s.pos <= buf.size(), "consumed too much"); buf.erase(0, s.pos); got.insert(got.end(), s.lines.begin(), s.lines.end());
    }
    VH_REQUIRE(got == lines, "%zu commands run, want %zu", got.size(), lines.size()); VH_REQUIRE(buf == cur, "%zu bytes are left, want %zu", buf.size(), cur.size());
}
void vh_gen(S const &p, Rng &r, Case &c, uint64_t n) {
    S s; for (int k = r.range(0, 40); k > 0; --k) s += r.chance(20) ? '\n' : r.chance(5) ? '\r' : r.chance(5) ? '\0' : (char)r.range(97, 122);
    c.set("kind", "framing"); c.set("text", s); c.setn("seed", r.range(0, 1 << 30)); c.setn("black", r.chance(40) ? r.range(1, 5) : 0);
}
void vh_run(S const &p, Case const &c) { framing(c); }
