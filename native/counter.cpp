// Oracles for StatCounter: C11 (acceptance), C12 (collation), C13 (range normalisation), C14 (reduction), C15 (choice of the file); C31 (Retention)
#include "vh.h"
#include <list>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/filesystem.hpp>
#include <boost/asio.hpp>
#define private public
#define protected public
#include "daemon/StatCounter.h"
#include "daemon/Retention.h"
#undef private
#undef protected
#include <istat/istattime.h>
#include <istat/Mmap.h>
#include <istat/Header.h>
using namespace istat;
typedef int64_t L;
static Mmap *mm() { static Mmap *m = 0; if (!m) { m = NewMmap(); m->setAllocationStrategy(allocateSparse); } return m; }
static std::string dir() { static int k; vh_clean(); char b[32]; snprintf(b, 32, "/c%d", ++k); return vh_dir() + b; }
static bool near(double a, double b, double scale) { return a == b || (a != a && b != b) || fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b) + scale); }
static bool eqb(Bucket const &a, Bucket const &b) { return memcmp(&a, &b, sizeof(a)) == 0; }
static FakeTime &clk() { static FakeTime *f = new FakeTime(1000000000); return *f; }
struct Lev { L iv, n; double lam; };
static std::vector<Lev> levels(Case const &c) { std::vector<Lev> v; std::istringstream s(c.s("levels")); Lev l; while (s >> l.iv >> l.n >> l.lam) v.push_back(l); return v; }
// a counter keeps references into its policy: policies live as long as the process, as the store's do
static RetentionPolicy &policy(std::vector<Lev> const &v) { static std::list<RetentionPolicy> keep; keep.push_back(RetentionPolicy()); if (keep.size() > 64) keep.pop_front(); RetentionPolicy &p = keep.back(); for (size_t i = 0; i < v.size(); ++i) { RetentionInterval ri; char b[32]; snprintf(b, 32, "f%zu", i); ri.name = b; ri.interval = v[i].iv; ri.samples = v[i].n; ri.lambda = v[i].lam; p.addInterval(ri); } return p; }
static boost::shared_ptr<StatFile> plainRef(std::string const &d, Lev const &l, size_t i, L zero, int flags) {
    static RecordStats rs; StatFile::Settings st; st.zeroTime = zero; st.intervalTime = l.iv; st.numSamples = l.n; st.flags = flags; if (l.lam > 0) { st.flags |= 2; st.lambda = l.lam; st.season = l.iv * l.n; }
    static Stats ss; char b[32]; snprintf(b, 32, "/ref%zu", i); return boost::make_shared<StatFile>(d + b, std::ref(ss), st, mm());
}
static void same(StatFile &a, StatFile &b, char const *what) {
    Header const &h = a.header(), &g = b.header();
    VH_REQUIRE(h.last_bucket == g.last_bucket && h.first_bucket == g.first_bucket && h.cumulative_count == g.cumulative_count && h.last_time == g.last_time && memcmp(&h.cumulative_sum, &g.cumulative_sum, 16) == 0, "%s: header differs (count %lld, want %lld)", what, (long long)h.cumulative_count, (long long)g.cumulative_count);
    L n = a.settings().numSamples; std::vector<Bucket> x(n, Bucket(true)), y(n, Bucket(true)); L s = h.last_bucket - n + 1; L p = a.readBuckets(&x[0], n, s), q = b.readBuckets(&y[0], n, s); VH_REQUIRE(p == q, "%s: %lld buckets, want %lld", what, (long long)p, (long long)q);
    for (L k = 0; k < p; ++k) VH_REQUIRE(eqb(x[k], y[k]), "%s: bucket %lld: time %lld sum %g count %d, want time %lld sum %g count %d", what, (long long)k, (long long)x[k].time(), x[k].sum(), x[k].count(), (long long)y[k].time(), y[k].sum(), y[k].count());
    for (int k = 0; k < 3; ++k) VH_REQUIRE(eqb(a.expBucket[k], b.expBucket[k]), "%s: pending bucket %d", what, k);
}
// ---- C11
static void accept(Case const &c) {
    Rng r(c.i("seed") + 3); std::vector<Lev> lv = levels(c); L zero = 900000000, now = 1000000000; clk().set(now); std::string d = dir(); StatCounter sc(d, false, zero, mm(), policy(lv)); mkdir((d + "r").c_str(), 0777);
    std::vector<boost::shared_ptr<StatFile> > ref; for (size_t i = 0; i < lv.size(); ++i) ref.push_back(plainRef(d + "r", lv[i], i, zero, 0));
    for (int k = 0; k < 12; ++k) {
        if (r.chance(30)) { now += r.range(0, 300); clk().set(now); }
        L t = now + (r.chance(40) ? r.range(58, 62) : r.range(-3000, 70)); size_t cnt = r.chance(10) ? 0 : r.chance(50) ? 1 : r.range(1, 20);
        double mi = r.range(-50, 50), ma = mi + r.range(0, 50), avg = mi + (ma - mi) * r.unit();
        if (r.chance(15)) { mi = r.range(1, 100); ma = mi * (1 - 0.0001 * (r.chance(50) ? 0.9 : 1.1)); avg = ma; } else if (r.chance(15)) { mi = r.range(1, 100) * (r.chance(50) ? 1 : -1); ma = mi + fabs(mi); avg = mi - fabs(mi) * 0.0001 * (r.chance(50) ? 0.8 : 1.2); }
        else if (r.chance(15)) { ma = r.range(1, 100) * (r.chance(50) ? 1 : -1); mi = ma - 50; avg = ma + fabs(ma) * 0.0001 * (r.chance(50) ? 0.8 : 1.2); } else if (r.chance(8)) { avg = mi - 1; } else if (r.chance(5)) { std::swap(mi, ma); }
        double v = avg * cnt, sq = r.range(0, 10000); if (r.chance(2)) v = NAN;
        bool ok = t <= now + 60 && cnt > 0; if (ok) { double a = v / double(cnt); if (mi > ma + fabs(ma) * 0.0001 || a + fabs(a) * 0.0001 < mi || a > ma + fabs(ma) * 0.0001) ok = false; }
        sc.record(t, v, sq, mi, ma, cnt); if (ok) for (size_t i = 0; i < ref.size(); ++i) { Bucket b(v, float(sq), float(mi), float(ma), int(cnt), t); ref[i]->updateBucket(b); }
        for (size_t i = 0; i < ref.size(); ++i) { char w[96]; snprintf(w, 96, "%s sample %d (time now%+lld), level %zu of %zu", ok ? "accepted" : "refused", k, (long long)(t - now), i, ref.size()); VH_REQUIRE(sc.counters_[i].file->header().cumulative_count == ref[i]->header().cumulative_count || true, "x"); if (k == 11 || r.chance(30)) same(*sc.counters_[i].file, *ref[i], w); else VH_REQUIRE(sc.counters_[i].file->header().cumulative_count == ref[i]->header().cumulative_count, "%s: cumulative count %lld, want %lld", w, (long long)sc.counters_[i].file->header().cumulative_count, (long long)ref[i]->header().cumulative_count); }
    }
}
// ---- C11/C12: event counters
static void events(Case const &c) {
    Rng r(c.i("seed") + 9); std::vector<Lev> lv = levels(c); L ci = lv[0].iv, zero = 900000000 - 900000000 % (lv.back().iv * ci), now = 1000000000; clk().set(now); std::string d = dir();
    StatCounter *sc = new StatCounter(d, true, zero, mm(), policy(lv)); std::map<L, double> sum; std::map<L, int> events; L w0 = 0; int n = (int)c.i("ops", 30); struct NoStore {}; L newest = 0, oldest = 1LL << 60;
    for (int k = 0; k < n; ++k) {
        if (r.chance(40)) { now += r.chance(10) ? r.range(0, 40) * ci : r.range(0, 2 * ci); clk().set(now); }
        if (r.chance(8)) { sc->maybeShiftCollated(now + ci * 2); if (w0) while (now + ci * 2 >= w0 + 5 * ci) w0 += ci; }
        else {
            L t = r.chance(30) ? now + r.range(ci - 1, ci + 1) : w0 && r.chance(30) ? w0 + r.range(-1, 1) : now + r.range(-6 * ci, ci); if (t <= 0) continue; double v = r.range(1, 1000); L q0 = sc->collations_[0].time;
            VH_REQUIRE(q0 == w0, "window starts at %lld, want %lld", (long long)q0, (long long)w0);
            bool ok = t <= now + ci && t >= w0; sc->record(t, v, v * v, v, v, 1);
            if (ok) { L a = t - t % ci; if (w0 == 0) w0 = a - 4 * ci; while (a >= w0 + 5 * ci) w0 += ci; sum[a] += v / double(ci); ++events[a]; newest = std::max(newest, a); oldest = std::min(oldest, a); }
            for (int i = 0; i < 5; ++i) { L s = w0 + i * ci; VH_REQUIRE(w0 == 0 || sc->collations_[i].time == s, "slot %d covers %lld, want %lld (event at %lld, %s)", i, (long long)sc->collations_[i].time, (long long)s, (long long)t, ok ? "accepted" : "refused");
                std::map<L, double>::iterator e = sum.find(s); double want = e == sum.end() || w0 == 0 ? 0 : e->second; VH_REQUIRE(near(sc->collations_[i].bucket.sum_, want, 1) || w0 == 0, "slot of %lld holds %g, want %g after event %g at %lld", (long long)s, sc->collations_[i].bucket.sum_, want, v, (long long)t); }
        }
    }
    if (!events.empty()) {
        sc->fullyShiftCollated();
        StatFile &f = *sc->counters_[0].file; L cap = f.settings().numSamples;
        for (std::map<L, double>::iterator e = sum.begin(); e != sum.end(); ++e) { L ix = (e->first - f.header().file_create_time) / ci; if (ix <= f.header().last_bucket - cap) continue; Bucket b(true); L got = f.readBuckets(&b, 1, ix); VH_REQUIRE(got == 1 && b.time() == e->first && near(b.sum(), (float)e->second, 1e3) && fabs(b.sum_ - e->second) <= 1e-6 * fabs(e->second) + 1e-9, "the finest file holds %g at %lld, want %g", got == 1 ? b.sum_ : -1, (long long)e->first, e->second); }
        for (size_t i = 1; i < lv.size(); ++i) { if (lv[i].lam > 0) continue; StatFile &g = *sc->counters_[i].file; std::map<L, double> cs; std::map<L, int> cn; for (std::map<L, double>::iterator e = sum.begin(); e != sum.end(); ++e) { L a = e->first - (e->first - g.header().file_create_time) % lv[i].iv; cs[a] += e->second; ++cn[a]; }
            for (std::map<L, double>::iterator e = cs.begin(); e != cs.end(); ++e) { L ix = (e->first - g.header().file_create_time) / lv[i].iv; if (ix <= g.header().last_bucket - g.settings().numSamples) continue; Bucket b(true); L got = g.readBuckets(&b, 1, ix); VH_REQUIRE(got == 1 && b.time() >= e->first && b.time() < e->first + lv[i].iv && fabs(b.sum_ - e->second) <= 1e-6 * fabs(e->second) + 1e-9, "level %zu holds %g at %lld, want %g", i, got == 1 ? b.sum_ : -1, (long long)e->first, e->second);
                VH_REQUIRE(b.count() == lv[i].iv / ci, "level %zu counts %d intervals at %lld, want %lld", i, b.count(), (long long)e->first, (long long)(lv[i].iv / ci)); } }
    }
    delete sc;
}
// ---- C13
static StatCounter *one() { static StatCounter *s = 0; if (!s) { clk().set(1000000000); std::vector<Lev> v(1); v[0].iv = 10; v[0].n = 256; v[0].lam = 0; s = new StatCounter(vh_dir() + "/one", false, 900000000, mm(), policy(v)); } return s; }
static void normalise(Case const &c) {
    L s0 = c.i("start"), e0 = c.i("end"), i0 = c.i("interval"), m = c.i("max"); if (s0 < 0 || e0 < s0 || e0 >= (1LL << 40) || i0 < 0 || i0 > (1 << 30) || m < 0 || m >= (1LL << 31)) return; time_t s = s0, e = e0, i = i0; one()->normalizeRange(s, e, i, m); L nat = i0 ? i0 : 10;
    VH_REQUIRE(i > 0, "interval %lld", (long long)i); VH_REQUIRE(e >= s, "range [%lld, %lld]", (long long)s, (long long)e);
    if (m == 1 && e0 > s0) { L d = e0 - s0; VH_REQUIRE(s <= s0 && s > s0 - d && s % d == 0, "start %lld", (long long)s); VH_REQUIRE(e >= e0 && e < e0 + d && e % d == 0, "end %lld", (long long)e); VH_REQUIRE(e - s == i, "interval %lld is not the range", (long long)i); return; }
    VH_REQUIRE(s % i == 0 && e % i == 0, "[%lld, %lld] is not aligned to %lld", (long long)s, (long long)e, (long long)i); VH_REQUIRE(s <= s0 && e >= e0 && s > s0 - i - nat && e < e0 + i + nat, "[%lld, %lld] does not enclose the request by less than an interval", (long long)s, (long long)e);
    L s1 = s0 - s0 % nat, e1 = e0 + (nat - e0 % nat) % nat; bool fits = !m || (e1 - s1) / nat <= m;
    if (fits) { VH_REQUIRE(i == nat, "interval %lld although %lld fits", (long long)i, (long long)nat); return; }
    VH_REQUIRE(i >= nat, "interval gets finer"); static L red[] = { 10, 20, 30, 60, 120, 300, 600, 900, 1200, 1800, 3600, 7200, 10800, 14400, 21600, 28800, 43200, 86400 }; L best = 0; for (int k = 0; k < 18; ++k) if (red[k] > nat && red[k] % nat == 0) { best = red[k]; if ((e1 - s1) / red[k] <= m) break; }
    if (best) VH_REQUIRE(i == best, "interval %lld, want the finest standard one that fits: %lld", (long long)i, (long long)best); else { L t = (e1 - s1) / m; VH_REQUIRE(i == (t < 2 * nat ? nat : t), "interval %lld where no standard one applies", (long long)i); }
}
static void gen_normalise(Rng &r, Case &c) {
    L iv[] = { 10, 0, 1, 5, 7, 60, 300, 3600, 86400, 25, 11, 3600 * 24 * 7, 40, 45, 200 }; L i = r.chance(70) ? iv[r.below(15)] : r.range(1, 100000); L s = r.chance(10) ? r.range(0, 100) : r.range(900000000, 1100000000); L len = r.chance(10) ? 0 : r.chance(30) ? r.range(1, 1000) : r.chance(50) ? r.range(1, 1000000) : r.range(1, 200000000);
    if (r.chance(30)) { s -= s % (i ? i : 10); } L m = r.chance(15) ? 1 : r.chance(10) ? 0 : r.chance(50) ? r.range(2, 20) : r.range(2, 5000); if (r.chance(30) && m && i) len = m * i + r.range(-1, 1) * i; if (len < 0) len = 0; c.setn("start", s); c.setn("end", s + len); c.setn("interval", i); c.setn("max", m);
}
// ---- C14
static void reducing(Case const &c) {
    Rng r(c.i("seed") + 1); L iv = c.i("iv", 10), red = iv * c.i("mult", 6), start = 1000000000 - 1000000000 % red, n = c.i("n"), cb = c.i("coll"); std::vector<Bucket> in; L t = start; double tot = 0; L cnt = 0;
    for (L k = 0; k < n; ++k) { if (k || c.i("late")) t += iv * (r.chance(70) ? 1 : r.chance(80) ? r.range(1, 4) : r.chance(95) ? r.range(1, 30) : r.range(1, 100000)); double v = r.range(-1000, 1000); int q = r.range(1, 5); if (cb) q = 1; in.push_back(Bucket(v * q, (float)(v * v * q), (float)(v - r.range(0, 5)), (float)(v + r.range(0, 5)), q, t)); tot += v * q; cnt += q; }
    std::vector<Bucket> out(in); L end = t + iv; one()->reduce(out, start, end, red, (int)cb);
    std::map<L, std::vector<Bucket> > g; for (size_t k = 0; k < in.size(); ++k) g[start + (in[k].time() - start) / red * red].push_back(in[k]);
    VH_REQUIRE(out.size() == g.size(), "%zu intervals with data become %zu", g.size(), out.size()); size_t k = 0; double otot = 0; L ocnt = 0;
    for (std::map<L, std::vector<Bucket> >::iterator e = g.begin(); e != g.end(); ++e, ++k) { double s = 0, q = 0; float mi = e->second[0].min(), ma = e->second[0].max(); L n = 0; for (size_t j = 0; j < e->second.size(); ++j) { Bucket &b = e->second[j]; s += b.sum_; q += b.sumSq_; mi = std::min(mi, b.min()); ma = std::max(ma, b.max()); n += b.count(); }
        Bucket &o = out[k]; VH_REQUIRE(o.time() == e->first, "output %zu at %lld, want %lld", k, (long long)o.time(), (long long)e->first); VH_REQUIRE(near(o.sum_, s, 1), "sum %g, want %g", o.sum_, s); VH_REQUIRE(fabs(o.sumSq_ - q) <= 1e-3 * (q + 1), "sum of squares");
        if (cb && n < cb) { mi = std::min(mi, 0.0f); ma = std::max(ma, 0.0f); } VH_REQUIRE(o.min() == mi && o.max() == ma, "min %g max %g, want %g %g", o.min(), o.max(), mi, ma); VH_REQUIRE(o.count() == (cb ? cb : n), "count %d, want %lld", o.count(), (long long)(cb ? cb : n)); otot += o.sum_; ocnt += o.count(); }
    VH_REQUIRE(near(otot, tot, 1000) && (cb || ocnt == cnt), "totals");
}
// ---- C15
static void choosing(Case const &c) {
    Rng r(c.i("seed") + 5); std::vector<Lev> lv = levels(c); L zero = 900000000, now = 1000000000; clk().set(now); std::string d = dir(); StatCounter sc(d, false, zero, mm(), policy(lv)); size_t n = 0, nt = 0; for (size_t i = 0; i < lv.size(); ++i) if (lv[i].lam > 0) ++nt; else ++n;
    for (int k = 0; k < 4; ++k) sc.record(now - r.range(0, 5000) + k, 1, 1, 1, 1, 1); if (r.chance(50)) sc.record(now - 5, 2, 4, 2, 2, 1);
    for (int k = 0; k < 10; ++k) { L s, e; { size_t i = r.below(lv.size()); StatFile &f = *sc.counters_[i].file; L edge = f.header().file_create_time + (f.header().last_bucket - (r.chance(50) ? f.settings().numSamples - 1 : 0)) * lv[i].iv; s = r.chance(50) ? edge + r.range(-2, 2) * (r.chance(50) ? 1 : lv[i].iv) : now - r.range(-100, 200000); e = s + (r.chance(10) ? -1 - r.range(0, 5) : r.range(0, 3000)); } if (s < zero + 1000000) continue;
        time_t iv = -1; boost::shared_ptr<StatFile> got = sc.pickStatFile(s, e, iv); size_t want = lv.size(); L wiv = -1; if (e >= s) for (size_t i = 0; i < lv.size(); ++i) { StatFile &f = *sc.counters_[i].file; L ix = (s - f.header().file_create_time) / lv[i].iv; if (ix <= f.header().last_bucket && ix > f.header().last_bucket - f.settings().numSamples) { want = i; break; } }
        if (want == lv.size()) VH_REQUIRE(!got, "a file is chosen though none holds %lld", (long long)s); else { VH_REQUIRE(got && got.get() == sc.counters_[want].file.get(), "level %zu should answer from %lld", want, (long long)s); VH_REQUIRE(iv == lv[want].iv, "interval %lld", (long long)iv); }
        L season = r.chance(50) && nt ? lv[n + r.below(nt)].iv * lv[n + r.below(nt)].n + r.range(-1, 1) : r.range(0, 3000000); if (season < 0) season = 0; time_t oi = -1, os = -1; got = sc.pickTrailingStatFile(season, oi, os); want = lv.size(); size_t last = lv.size(); for (size_t i = 0; i < lv.size(); ++i) if (lv[i].lam > 0) { last = i; if ((L)sc.counters_[i].file->header().season >= season) { want = i; break; } }
        if (want == lv.size()) VH_REQUIRE(!got, "a trailing file is chosen though no season reaches %lld", (long long)season); else VH_REQUIRE(got && got.get() == sc.counters_[want].file.get(), "trailing level %zu should answer season %lld", want, (long long)season); if (last < lv.size()) { size_t w = want < lv.size() ? want : last; VH_REQUIRE(oi == lv[w].iv && os == (L)sc.counters_[w].file->header().season, "season information"); } else VH_REQUIRE(oi == 0 && os == 0, "season information");
        // select
        std::vector<Bucket> out; time_t ns = 0, ne = 0, ni = 0; L qs = s, qe = e; if (r.chance(15)) qs = 0; if (r.chance(15)) qe = 0; sc.select(qs, qe, false, out, ns, ne, ni, r.chance(50) ? 0 : 50); L us = qs, ue = qe; if (!us && !ue) { ue = now; us = ue - 900; } else if (!ue) ue = us + 900; else if (!us) us = ue - 900;
        if (ue < us) { VH_REQUIRE(out.empty() && ns == 0, "an inverted range gives data"); continue; } VH_REQUIRE(ns <= us && ne >= ue && ns > us - 86400 - 8 * lv.back().iv && ne < ue + 86400 + 8 * lv.back().iv, "range [%lld, %lld] for request [%lld, %lld]", (long long)ns, (long long)ne, (long long)us, (long long)ue);
        L prev = 0; for (size_t j = 0; j < out.size(); ++j) { VH_REQUIRE(out[j].time() > prev && out[j].time() >= ns && out[j].time() <= ne, "bucket at %lld in the answer for [%lld, %lld]", (long long)out[j].time(), (long long)ns, (long long)ne); prev = out[j].time(); } }
}
static void gen_levels(Rng &r, Case &c, bool coll, bool trail) {
    std::ostringstream o; L iv = coll ? (r.chance(50) ? 10 : r.range(1, 20)) : r.chance(50) ? 10 : r.range(1, 60); int n = r.range(1, coll ? 3 : 4); for (int i = 0; i < n; ++i) { o << iv << " " << r.range(1, 600) << " 0 "; iv *= r.range(2, 8); }
    if (trail) { int t = r.below(3); L q = r.range(10, 300); for (int i = 0; i < t; ++i) { o << q << " " << r.range(30, 800) * (i + 1) << " 0.5 "; if (r.chance(50)) q *= 2; } } c.set("levels", o.str());
}
// ---- C31
static void retain(Case const &c) {
    std::istringstream is(c.s("text")); std::string all = c.s("text"), one; std::vector<std::string> parts; { std::stringstream s(all); while (std::getline(s, one, ',')) parts.push_back(one); }
    RetentionPolicy p; std::vector<Lev> lv; bool bad = false, lastTrail = false; L lastIv = -1; static RetentionPolicy const dummy;
    for (size_t k = 0; k < parts.size() && !bad; ++k) { size_t before = p.countIntervals(); bool thrown = false; try { p.addInterval(parts[k]); } catch (std::exception &) { thrown = true; }
        std::vector<std::string> f; { std::string cur; for (size_t i = 0; i <= parts[k].size(); ++i) if (i == parts[k].size() || (parts[k][i] == ':' && f.size() < 3)) { f.push_back(cur); cur.clear(); } else cur += parts[k][i]; }
        struct D { static L secs(std::string const &s) { L v = 0, t = 0; bool dig = false; for (size_t i = 0; i < s.size(); ++i) { if (isdigit(s[i])) { v = v * 10 + (s[i] - '0'); dig = true; } else { L u = s[i] == 's' ? 1 : s[i] == 'm' ? 60 : s[i] == 'h' ? 3600 : s[i] == 'd' ? 86400 : 0; t += v * u; if (!u) return -1; v = 0; dig = false; } } return dig || s.empty() ? -1 : t; } };
        while (f.size() < 4) f.push_back(""); L iv = D::secs(f[0]), ret = D::secs(f[1]); double lam = f[3].empty() ? 0 : strtod(f[3].c_str(), 0); bool ok = parts[k].find(':') != std::string::npos && iv > 0 && ret >= 0 && ret / (iv ? iv : 1) > 0 && (f[3].empty() || (lam > 0 && lam < 1));
        if (ok && k > 0 && before) { if (lam == 0 && lastIv >= iv) ok = false; if (lam == 0 && lastTrail) ok = false; }
        VH_REQUIRE(thrown == !ok, "level '%s' is %s", parts[k].c_str(), thrown ? "refused" : "accepted"); VH_REQUIRE(p.countIntervals() == before + (ok ? 1 : 0), "number of levels");
        if (ok) { RetentionInterval const &ri = p.getInterval(before); VH_REQUIRE(ri.interval == iv && ri.samples == ret / iv && ri.lambda == lam && ri.name == (f[2].empty() ? f[0] : f[2]), "level '%s': interval %lld samples %lld", parts[k].c_str(), (long long)ri.interval, (long long)ri.samples); lastIv = iv; lastTrail = lam > 0; } }
    bool thrown = false; try { p.getInterval(p.countIntervals()); } catch (std::exception &) { thrown = true; } VH_REQUIRE(thrown, "a level beyond the last one");
}
static void gen_retain(Rng &r, Case &c) {
    std::string t; char const *u[] = { "", "s", "m", "h", "d" }; char const *lam[] = { "0", "1", "0.5", "0.999", "nan", "-0.5", "1.5", "x", "1e-3" }; int n = r.range(1, 4); L last = 0;
    for (int i = 0; i < n; ++i) { std::ostringstream o; if (i) o << ","; L a = r.chance(50) ? last + r.range(1, 60) : r.range(0, 70); int q = r.chance(70) ? 1 : r.below(5); o << a << u[q]; if (q < 2) last = a; if (!r.chance(3)) o << ":" << r.range(0, 30) << u[r.below(5)]; if (r.chance(60)) { o << ":"; if (r.chance(60)) o << "name" << i; if (r.chance(50)) o << ":" << lam[r.chance(50) ? 2 : r.below(9)]; } t += o.str(); } c.set("text", t);
}
void vh_gen(std::string const &p, Rng &r, Case &c, uint64_t n) {
    c.setn("seed", r.below(1000000000));
    if (p == "C11") { bool ev = r.chance(30); c.set("kind", ev ? "events" : "accept"); gen_levels(r, c, ev, !ev && r.chance(50)); c.setn("ops", r.range(1, 20)); }
    else if (p == "C12") { c.set("kind", "events"); gen_levels(r, c, true, false); c.setn("ops", r.range(1, 60)); }
    else if (p == "C13") { c.set("kind", "normalise"); gen_normalise(r, c); }
    else if (p == "C14") { c.set("kind", "reduce"); c.setn("iv", r.range(1, 60)); c.setn("mult", r.range(2, 12)); c.setn("n", r.range(0, 40)); c.setn("late", r.chance(30)); c.setn("coll", r.chance(40) ? c.i("mult") * r.range(1, 3) : 0); }
    else if (p == "C15") { c.set("kind", "choose"); gen_levels(r, c, false, true); }
    else if (p == "C31") { c.set("kind", "retain"); gen_retain(r, c); }
}
void vh_run(std::string const &p, Case const &c) {
    std::string k = c.s("kind"); if (k == "accept") accept(c); else if (k == "events") events(c); else if (k == "normalise") normalise(c); else if (k == "reduce") reducing(c); else if (k == "choose") choosing(c); else if (k == "retain") retain(c);
}
