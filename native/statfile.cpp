// Oracles for istat::StatFile
#define VH_CLOSEFDS
#include "vh.h"
#include <istat/StatFile.h>
#include <istat/Mmap.h>
#include <istat/Log.h>
#include <istat/istattime.h>
using namespace istat;
typedef __int128 I;
static I fdiv(I a, I b) { I q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) --q; return q; }
static Mmap *mm() { static Mmap *m = 0; if (!m) { m = NewMmap(); m->setAllocationStrategy(allocateSparse); } return m; }
static std::string fresh(char const *n = "f") { static int k; char b[64]; snprintf(b, 64, "/%s%d", n, ++k % 64); std::string p = vh_dir() + b; unlink(p.c_str()); return p; }

// ---- C03: addressing arithmetic on a file with arbitrary (invariant-respecting) parameters
struct Poked {
    StatFile *f; StatFile::Settings sv; Header hv; int64_t bc, bpp;
    Poked(Case const &c) {
        StatFile::Settings st; st.zeroTime = 1000000; st.intervalTime = 10; st.numSamples = 512; Stats ss;
        f = new StatFile(fresh(), ss, st, mm());
        sv = f->settings_; hv = *f->fileHeader_; bc = f->bucketCount_; bpp = f->bucketsPerPage_;
        Header &h = *f->fileHeader_;
        h.cfg_interval = c.i("interval"); h.file_create_time = c.i("create"); h.last_bucket = c.i("last"); h.first_bucket = c.i("last") - c.i("n") + 1; h.flags = c.i("flags");
        h.page_count = c.i("pages", 2);
        f->settings_.intervalTime = h.cfg_interval; f->settings_.numSamples = c.i("n"); f->bucketCount_ = c.i("n"); f->settings_.flags = h.flags;
    }
    ~Poked() { f->settings_ = sv; *f->fileHeader_ = hv; f->bucketCount_ = bc; f->bucketsPerPage_ = bpp; delete f; }
};
static void addressing(Case const &c) {
    if (c.i("interval") < 1 || c.i("n") < 2 || c.i("create") < 0) return;
    Poked p(c); StatFile const &f = *p.f; std::string k = c.s("kind");
    I iv = c.i("interval"), cr = c.i("create"), last = c.i("last"), n = c.i("n");
    if (k == "maptime") {
        I t = c.i("t"); bool up = c.i("up"); I want = fdiv(t - cr, iv) + ((up && (t % iv) != 0) ? 1 : 0);
        int64_t got = f.mapTimeToBucketIndex((time_t)t, up);
        // known finding: a time before the creation time may be put one interval too late
        if (!c.i("strict") && t < cr && (t - cr) % iv != 0 && (I)got == want + 1) return;
        VH_REQUIRE((I)got == want, "mapTimeToBucketIndex(%lld, %d) = %lld but the time lies in interval %lld", (long long)t, up, (long long)got, (long long)want);
        if (!up) { I s = f.mapBucketIndexToTime(got); VH_REQUIRE(s <= t && t < s + iv, "time %lld is not inside interval %lld starting %lld", (long long)t, (long long)got, (long long)s); }
    }
    if (k == "mapindex") {
        I ix = c.i("ix"); VH_REQUIRE((I)f.mapBucketIndexToTime((int64_t)ix) == cr + ix * iv, "mapBucketIndexToTime(%lld)", (long long)ix);
        VH_REQUIRE((I)f.mapTimeToBucketIndex(f.mapBucketIndexToTime((int64_t)ix)) == ix, "interval %lld does not map back to itself", (long long)ix);
    }
    if (k == "infile" || k == "slot" || k == "slots") {
        I ix = c.i("ix"); time_t t0 = istattime(0); 
        bool held = ix <= last && ix > last - n;
        bool coll = (c.i("flags") & 1) && ix > last && (cr + ix * iv) < (I)t0;
        bool collmaybe = (c.i("flags") & 1) && ix > last && (cr + ix * iv) >= (I)t0 && (cr + ix * iv) <= (I)t0 + 5;
        bool got = f.isBucketIndexInFile((int64_t)ix);
        if (!collmaybe) VH_REQUIRE(got == (held || coll), "isBucketIndexInFile(%lld) = %d, newest %lld, capacity %lld", (long long)ix, got, (long long)last, (long long)n);
        int64_t s = f.mapBucketIndexToFileIndex((int64_t)ix);
        if (!collmaybe) {
            if (held || coll) { VH_REQUIRE(s >= 0 && (I)s < n, "slot %lld of interval %lld is outside the file (%lld)", (long long)s, (long long)ix, (long long)n);
                VH_REQUIRE((I)s == ix - fdiv(ix, n) * n, "slot %lld of interval %lld (capacity %lld)", (long long)s, (long long)ix, (long long)n); }
            else VH_REQUIRE(s == -1, "interval %lld is not in the file but has slot %lld", (long long)ix, (long long)s);
        }
        if (k == "slots" && held) { I j = last - (I)(c.i("d") % (int64_t)n); if (j != ix) VH_REQUIRE(f.mapBucketIndexToFileIndex((int64_t)j) != s, "intervals %lld and %lld share slot %lld", (long long)ix, (long long)j, (long long)s); }
    }
}
static void gen_addressing(Rng &r, Case &c, uint64_t n) {
    static char const *kinds[] = { "maptime", "mapindex", "infile", "slot", "slots" };
    c.set("kind", kinds[n % 5]);
    int64_t ivs[] = { 1, 2, 7, 10, 60, 300, 3600, 86400, 1 + (int64_t)r.below(100000) }; int64_t iv = ivs[r.below(9)];
    int64_t cr = r.chance(10) ? 0 : (int64_t)r.below(r.chance(50) ? 100000 : 2000000000); cr -= cr % iv;
    int64_t cap = r.chance(50) ? 512 : 256 * (2 + (int64_t)r.below(200));
    int64_t last = r.chance(20) ? 0 : r.range(-3 * cap, 5 * cap);
    c.setn("interval", iv); c.setn("create", cr); c.setn("n", cap); c.setn("pages", cap / 256); c.setn("last", last); c.setn("flags", r.chance(40) ? 1 : (r.chance(20) ? 4 : 0));
    if (r.chance(40)) c.setn("t", cr + r.range(-3 * iv, 3 * iv)); else c.setn("t", r.range(0, 2200000000LL)); 
    c.setn("up", r.below(2)); c.setn("d", r.below(100000));
    int64_t ix; switch (r.below(5)) { case 0: ix = last - cap + r.range(-2, 2); break; case 1: ix = last + r.range(-2, 3); break; case 2: ix = r.range(-2, 2); break; default: ix = last - (int64_t)r.below(cap); }
    if (r.chance(10)) ix = ((int64_t)istattime(0) - cr) / iv + r.range(-20, 20);
    c.setn("ix", ix);
}


// ---- a bucket as plain values, and the storage rules evaluated on it
struct Raw { int64_t t; double s; float q, mi, ma; int32_t c; };
static Raw raw(Bucket const &b) { Raw r; r.t = b.time_; r.s = b.sum_; r.q = b.sumSq_; r.mi = b.min_; r.ma = b.max_; r.c = b.count_; return r; }
static Raw zraw() { Raw r; memset(&r, 0, sizeof(r)); return r; }
template<class T> static bool eqv(T a, T b) { return a == b || (a != a && b != b); }
static bool eqr(Raw const &a, Raw const &b) { return a.t == b.t && eqv(a.s, b.s) && eqv(a.q, b.q) && eqv(a.mi, b.mi) && eqv(a.ma, b.ma) && a.c == b.c; }
static std::string str(Raw const &r) { char b[200]; snprintf(b, 200, "{t=%lld s=%g q=%g min=%g max=%g n=%d}", (long long)r.t, r.s, r.q, r.mi, r.ma, r.c); return b; }
static Bucket mkb(Raw const &r) { return Bucket(r.s, r.q, r.mi, r.ma, r.c, r.t); }
static double rep(double d) { float f = (float)d; return std::isinf(f) ? (f < 0 ? -3.4028234663852886e38 : 3.4028234663852886e38) : f; }
static Raw mergeRaw(Raw const &a, Raw const &b) { if (a.c == 0) return b; Raw r = a; r.s = a.s + b.s; r.q = a.q + b.q; r.mi = b.mi < a.mi ? b.mi : a.mi; r.ma = a.ma < b.ma ? b.ma : a.ma; r.c = a.c + b.c; return r; }
static Raw blendRaw(Raw const &a, Raw const &b, double l) { if (a.c == 0) return b; double y = 1 - l; Raw r; r.t = b.t; r.s = a.s * l + b.s * y; r.q = (float)(a.q * l + b.q * y); r.mi = (float)(a.mi * l + b.mi * y); r.ma = (float)(a.ma * l + b.ma * y); r.c = (int32_t)(a.c * l + b.c * y + 0.5); if (r.c < 1) r.c = 1; return r; }

// an Mmap that can fail, read short, and records what it is asked to do
struct SpyMmap : Mmap {
    Mmap *m; int64_t failMapAt, shortAt, calls, nflush; bool badSize; std::vector<std::pair<void const *, size_t> > flushed; std::map<void *, size_t> live;
    SpyMmap() : m(NewMmap()), failMapAt(-1), shortAt(-1), calls(0), nflush(0), badSize(false) { m->setAllocationStrategy(allocateSparse); }
    ~SpyMmap() { m->dispose(); }
    int open(char const *n, int f) { return m->open(n, f); }
    int close(int fd) { return m->close(fd); }
    ssize_t read(int fd, void *p, ssize_t n) { return m->read(fd, p, n); }
    ssize_t write(int fd, void *p, ssize_t n) { return m->write(fd, p, n); }
    ptrdiff_t seek(int fd, ptrdiff_t o, int w) { return m->seek(fd, o, w); }
    ssize_t tell(int fd) { return m->tell(fd); }
    int truncate(int fd, ssize_t s) { return m->truncate(fd, s); }
    void *map(int fd, int64_t o, size_t s, bool w) { if (failMapAt >= 0 && failMapAt-- == 0) return 0; void *p = m->map(fd, o, s, w); live[p] = s; return p; }
    bool unmap(void const *p, size_t s) { std::map<void *, size_t>::iterator i = live.find((void *)p); VH_REQUIRE(i != live.end(), "a mapping is released twice"); VH_REQUIRE(i->second == s, "a mapping of %zu bytes is released with %zu", i->second, s); live.erase(i); return m->unmap(p, s); }
    bool flush(void const *p, size_t s, bool i) { VH_REQUIRE(live.count((void *)p), "flush of memory that is not mapped"); VH_REQUIRE(live[(void *)p] == s, "flush of %zu bytes of a mapping of %zu", s, live[(void *)p]); flushed.push_back(std::make_pair(p, s)); return m->flush(p, s, i); }
    int64_t availableSpace(char const *p) { return m->availableSpace(p); }
    void dispose() { }
    void counters(int64_t *a, int64_t *b, int64_t *c, int64_t *d) { m->counters(a, b, c, d); }
    void setAllocationStrategy(AllocationStrategy a) { m->setAllocationStrategy(a); }
};

struct FModel {        // what the file must hold
    I iv, create, last, first, n; int64_t flags, fixed; double lambda; I season; std::vector<Raw> slot; Raw pend[3]; double cs, cq; int64_t cc; I lastTime;
    I ixOf(I t) const { I d = t - create; if (d < 0) return -((-d) / iv); return d / iv; }       // (before the creation time: see the known finding of C03)
    size_t sl(I ix) const { return (size_t)(ix - fdiv(ix, n) * n); }
    bool held(I ix) const { return ix <= last && ix > last - n; }
    bool inFile(I ix) const { return held(ix) || (ix > last && (flags & 1) && create + ix * iv < (I)istattime(0)); }
    void flushPend() {
        if (pend[0].t > 0) { I ix = ixOf(pend[0].t), ox = ixOf(pend[0].t - season);
            if (inFile(ix)) { Raw b = pend[0]; if (inFile(ox)) { Raw o = slot[sl(ox)]; if (o.t > 0 && ixOf(o.t) == ox) b = blendRaw(o, pend[0], lambda); } slot[sl(ix)] = b; } }
        pend[0] = pend[1]; pend[1] = pend[2]; pend[2] = zraw();
    }
    bool update(Raw d, int mode) {
        I ix = ixOf(d.t); I at = d.t - d.t % (int64_t)iv;
        if (ix > last) { last = ix; lastTime = at; if (first + n <= last) first = last - n + 1; }
        if (!held(ix)) return false;
        if (ix < first) first = ix;
        Raw *b;
        if (flags & 2) {
            int k = 0; while (k < 3 && pend[k].t != at) ++k;
            if (k == 3) { flushPend(); k = 2; pend[2] = zraw(); pend[2].t = at; }
            b = &pend[k];
        } else { b = &slot[sl(ix)]; if (b->t != at) *b = zraw(); }
        bool upd = false;
        if (mode == RAWUP_ONLY_IF_EMPTY) { if (b->c == 0) { *b = d; upd = true; } }
        else if ((flags & 1) || mode == RAWUP_OVERWRITE || (mode == RAWUP_FILL_EMPTY && b->c == 0)) { *b = d; upd = true; }
        else { Raw x = d; x.t = at; *b = mergeRaw(*b, x); if (flags & 4) b->c = (int32_t)fixed; upd = true; }
        if (upd) { cs += rep(d.s); cq += rep(d.q); cc += d.c; }
        return true;
    }
};
static void cmpFile(StatFile &f, FModel &m, std::vector<char> const *skip = 0) {
    for (size_t k = 0; k < (size_t)m.n; ++k) {
        // read slot k through the interval that is held there
        I ix = m.last - (I)((m.sl(m.last) + (size_t)m.n - k) % (size_t)m.n);
        Bucket const &b = f.bucket((int64_t)ix); Raw g = raw(b);
        VH_REQUIRE(eqr(g, m.slot[k]), "slot %zu (interval %lld): file has %s, must be %s", k, (long long)ix, str(g).c_str(), str(m.slot[k]).c_str());
    }
    for (int k = 0; k < 3 && (m.flags & 2); ++k) VH_REQUIRE(eqr(raw(f.expBucket[k]), m.pend[k]), "pending interval %d: %s, must be %s", k, str(raw(f.expBucket[k])).c_str(), str(m.pend[k]).c_str());
}
static void cmpHead(StatFile &f, FModel &m) {
    Header const &h = f.header();
    VH_REQUIRE((I)h.last_bucket == m.last, "newest interval %lld, must be %lld", (long long)h.last_bucket, (long long)m.last);
    VH_REQUIRE((I)h.first_bucket == m.first, "first interval %lld, must be %lld", (long long)h.first_bucket, (long long)m.first);
    VH_REQUIRE((I)h.last_time == m.lastTime, "newest time %lld, must be %lld", (long long)h.last_time, (long long)m.lastTime);
    VH_REQUIRE(eqv(h.cumulative_sum, m.cs) && eqv(h.cumulative_sum_sq, m.cq) && h.cumulative_count == m.cc, "running totals %g %g %lld, must be %g %g %lld", h.cumulative_sum, h.cumulative_sum_sq, (long long)h.cumulative_count, m.cs, m.cq, (long long)m.cc);
}
static void readCheck(StatFile &f, FModel &m, I from, int cnt) {
    std::vector<Bucket> buf(cnt + 2); Raw guard = zraw(); guard.t = -77; for (size_t i = 0; i < buf.size(); ++i) buf[i] = mkb(guard);
    I start = from; I c = cnt; I oldest = m.last - m.n + 1; if (start < oldest) { c -= oldest - start; start = oldest; }
    int64_t got = f.readBuckets(&buf[1], cnt, (int64_t)from);
    VH_REQUIRE(eqr(raw(buf[0]), guard), "a read writes before the buffer"); VH_REQUIRE(eqr(raw(buf[cnt + 1]), guard), "a read of %d writes after the buffer", cnt);
    if (c <= 0 || !m.inFile(start)) { VH_REQUIRE(got == 0, "reading %d from %lld (newest %lld) gives %lld entries", cnt, (long long)from, (long long)m.last, (long long)got); return; }
    if (c > m.n) c = m.n;
    VH_REQUIRE((I)got == c, "reading %d from %lld gives %lld entries, must be %lld", cnt, (long long)from, (long long)got, (long long)c);
    for (int64_t k = 0; k < got; ++k) { Raw g = raw(buf[1 + k]), w = m.slot[m.sl(start + k)]; VH_REQUIRE(eqr(g, w), "entry %lld of a read of %d from %lld: %s, must be %s", (long long)k, cnt, (long long)from, str(g).c_str(), str(w).c_str()); }
    for (int64_t k = got; k < cnt; ++k) VH_REQUIRE(eqr(raw(buf[1 + k]), guard), "entry %lld beyond the %lld returned was written", (long long)k, (long long)got);
}
static Raw anyRaw(Rng &r, int64_t t) {
    Raw x; x.t = t; x.c = r.chance(5) ? 0 : r.range(1, 5); x.s = r.range(-1000, 1000) / 4.0; x.mi = (float)(r.range(-100, 100) / 4.0); x.ma = x.mi + (float)r.below(10); x.q = (float)r.below(1000);
    if (r.chance(3)) x.s = INFINITY; if (r.chance(2)) { x.mi = -INFINITY; } if (r.chance(2)) x.q = 3e38f; if (r.chance(2)) x.s = 1e300; return x;
}
// a history of updates, reads, flushes, reopenings and mapping failures on one file
static void history(std::string const &prop, Case const &c) {
    Rng r((uint64_t)c.i("hist") + 77); FModel m; SpyMmap spy; Stats ss; StatFile::Settings st;
    std::string path = fresh();
    st.intervalTime = c.i("interval"); st.numSamples = c.i("samples"); st.flags = c.i("flags"); st.zeroTime = c.i("create"); st.lambda = c.d("lambda", 0.5); st.season = c.i("season", 86400); st.fixed_count = c.i("fixed", 3);
    StatFile *f = new StatFile(path, ss, st, &spy);
    Header h = f->header(); m.iv = c.i("interval"); m.create = c.i("create") - c.i("create") % c.i("interval"); m.n = f->settings().numSamples; m.first = m.last = 0; m.lastTime = 0; m.flags = c.i("flags"); m.fixed = st.fixed_count; m.lambda = st.lambda; m.season = st.season; m.cs = m.cq = 0; m.cc = 0;
    m.slot.assign((size_t)m.n, zraw()); for (int k = 0; k < 3; ++k) m.pend[k] = zraw();
    int ops = (int)c.i("ops", 40); I cur = m.create;
    for (int k = 0; k < ops; ++k) {
        int o = (int)r.below(100);
        if (o < 62) {
            I t; switch (r.below(8)) { case 0: t = cur - (I)r.below((uint64_t)(m.n * m.iv * 5 / 4)); break; case 1: t = m.create + (m.last - m.n + r.range(-2, 3)) * m.iv + (I)r.below((uint64_t)m.iv); break; case 2: cur += m.iv * (I)r.below((uint64_t)m.n); t = cur; break;
                case 3: cur += m.iv * (I)r.below(3); t = cur - m.iv * (I)r.below(4); break; case 4: t = cur + (I)r.below((uint64_t)m.iv * 3); break; case 5: t = cur - m.n * m.iv + (I)r.range(-3, 3) * m.iv; break; case 6: t = cur - m.season + m.iv * (I)r.range(-2, 2); break; default: t = cur; }
            if (t < 1) t = 1; if (t > cur) cur = t; if (t > 0x7fffffffffLL) { t = cur = m.create; }
            if (t < m.create && (t - m.create) % m.iv != 0) t = m.create;       // known finding of C03
            Raw d = anyRaw(r, (int64_t)t); int mode = r.chance(70) ? RAWUP_AGGREGATE : (int)r.below(4);
            bool fail = prop == "C05" && r.chance(6); if (fail) spy.failMapAt = r.below(2);
            FModel before = m; bool got, thrown = false;
            try { got = f->rawUpdateBucket(mkb(d), (RawUpdateMode)mode); } catch (std::exception &) { thrown = true; got = false; }
            bool didfail = fail && spy.failMapAt < 0 && thrown; spy.failMapAt = -1;
            if (thrown) { VH_REQUIRE(didfail, "an update of time %lld fails", (long long)t);       // nothing may be stored; the window may have moved
                m.last = f->header().last_bucket; m.first = f->header().first_bucket; m.lastTime = f->header().last_time; if (m.flags & 2) for (int q = 0; q < 3; ++q) m.pend[q] = raw(f->expBucket[q]); if (m.flags & 2) continue;
                // the slot may have been cleared for its new time only when mapped: it was not
                cmpFile(*f, m); continue; }
            bool want = m.update(d, mode);
            VH_REQUIRE(got == want, "update of time %lld (newest %lld) returns %d, must be %d", (long long)t, (long long)before.last, got, want);
            cmpHead(*f, m);
        } else if (o < 82) { I from = m.last - (I)r.below((uint64_t)m.n + 5) + (I)r.range(0, 3); int cnt = r.chance(50) ? (int)r.range(1, 40) : (int)r.range(1, (int64_t)m.n + 20); readCheck(*f, m, from, cnt); }
        else if (o < 90) { spy.flushed.clear(); f->flush(); if (m.flags & 2) m.flushPend(); 
            bool hd = false; for (size_t q = 0; q < spy.flushed.size(); ++q) hd |= spy.flushed[q].first == f->fileHeader_; VH_REQUIRE(hd, "flush does not write the header");
            for (int q = 0; q < 3; ++q) if (f->pages[q].ptr) { bool found = false; for (size_t w = 0; w < spy.flushed.size(); ++w) found |= spy.flushed[w].first == f->pages[q].ptr; VH_REQUIRE(found, "flush leaves out a cached page"); }
            // what another reader sees in the file now
            StatFile g(path, ss, mm(), false); std::vector<Bucket> all((size_t)m.n); int64_t n = g.readBuckets(&all[0], (int)m.n, (int64_t)(m.last - m.n + 1)); VH_REQUIRE(n == (int64_t)m.n, "after a flush the file reads %lld entries", (long long)n);
            for (int64_t q = 0; q < n; ++q) { Raw gq = raw(all[q]), w = m.slot[m.sl(m.last - m.n + 1 + q)]; VH_REQUIRE(eqr(gq, w), "after a flush the file holds %s, must hold %s", str(gq).c_str(), str(w).c_str()); }
        }
        else if (o < 96) cmpFile(*f, m);
        else if (!(m.flags & 2)) { delete f; VH_REQUIRE(spy.live.empty(), "closing leaves %zu mappings", spy.live.size()); f = new StatFile(path, ss, &spy, true); cmpHead(*f, m); }
    }
    cmpFile(*f, m); cmpHead(*f, m); delete f; VH_REQUIRE(spy.live.empty(), "closing leaves %zu mappings", spy.live.size());
}
static void gen_history(std::string const &prop, Rng &r, Case &c) {
    c.set("kind", "hist"); c.setn("hist", r.below(1000000000)); int64_t ivs[] = { 1, 10, 60, 300, 7 }; int64_t iv = ivs[r.below(5)]; c.setn("interval", iv); c.setn("samples", r.chance(50) ? 512 : r.range(1, 1700));
    int64_t cr = r.chance(10) ? 1000000 : r.range(1000000, 1500000000); c.setn("create", cr); c.setn("fixed", r.range(1, 40)); c.setn("ops", r.range(10, 90));
    int fl = r.below(5) == 0 ? 1 : (r.below(4) == 0 ? 4 : 0); if (prop == "C10" || (prop == "C09" && r.chance(30))) fl = 2; c.setn("flags", fl);
    if (fl == 2) { c.setd("lambda", r.chance(10) ? 1.0 : 0.05 + 0.9 * r.unit()); int64_t s = r.chance(60) ? iv * r.range(1, 300) : r.range(10, 40000); if (s < 10) s = 10; c.setn("season", s); }
}
// one update on an explicitly given state
static void one_update(Case const &c) {
    int64_t n = c.i("n"); if (n < 512 || n > 4096 || n % 256 || c.i("interval") < 1 || c.i("create") < 0 || (c.i("flags") & 2)) return;
    Stats ss; StatFile::Settings st; st.intervalTime = (int)c.i("interval"); st.numSamples = (int)n; st.flags = 0; st.zeroTime = c.i("create") ? c.i("create") : 1;
    StatFile f(fresh(), ss, st, mm()); Header &h = *f.fileHeader_; h.file_create_time = c.i("create"); h.flags = c.i("flags"); f.settings_.flags = h.flags; h.first_bucket = c.i("first"); h.last_bucket = c.i("last"); h.last_time = c.i("lastTime"); h.fixed_count = c.i("fixed");
    FModel m; m.iv = c.i("interval"); m.create = c.i("create"); m.n = n; m.first = c.i("first"); m.last = c.i("last"); m.lastTime = c.i("lastTime"); m.flags = c.i("flags"); m.fixed = c.i("fixed"); m.lambda = .5; m.season = 86400; m.cs = m.cq = 0; m.cc = 0;
    m.slot.assign(n, zraw()); Raw old; old.t = c.i("old_time"); old.s = c.d("old_sum"); old.q = (float)c.d("old_sumSq"); old.mi = (float)c.d("old_min"); old.ma = (float)c.d("old_max"); old.c = (int)c.i("old_count");
    Raw d; d.t = c.i("d_time"); d.s = c.d("d_sum"); d.q = (float)c.d("d_sumSq"); d.mi = (float)c.d("d_min"); d.ma = (float)c.d("d_max"); d.c = (int)c.i("d_count");
    if (d.t < 0) return; I ix = m.ixOf(d.t); if (d.t < m.create && (d.t - m.create) % m.iv) return;
    // fill every slot with a recognisable value, the target slot with the given one
    for (int64_t k = 0; k < n; ++k) { Raw x = zraw(); x.t = 5 + k; x.c = 1 + k % 7; x.s = k; m.slot[k] = x; } m.slot[m.sl(ix)] = old;
    int64_t keep = h.last_bucket; for (int64_t k = 0; k < n; ++k) { I j = m.last - (I)((m.sl(m.last) + (size_t)n - k) % (size_t)n); *f.writableBucket((int64_t)j) = mkb(m.slot[k]); } (void)keep;
    bool got = f.rawUpdateBucket(mkb(d), (RawUpdateMode)c.i("mode")); bool want = m.update(d, (int)c.i("mode"));
    VH_REQUIRE(got == want, "update returns %d, must be %d", got, want); cmpHead(f, m); cmpFile(f, m);
}
// one flush of a trailing file on an explicitly given state
static Raw rawOf(Case const &c, char const *p) { Raw r; std::string q(p); r.t = c.i((q + "_time").c_str()); r.s = c.d((q + "_sum").c_str()); r.q = (float)c.d((q + "_sumSq").c_str()); r.mi = (float)c.d((q + "_min").c_str()); r.ma = (float)c.d((q + "_max").c_str()); r.c = (int)c.i((q + "_count").c_str()); return r; }
static void one_flush(Case const &c) {
    int64_t n = c.i("n"), iv = c.i("interval"); if (n < 512 || n > 4096 || n % 256 || iv < 1 || iv > 1000000 || c.i("create") < 1 || !(c.i("flags") & 2) || c.i("flags") > 7) return;
    double l = c.d("lambda"); if (!(l > 0 && l <= 1)) return; int64_t season = c.i("season"); if (season < 10 || season > 373 * 24 * 3600 || season / iv > 3000) return;
    Stats ss; StatFile::Settings st; st.intervalTime = (int)iv; st.numSamples = (int)n; st.flags = 2; st.lambda = l; st.season = season; st.zeroTime = c.i("create");
    StatFile f(fresh(), ss, st, mm()); if (f.settings().numSamples != n) return; Header &h = *f.fileHeader_; h.file_create_time = c.i("create"); h.flags = c.i("flags"); h.first_bucket = c.i("first"); h.last_bucket = c.i("last");
    FModel m; m.iv = iv; m.create = c.i("create"); m.n = n; m.first = c.i("first"); m.last = c.i("last"); m.lastTime = h.last_time; m.flags = h.flags; m.fixed = 1; m.lambda = l; m.season = season; m.cs = m.cq = 0; m.cc = 0; m.slot.assign(n, zraw());
    for (int64_t k = 0; k < n; ++k) { Raw x = zraw(); x.t = 5 + k; x.c = 1 + k % 7; x.s = k; m.slot[k] = x; }
    char const *pn[3] = { "e0", "e1", "e2" }; for (int k = 0; k < 3; ++k) { m.pend[k] = rawOf(c, pn[k]); f.expBucket[k] = mkb(m.pend[k]); }
    int64_t t0 = m.pend[0].t; if (t0 > 0) { if (t0 < m.create && (t0 - m.create) % iv) return; int64_t t1 = t0 - season; if (t1 < m.create && (t1 - m.create) % iv) return; I a = m.ixOf(t0), b = m.ixOf(t1); m.slot[m.sl(a)] = rawOf(c, "a"); m.slot[m.sl(b)] = rawOf(c, "b"); }
    for (int64_t k = 0; k < n; ++k) { I j = m.last - (I)((m.sl(m.last) + (size_t)n - k) % (size_t)n); *f.writableBucket((int64_t)j) = mkb(m.slot[k]); }
    f.flush(); m.flushPend(); cmpFile(f, m);
}
// ---- C07: creating files
static void create(Case const &c) {
    Stats ss; StatFile::Settings st; st.intervalTime = (int)c.i("interval"); st.numSamples = (int)c.i("samples"); st.flags = (int)c.i("flags"); st.zeroTime = c.i("create"); st.lambda = c.d("lambda"); st.season = c.i("season"); st.fixed_count = 1; strcpy(st.unit, "u");
    std::string path = fresh(); bool thrown = false; SpyMmap spy; StatFile *f = 0; time_t t0 = istattime(0);
    try { f = new StatFile(path, ss, st, &spy); } catch (std::exception &) { thrown = true; }
    bool bad = (c.i("flags") & ~7) != 0; int64_t season = (int64_t)(uint64_t)st.season; if (c.i("flags") & 2) bad |= !(st.lambda > 0 && st.lambda <= 1) || season < 10 || season > 373 * 24 * 3600;
    VH_REQUIRE(thrown == bad, "creation %s", bad ? "of an invalid file is not refused" : "is refused"); if (thrown) return;
    Header const &h = f->header(); int64_t iv = h.cfg_interval; VH_REQUIRE(iv == (c.i("interval") < 1 ? 1 : c.i("interval")), "interval %lld", (long long)iv);
    int64_t z = c.i("create") ? c.i("create") : t0; VH_REQUIRE(h.file_create_time % iv == 0, "creation time %lld is not aligned to %lld", (long long)h.file_create_time, (long long)iv);
    VH_REQUIRE(c.i("create") ? h.file_create_time == z - z % iv : (h.file_create_time >= z - iv && h.file_create_time <= z + 60), "creation time %lld", (long long)h.file_create_time);
    int64_t cap = h.page_count * (h.page_size / 32); VH_REQUIRE(cap >= c.i("samples"), "capacity %lld for %lld samples", (long long)cap, (long long)c.i("samples")); VH_REQUIRE(f->settings().numSamples == cap, "capacity reported");
    if (c.i("flags") & 2) VH_REQUIRE((I)cap * iv >= season, "capacity %lld intervals of %lld s for a season of %lld s", (long long)cap, (long long)iv, (long long)season);
    VH_REQUIRE(h.page_count >= 2, "one page"); struct stat sb; stat(path.c_str(), &sb); VH_REQUIRE(sb.st_size >= h.page_size * (h.page_count + 1), "the file has %lld bytes", (long long)sb.st_size);
    VH_REQUIRE(h.flags == c.i("flags") && eqv(h.lambda, st.lambda) && (int64_t)h.season == season && h.cr_version == CUR_HDR_VERSION && h.rd_version <= CUR_HDR_VERSION && h.hdr_size == (int)sizeof(Header), "header fields"); VH_REQUIRE(h.first_bucket == 0 && h.last_bucket == 0 && h.cumulative_count == 0 && h.cumulative_sum == 0, "a new file is not empty");
    delete f;
}
static void gen_create(Rng &r, Case &c) {
    c.set("kind", "create"); c.setn("interval", r.chance(10) ? r.range(-3, 1) : r.chance(50) ? r.range(1, 400) : r.range(1, 100000)); c.setn("samples", r.chance(15) ? r.range(-2, 3) : r.chance(40) ? 256 * r.range(1, 20) + r.range(-1, 1) : r.range(0, 20000)); c.setn("create", r.chance(20) ? 0 : r.range(1, 2000000000));
    int64_t fl = r.chance(10) ? r.below(32) : r.below(8); c.setn("flags", fl); double ls[] = { 0, 1, 0.5, 1.0000001, -0.1, NAN, 1e-300, 0.99 }; c.setd("lambda", ls[r.below(8)]); int64_t ss[] = { 9, 10, 11, 373LL * 86400, 373LL * 86400 + 1, 86400, 0, 604800 }; c.setn("season", r.chance(50) ? ss[r.below(8)] : r.range(10, 373 * 86400));
    if (fl & 2) if (c.i("season") / (c.i("interval") > 0 ? c.i("interval") : 1) > 3000000) c.setn("interval", 60 + r.below(1000));
}
// ---- C08: opening arbitrary content
static std::string slurp(std::string const &p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void opening(Case const &c) {
    std::string path = fresh("o"); Stats ss; { StatFile::Settings st; st.intervalTime = 10; st.numSamples = 600; st.zeroTime = 1000000; StatFile f(path, ss, st, mm()); for (int k = 0; k < 20; ++k) f.updateBucket(Bucket(k, k, k, k, 1, 1000000 + k * 10)); }
    std::string data = slurp(path); Header h; memcpy(&h, data.data(), sizeof(h)); int64_t len = data.size() + c.i("dlen"); if (len < 0) len = 0;
    if (c.has("magic")) h.magic[c.i("magic") % 16] ^= 1 << (c.i("magic") / 16 % 8); if (c.has("rd")) h.rd_version = c.i("rd"); if (c.has("cr")) h.cr_version = c.i("cr"); if (c.has("hs")) h.hdr_size = c.i("hs"); if (c.has("ps")) h.page_size = c.i("ps"); if (c.has("pc")) h.page_count = c.i("pc");
    memcpy(&data[0], &h, sizeof(h)); if (c.i("junk")) { Rng r(c.i("junk")); for (size_t k = 0; k < 464; ++k) data[k] = (char)r.next(); }
    data.resize(len, 'x'); { std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc); f.write(data.data(), data.size()); }
    Header g; memset(&g, 0, sizeof(g)); memcpy(&g, data.data(), std::min(sizeof(g), data.size()));
    bool bad = memcmp(g.magic, file_magic, 16) != 0 || g.rd_version > CUR_HDR_VERSION || g.page_size < sysconf(_SC_PAGE_SIZE) || (g.hdr_size != (int)sizeof(Header) && g.cr_version == CUR_HDR_VERSION);
    if (!bad && (g.page_count < 1 || g.page_count > 100 || g.page_size > 100000)) return;      // geometry itself is not validated
    bool thrown = false; StatFile *f = 0; try { f = new StatFile(path, ss, mm(), c.i("upd", 1) != 0); } catch (std::exception &) { thrown = true; }
    int64_t want = bad ? len : std::max<int64_t>(len, g.page_size * (g.page_count + 1)); bool ro = c.i("upd", 1) == 0;
    if (!bad && ro && want > len) { VH_REQUIRE(thrown, "a short file opened read-only"); return; }
    VH_REQUIRE(thrown == bad, "open %s", bad ? "accepts a foreign or incompatible file" : "refuses a good file");
    if (f) { VH_REQUIRE(f->settings().numSamples == g.page_count * (g.page_size / 32), "capacity"); if (g.cr_version < CUR_HDR_VERSION) { VH_REQUIRE(g.cr_version >= 5 ? (eqv(f->header().lambda, g.lambda) && f->header().season == g.season) : (f->header().lambda == 0.9 && f->header().season == 86400), "upgrade defaults"); }
        VH_REQUIRE(f->header().last_bucket == g.last_bucket && f->header().first_bucket == g.first_bucket && f->header().cumulative_count == g.cumulative_count && f->header().file_create_time == g.file_create_time, "opening changes stored data"); delete f; }
    std::string after = slurp(path); VH_REQUIRE((int64_t)after.size() == want, "%s file of %lld bytes has %lld after opening", bad ? "refused" : "accepted", (long long)len, (long long)after.size());
    if (bad) VH_REQUIRE(after == data, "a refused file was changed"); else { size_t from = std::min(sizeof(Header), data.size()); VH_REQUIRE(after.compare(from, data.size() - std::min(from, data.size()), data, from, std::string::npos) == 0, "opening changes stored intervals"); }
}
static void gen_opening(Rng &r, Case &c) {
    c.set("kind", "open"); if (r.chance(20)) c.setn("magic", r.below(128)); if (r.chance(20)) c.setn("rd", r.range(0, 12)); if (r.chance(30)) c.setn("cr", r.range(0, 12)); if (r.chance(20)) c.setn("hs", r.range(400, 500)); if (r.chance(20)) { int64_t p[] = { 0, -1, 4095, 4096, 8191, 8192, 16384, 65536 }; c.setn("ps", p[r.below(8)]); } if (r.chance(15)) c.setn("pc", r.range(1, 5));
    if (r.chance(40)) { int64_t d[] = { 1, -1, 100, -100, 8192, -8192, -30000, -32768, 40000, -32400 }; c.setn("dlen", d[r.below(10)]); } if (r.chance(5)) c.setn("junk", 1 + r.below(1000000)); c.setn("upd", !r.chance(15));
}
// ---- C38: the mapping layer itself
static void mapping(Case const &c) {
    Rng r(c.i("hist") + 5); Mmap *m = NewMmap(); m->setAllocationStrategy(allocateSparse); std::string path = fresh("m"); int64_t len = c.i("len"); std::string img; for (int64_t k = 0; k < len; ++k) img += (char)r.next();
    { std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc); f.write(img.data(), img.size()); }
    int fd = m->open(path.c_str(), O_RDWR); VH_REQUIRE(fd >= 0, "open"); struct Mp { char *p; int64_t o; size_t s; }; std::vector<Mp> live; 
    for (int k = 0; k < 30; ++k) { int o = r.below(10);
        if (o < 4 && live.size() < 4) { Mp q; q.s = 1 + r.below(300); q.o = r.below(len + 100); bool over = false; for (size_t i = 0; i < live.size(); ++i) over |= q.o < live[i].o + (int64_t)live[i].s && live[i].o < q.o + (int64_t)q.s; if (over) continue;
            void *junk = malloc(q.s + 24); memset(junk, 0xa5, q.s + 24); free(junk);
            q.p = (char *)m->map(fd, q.o, q.s, true); VH_REQUIRE(q.p != 0, "map"); for (size_t i = 0; i < q.s; ++i) { char w = q.o + (int64_t)i < (int64_t)img.size() ? img[q.o + i] : 0; VH_REQUIRE(q.p[i] == w, "byte %zu of a mapping at %lld of a file of %zu bytes is %d, must be %d", i, (long long)q.o, img.size(), q.p[i], w); } live.push_back(q); }
        else if (o < 7 && live.size()) { Mp &q = live[r.below(live.size())]; for (int i = 0; i < 5; ++i) q.p[r.below(q.s)] = (char)r.next(); }
        else if (live.size()) { size_t i = r.below(live.size()); Mp q = live[i]; if ((int64_t)img.size() < q.o + (int64_t)q.s) img.resize(q.o + q.s, 0); img.replace(q.o, q.s, std::string(q.p, q.s)); if (o < 9) { VH_REQUIRE(m->flush(q.p, q.s, false), "flush"); } else { VH_REQUIRE(m->unmap(q.p, q.s), "unmap"); live.erase(live.begin() + i); }
            VH_REQUIRE(slurp(path) == img, "after %s the file differs", o < 9 ? "a flush" : "an unmap"); } }
    for (size_t i = 0; i < live.size(); ++i) m->unmap(live[i].p, live[i].s); m->close(fd); int64_t a, b, cc, d; m->counters(&a, &b, &cc, &d); VH_REQUIRE(a == b && cc == d, "%lld maps, %lld unmaps", (long long)a, (long long)b); m->dispose();
}

void vh_gen(std::string const &prop, Rng &r, Case &c, uint64_t n) {
    if (prop == "C03") gen_addressing(r, c, n);
    else if (prop == "C07") gen_create(r, c);
    else if (prop == "C08") gen_opening(r, c);
    else if (prop == "C38") { c.set("kind", "map"); c.setn("hist", r.below(1000000000)); c.setn("len", r.below(2000)); }
    else gen_history(prop, r, c);
}
void vh_run(std::string const &prop, Case const &c) {
    std::string k = c.s("kind");
    if (k == "hist") history(prop, c); else if (k == "raw") one_update(c); else if (k == "flushexp") one_flush(c); else if (k == "create") create(c); else if (k == "open") opening(c); else if (k == "map") mapping(c);
    else if (prop == "C03") addressing(c);
}
