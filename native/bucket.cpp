// Oracles for istat::Bucket: C01, C02
#include "vh.h"
#include <istat/Bucket.h>
#include <limits>
using namespace istat;
struct Raw { int64_t t; double s; float q, mi, ma; int32_t c; };
static Raw raw(Bucket const &b) { Raw r; r.t = b.time_; r.s = b.sum_; r.q = b.sumSq_; r.mi = b.min_; r.ma = b.max_; r.c = b.count_; return r; }
static Bucket mk(Case const &c, char const *pre) {
    std::string p = pre; Bucket b(true);
    b.time_ = c.i((p + "time").c_str()); b.sum_ = c.d((p + "sum").c_str()); b.sumSq_ = (float)c.d((p + "sumSq").c_str()); b.min_ = (float)c.d((p + "min").c_str()); b.max_ = (float)c.d((p + "max").c_str()); b.count_ = (int)c.i((p + "count").c_str());
    return b;
}
template<class T> static bool eqv(T a, T b) { return a == b || (a != a && b != b); }
static bool eqr(Raw const &a, Raw const &b) { return a.t == b.t && eqv(a.s, b.s) && eqv(a.q, b.q) && eqv(a.mi, b.mi) && eqv(a.ma, b.ma) && a.c == b.c; }
#define EQ(a, b, what) VH_REQUIRE(eqv((a), (b)), "%s: got %.17g, must be %.17g", what, (double)(a), (double)(b))
static float stab(float f) { if (std::isinf(f)) return f < 0 ? -std::numeric_limits<float>::max() : std::numeric_limits<float>::max(); return f; }

static void merge(Case const &c, std::string const &k) {
    Bucket a = mk(c, "a_"), b = mk(c, "b_"); if (c.i("alias")) b = a;
    Raw A = raw(a), X = raw(b);
    Bucket &o = c.i("alias") ? a : b;
    if (k == "update") {
        a.update(o); Raw N = raw(a);
        if (A.c == 0) { VH_REQUIRE(eqr(N, X), "an empty bucket must become a copy"); }
        else {
            EQ(N.s, A.s + X.s, "sum"); EQ(N.q, (float)(A.q + X.q), "sum of squares");
            VH_REQUIRE(eqv(N.mi, A.mi) || eqv(N.mi, X.mi), "min %g is neither %g nor %g", N.mi, A.mi, X.mi); VH_REQUIRE(eqv(N.ma, A.ma) || eqv(N.ma, X.ma), "max");
            if (A.mi == A.mi && X.mi == X.mi) VH_REQUIRE(N.mi <= A.mi && N.mi <= X.mi, "min %g of %g and %g", N.mi, A.mi, X.mi);
            if (A.ma == A.ma && X.ma == X.ma) VH_REQUIRE(N.ma >= A.ma && N.ma >= X.ma, "max %g of %g and %g", N.ma, A.ma, X.ma);
            VH_REQUIRE(N.c == (int32_t)((uint32_t)A.c + (uint32_t)X.c), "count %d of %d and %d", N.c, A.c, X.c); VH_REQUIRE(N.t == A.t, "time changed");
        }
    }
    if (k == "exp") {
        double l = c.d("l", 0.5); if (!(l > 0 && l <= 1)) return;
        a.expUpdate(o, l); Raw N = raw(a);
        if (A.c == 0) { VH_REQUIRE(eqr(N, X), "an empty bucket must become a copy"); }
        else {
            double y = 1 - l;
            EQ(N.s, A.s * l + X.s * y, "sum"); EQ(N.q, (float)(A.q * l + X.q * y), "sum of squares"); EQ(N.mi, (float)(A.mi * l + X.mi * y), "min"); EQ(N.ma, (float)(A.ma * l + X.ma * y), "max");
            double cc = A.c * l + X.c * y + 0.5; if (cc < 2147483647.0 && cc > -2147483648.0) { int w = (int)cc; if (w < 1) w = 1; VH_REQUIRE(N.c == w, "count %d, must be %d", N.c, w); }
            VH_REQUIRE(N.t == X.t, "time");
        }
    }
    if (k == "coll") {
        double v = c.d("v"); int64_t t = c.i("t"); a.collatedUpdate(v, t); Raw N = raw(a); double s = A.s + v;
        EQ(N.s, s, "sum"); EQ(N.mi, (float)s, "min"); EQ(N.ma, (float)s, "max"); EQ(N.q, (float)(s * s), "sum of squares"); VH_REQUIRE(N.c == 1, "count %d", N.c); VH_REQUIRE(N.t == (A.c == 0 ? t : A.t), "time %lld", (long long)N.t);
    }
    if (k == "copytime") { Bucket n(b, (time_t)c.i("t")); Raw N = raw(n), W = X; W.t = c.i("t"); VH_REQUIRE(eqr(N, W), "copy with another time differs"); }
    if (k == "make") { Bucket n(c.d("s"), (float)c.d("sq"), (float)c.d("mi"), (float)c.d("ma"), (int)c.i("c"), (time_t)c.i("t")); Raw N = raw(n);
        EQ(N.s, c.d("s"), "sum"); EQ(N.q, (float)c.d("sq"), "sum of squares"); EQ(N.mi, (float)c.d("mi"), "min"); EQ(N.ma, (float)c.d("ma"), "max"); VH_REQUIRE(N.c == (int32_t)c.i("c") && N.t == c.i("t"), "count/time"); }
    if (k == "clear") { Bucket n(true); Raw N = raw(n); VH_REQUIRE(N.t == 0 && N.s == 0 && N.q == 0 && N.mi == 0 && N.ma == 0 && N.c == 0, "cleared bucket is not empty"); }
    if (k == "setcount") { a.setCount((int)c.i("c")); Raw N = raw(a), W = A; W.c = (int32_t)c.i("c"); VH_REQUIRE(eqr(N, W), "setCount"); }
    if (k == "fold") {   // a history of folds of exactly representable values equals one fold of all
        Rng r(c.i("hist") + 1); Bucket x(true); double S = 0, Q = 0; int n = 1 + r.below(30), cnt = 0; float mi = 1e30f, ma = -1e30f; int64_t t0 = 0;
        for (int i = 0; i < n; ++i) { int v = (int)r.range(-1000, 1000); int k = 1 + r.below(3); Bucket o(v * k, (float)(v * v * k), v, v, k, 1000 + i); if (!i) t0 = 1000; x.update(o); S += v * k; Q += v * v * k; cnt += k; if (v < mi) mi = v; if (v > ma) ma = v; }
        Raw N = raw(x); VH_REQUIRE(N.s == S && N.c == cnt && N.mi == mi && N.ma == ma && N.t == t0, "fold of %d samples", n); VH_REQUIRE(fabs(N.q - Q) <= 1e-4 * Q + 1, "sumSq of fold");
    }
}
static void stats(Case const &c) {
    Bucket a = mk(c, "a_"); Raw A = raw(a);
    EQ(a.sum(), (double)stab((float)A.s), "sum()"); EQ(a.sumSq(), stab(A.q), "sumSq()"); EQ(a.min(), stab(A.mi), "min()"); EQ(a.max(), stab(A.ma), "max()"); VH_REQUIRE(a.count() == A.c && a.time() == A.t, "count()/time()");
    double av = A.c > 0 ? A.s / (double)A.c : 0; EQ(a.avg(), (double)stab((float)av), "avg()");
    float sd = a.sdev(); VH_REQUIRE(!(sd < 0) && !std::isinf(sd), "sdev() = %g", sd);
    if (A.c < 2) VH_REQUIRE(sd == 0, "sdev() of %d samples = %g", A.c, sd);
    else { double n = A.c; double d = n * (double)A.q - A.s * A.s; if (d < 0) d = 0; EQ(sd, stab((float)sqrt(d / (n * (n - 1)))), "sdev()"); }
}
static double anyd(Rng &r, bool f) {
    switch (r.below(10)) { case 0: return 0; case 1: return r.range(-5, 5); case 2: return r.range(-1000000, 1000000) / 8.0; case 3: return r.chance(50) ? INFINITY : -INFINITY; case 4: return NAN;
        case 5: return (r.chance(50) ? 1 : -1) * (f ? 3.4028234663852886e38 : 1.7e308); case 6: return (r.unit() - 0.5) * 1e-40; case 7: return ldexp(r.unit() - 0.5, (int)r.range(-140, 128)); case 8: return -0.0; default: return (r.unit() - 0.3) * 1000; }
}
static void genb(Rng &r, Case &c, std::string p) {
    c.setn((p + "time").c_str(), r.chance(20) ? 0 : r.range(1, 2000000000)); c.setd((p + "sum").c_str(), anyd(r, r.chance(50))); c.setd((p + "sumSq").c_str(), (float)anyd(r, true)); c.setd((p + "min").c_str(), (float)anyd(r, true)); c.setd((p + "max").c_str(), (float)anyd(r, true));
    c.setn((p + "count").c_str(), r.chance(25) ? 0 : r.chance(70) ? (int64_t)r.range(1, 5) : r.chance(50) ? (int64_t)r.range(1, 1 << 30) : (int64_t)(int32_t)r.next());
}
void vh_gen(std::string const &prop, Rng &r, Case &c, uint64_t n) {
    static char const *k1[] = { "update", "exp", "coll", "copytime", "make", "clear", "setcount", "fold" };
    genb(r, c, "a_"); 
    if (prop == "C01") { c.set("kind", k1[n % 8]); genb(r, c, "b_"); c.setn("alias", r.chance(10)); c.setd("l", r.chance(10) ? 1.0 : r.unit() * 0.999 + 0.001); c.setd("v", anyd(r, false)); c.setn("t", r.range(0, 2000000000)); c.setd("s", anyd(r, false)); c.setd("sq", (float)anyd(r, true)); c.setd("mi", (float)anyd(r, true)); c.setd("ma", (float)anyd(r, true)); c.setn("c", r.range(-3, 1000)); if (n % 8 == 7) c.setn("hist", r.below(1000000000)); }
    else { c.set("kind", "get"); if (r.chance(30)) { int k = 2 + r.below(4); double v = anyd(r, true); c.setn("a_count", k); c.setd("a_sum", v * k); c.setd("a_sumSq", (float)(v * v * k)); } }
}
void vh_run(std::string const &prop, Case const &c) { std::string k = c.s("kind"); if (k == "get") stats(c); else merge(c, k); }
