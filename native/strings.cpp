// Oracles for the string functions: C18 (expansion of names), C19 (safe names), C20 (URL decoding), C21 (split, trim, join), C22 (quoting), C23 (durations), C33 (patterns)
#include "vh.h"
#include <istat/strfunc.h>
#include <stdexcept>
#include <algorithm>
using namespace istat;
typedef std::string S; typedef std::vector<S> V; typedef int64_t L;
static S show(S const &s) { return Case::enc(s); }
static V cut(S const &s, char ch) { V v; S cur; for (size_t i = 0; i < s.size(); ++i) if (s[i] == ch) { v.push_back(cur); cur.clear(); } else cur += s[i]; v.push_back(cur); return v; }
// ---- C18
static void expand(Case const &c) {
    S s = c.s("s"); V out(1, "kept"), want(1, "kept"); S base = "?"; extract_ctrs(s, out, base); V p = cut(s, '^');
    if (p.size() == 1) { if (!s.empty()) want.push_back(s); }
    else { S b = p[0].empty() ? "" : p[0] + "."; for (size_t i = 1; i < p.size(); ++i) if (!p[i].empty()) want.push_back(b + p[i]); if (p.back().empty() && !p[0].empty()) want.push_back(p[0]); }
    VH_REQUIRE(out.size() == want.size(), "'%s' expands to %zu names, want %zu", show(s).c_str(), out.size(), want.size());
    for (size_t i = 0; i < out.size(); ++i) VH_REQUIRE(out[i] == want[i], "'%s' name %zu is '%s', want '%s'", show(s).c_str(), i, show(out[i]).c_str(), show(want[i]).c_str());
    if (!s.empty()) VH_REQUIRE(base == p[0], "'%s' base '%s'", show(s).c_str(), show(base).c_str());
}
// ---- C19
static void names(Case const &c) {
    S s = c.s("s"), m = s; munge(m); VH_REQUIRE(m.size() == s.size(), "length of '%s' changes", show(s).c_str());
    for (size_t i = 0; i < m.size(); ++i) { unsigned char x = m[i], o = s[i]; bool bad = o < 33 || o > 126 || strchr("/:\\\"'", o); unsigned char w = bad ? '_' : o >= 'A' && o <= 'Z' ? o + 32 : o; VH_REQUIRE(x == w, "byte %02x becomes %02x, want %02x", o, x, w); }
    S t = m; munge(t); VH_REQUIRE(t == m, "cleaning '%s' twice changes it", show(s).c_str());
    S f = counter_filename(m); VH_REQUIRE(f.size() == m.size(), "file name length"); for (size_t i = 0; i < f.size(); ++i) VH_REQUIRE(f[i] == (m[i] == '.' ? '/' : m[i]), "file name '%s' of '%s'", show(f).c_str(), show(m).c_str());
    S p = s; prom_munge(p); bool dig = !s.empty() && s[0] >= '0' && s[0] <= '9'; VH_REQUIRE(p.size() == s.size() + dig, "prometheus name of '%s' is '%s'", show(s).c_str(), show(p).c_str());
    for (size_t i = 0; i < s.size(); ++i) { unsigned char o = s[i]; bool al = (o >= 'a' && o <= 'z') || (o >= 'A' && o <= 'Z') || (o >= '0' && o <= '9') || o == '_'; unsigned char w = !al ? '_' : o >= 'A' && o <= 'Z' ? o + 32 : o; VH_REQUIRE((unsigned char)p[i + dig] == w, "prometheus name of '%s' is '%s'", show(s).c_str(), show(p).c_str()); }
    if (dig) VH_REQUIRE(p[0] == '_', "prometheus name starts with %c", p[0]);
    bool ok = true; for (size_t i = 0; i < s.size(); ++i) if (!((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_' || s[i] == '-' || s[i] == '.')) ok = false;
    VH_REQUIRE(is_valid_settings_name(s) == ok, "settings name '%s'", show(s).c_str());
}
// ---- C20
static int hv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static S undo(S const &s, bool &exact) { S o; exact = true; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '+') o += ' '; else if (s[i] == '%') { if (i + 2 < s.size()) { int a = hv(s[i + 1]), b = hv(s[i + 2]); if (a < 0 || b < 0) exact = false; o += (char)(a * 16 + b); i += 2; } else { o += '%'; break; } } else o += s[i]; return o; }
static void url(Case const &c) {
    S s = c.s("s"), d = s; d.reserve(s.size()); urldecode(d); VH_REQUIRE(d.size() <= s.size(), "decoding grows"); bool exact; S w = undo(s, exact);
    VH_REQUIRE(d.size() == w.size() && (!exact || d == w), "'%s' decodes to '%s', want '%s'", show(s).c_str(), show(d).c_str(), show(w).c_str());
    S e; char b[4]; for (size_t i = 0; i < s.size(); ++i) { unsigned char x = s[i]; if (x == ' ') e += '+'; else if (isalnum(x)) e += x; else { snprintf(b, 4, x & 1 ? "%%%02x" : "%%%02X", x); e += b; } } d = e; urldecode(d); VH_REQUIRE(d == s, "'%s' encoded as '%s' decodes to '%s'", show(s).c_str(), show(e).c_str(), show(d).c_str());
    std::map<S, S> q, want; int n = querystring(s, q), wn = 0; V p = cut(s, '&'); for (size_t i = 0; i < p.size(); ++i) { if (p[i].empty()) { break; } size_t k = p[i].find('='); if (k == S::npos) continue; S a = p[i].substr(0, k), v = p[i].substr(k + 1); bool x1, x2; undo(a, x1); undo(v, x2); if (!x1 || !x2) return; want[undo(a, x1)] = undo(v, x2); ++wn; }
    bool emptyPart = false; for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i].empty()) emptyPart = true;
    if (!emptyPart) VH_REQUIRE(n == wn && q == want, "query '%s' gives %d settings, want %d", show(s).c_str(), n, wn);
}
// ---- C21
static void helpers(Case const &c) {
    S s = c.s("s"); char ch = (char)c.i("ch", ','); S l = "l", r = "r"; int n = split(s, ch, l, r); size_t p = s.find(ch);
    if (s.empty()) VH_REQUIRE(n == 0 && l.empty() && r.empty(), "split of nothing gives %d", n); else if (p == S::npos) VH_REQUIRE(n == 1 && l == s && r.empty(), "split of '%s'", show(s).c_str()); else VH_REQUIRE(n == 2 && l == s.substr(0, p) && r == s.substr(p + 1), "split of '%s'", show(s).c_str());
    { S a = s, lf; n = split(a, ch, lf, a); VH_REQUIRE(lf == l && a == r, "split of '%s' in place", show(s).c_str()); }
    V parts = cut(s, ch), ex; explode(s, ch, ex); V want = parts; if (want.back().empty()) want.pop_back(); VH_REQUIRE(ex == want, "'%s' explodes to %zu parts, want %zu", show(s).c_str(), ex.size(), want.size());
    for (int k = 2; k <= 6; ++k) {
        S o[6]; int g = k == 2 ? splitn(s, ch, o[0], o[1]) : k == 3 ? splitn(s, ch, o[0], o[1], o[2]) : k == 4 ? splitn(s, ch, o[0], o[1], o[2], o[3]) : k == 5 ? splitn(s, ch, o[0], o[1], o[2], o[3], o[4]) : splitn(s, ch, o[0], o[1], o[2], o[3], o[4], o[5]);
        int w = std::min((int)parts.size(), k); VH_REQUIRE(g == w, "splitting '%s' into %d gives %d parts, want %d", show(s).c_str(), k, g, w);
        S join; for (int i = 0; i < w; ++i) { if (i) join += ch; join += o[i]; if (i + 1 < w || w < k) VH_REQUIRE(o[i] == parts[i], "part %d of '%s'", i, show(s).c_str()); } VH_REQUIRE(join == s, "parts of '%s' join to '%s'", show(s).c_str(), show(join).c_str()); for (int i = w; i < k; ++i) VH_REQUIRE(o[i].empty(), "part %d of '%s' is not empty", i, show(s).c_str());
        S a = s; o[1] = "x"; g = k == 2 ? splitn(a, ch, a, o[1]) : k == 3 ? splitn(a, ch, a, o[1], o[2]) : g; if (k < 4) VH_REQUIRE(a == parts[0], "splitting '%s' in place", show(s).c_str());
    }
    { S t = s; trim(t); size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) ++a; while (b > a && isspace((unsigned char)s[b - 1])) --b; VH_REQUIRE(t == s.substr(a, b - a), "'%s' trims to '%s'", show(s).c_str(), show(t).c_str()); }
    { S t = s; bool g = stripext(t); size_t d = s.rfind('.'); VH_REQUIRE(g == (d != S::npos) && t == (g ? s.substr(0, d) : s), "extension of '%s' strips to '%s'", show(s).c_str(), show(t).c_str()); }
    { S x = c.s("t"), j = combine_paths(s, x), w = !x.empty() && x[0] == '/' ? x : s.empty() ? x : s[s.size() - 1] == '/' ? s + x : s + "/" + x; VH_REQUIRE(j == w, "'%s' and '%s' combine to '%s'", show(s).c_str(), show(x).c_str(), show(j).c_str()); }
}
// ---- C22
static void quoting(Case const &c) {
    S s = c.s("s");
    for (int k = 0; k < 2; ++k) {
        S q = k ? js_quote(s) : sql_quote(s), u = k ? js_unquote(q) : sql_unquote(q); VH_REQUIRE(u == s, "%s: '%s' quotes to '%s' and back to '%s'", k ? "js" : "sql", show(s).c_str(), show(q).c_str(), show(u).c_str());
        for (size_t i = 0; i < q.size(); ++i) { char x = q[i]; VH_REQUIRE(x != 0 && x != '\n' && x != '\r' && x != '"' && x != '\'', "%s: raw character %02x in '%s'", k ? "js" : "sql", (unsigned char)x, show(q).c_str()); if (x == '\\') { ++i; VH_REQUIRE(i < q.size(), "dangling backslash in '%s'", show(q).c_str()); VH_REQUIRE(strchr(k ? "\\'\"0btnr" : "\\'\"%_0btnrZ", q[i]) && q[i], "unknown escape in '%s'", show(q).c_str()); } }
        S d = k ? js_unquote(s) : sql_unquote(s); VH_REQUIRE(d.size() <= s.size(), "unquoting grows");
    }
}
// ---- C23
static void durations(Case const &c) {
    L n = c.i("n"); S t = seconds_to_interval(n); L b = -1; try { b = interval_to_seconds(t); } catch (std::exception &e) { VH_REQUIRE(false, "%lld seconds are written as '%s', which is refused", (long long)n, t.c_str()); }
    VH_REQUIRE(b == n, "%lld seconds are written as '%s', which reads as %lld", (long long)n, t.c_str(), (long long)b);
    S s = c.s("s"); L want = 0; bool ok = !s.empty(); size_t i = 0; int groups = 0;
    while (ok && i < s.size()) { L v = 0; size_t d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { v = v * 10 + (s[i] - '0'); ++i; ++d; } if (!d || d > 9) { if (d > 9) return; ok = false; break; } size_t u = i; while (u < s.size() && !isdigit((unsigned char)s[u])) ++u; if (u != i + 1) { ok = false; break; } L m = s[i] == 's' ? 1 : s[i] == 'm' ? 60 : s[i] == 'h' ? 3600 : s[i] == 'd' ? 86400 : s[i] == 'y' ? 365 * 86400LL : 0; if (!m) { ok = false; break; } want += v * m; ++i; ++groups; }
    bool thrown = false; L g = 0; try { g = interval_to_seconds(s); } catch (std::exception &) { thrown = true; }
    VH_REQUIRE(thrown == !ok, "duration '%s' is %s", show(s).c_str(), thrown ? "refused" : "accepted"); if (ok) VH_REQUIRE(g == want, "duration '%s' is %lld seconds, want %lld", show(s).c_str(), (long long)g, (long long)want);
}
// ---- C33
static bool glob(S const &s, S const &p) {
    std::vector<std::vector<char> > m(p.size() + 1, std::vector<char>(s.size() + 1, 0)); m[p.size()][s.size()] = 1;
    for (size_t i = p.size(); i-- > 0;) for (size_t j = s.size() + 1; j-- > 0;) { if (p[i] == '*') m[i][j] = m[i + 1][j] || (j < s.size() && m[i][j + 1]); else if (p[i] == '?') m[i][j] = m[i + 1][j] || (j < s.size() && s[j] != '.' && m[i][j + 1]); else m[i][j] = j < s.size() && s[j] == p[i] && m[i + 1][j + 1]; }
    return m[0][0];
}
static void pattern(Case const &c) { S s = c.s("s"), p = c.s("p"); bool g = str_pat_match(s, p), w = glob(s, p); VH_REQUIRE(g == w, "'%s' %s '%s'", show(s).c_str(), g ? "matches" : "does not match", show(p).c_str()); }
static S text(Rng &r, char const *alpha, int max, bool bytes = false) { S o; int n = r.chance(5) ? r.range(0, max * 8) : r.range(0, max); size_t k = strlen(alpha); for (int i = 0; i < n; ++i) o += bytes && r.chance(20) ? (char)r.below(256) : alpha[r.below(k)]; return o; }
void vh_gen(S const &p, Rng &r, Case &c, uint64_t n) {
    if (p == "C18") { c.set("kind", "expand"); c.set("s", text(r, "ab.^^x", 10, r.chance(10))); }
    else if (p == "C19") { c.set("kind", "names"); c.set("s", text(r, "aB.9/:\\\"'_-~ ", 12, true)); }
    else if (p == "C20") { c.set("kind", "url"); c.set("s", text(r, r.chance(50) ? "%%+a4fF09x" : "&=ab%20+", 12, r.chance(30))); }
    else if (p == "C21") { c.set("kind", "helpers"); c.setn("ch", r.chance(70) ? ',' : r.chance(50) ? '/' : (int)r.below(128)); c.set("s", text(r, ",,a b./\t", 12, r.chance(20))); c.set("t", text(r, "/ab.", 5)); }
    else if (p == "C22") { c.set("kind", "quote"); S s = text(r, "\\\\'\"%_0nrtbZ\n\r\t\b\x1a", 10, true); if (r.chance(30)) s += '\0'; c.set("s", s); }
    else if (p == "C23") { c.set("kind", "duration"); L v = r.chance(30) ? r.range(0, 200) : r.chance(50) ? r.range(0, 100000000) : r.range(0, 100) * 86400 * 365 + r.range(0, 400) * 86400 + r.range(0, 25) * 3600 + r.range(0, 61) * 60 + r.range(0, 61); c.setn("n", v); c.set("s", r.chance(60) ? text(r, "0123smhdy", 8) : text(r, "1s2m", 6, true)); }
    else if (p == "C33") { c.set("kind", "pattern"); S s = text(r, "aab.", 9), q; for (size_t i = 0; i < s.size(); ++i) { int k = r.below(10); if (k < 6) q += s[i]; else if (k == 6) q += '?'; else if (k == 7) q += '*'; else if (k == 8) { q += r.chance(50) ? "?" : "*"; q += s[i]; } } if (r.chance(20)) q = text(r, "ab.?*", 8); if (r.chance(15)) q += r.chance(50) ? "*" : "?"; c.set("s", s); c.set("p", q); }
}
void vh_run(S const &p, Case const &c) { S k = c.s("kind"); if (k == "expand") expand(c); else if (k == "names") names(c); else if (k == "url") url(c); else if (k == "helpers") helpers(c); else if (k == "quote") quoting(c); else if (k == "duration") durations(c); else if (k == "pattern") pattern(c); }
