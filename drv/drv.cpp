// Codec driver: runs cases of one check over dynamically loaded builds of the repository's codecs.
// usage: drv <check> <lib dir> <seed> <first> <last+1> <report> <current case file> <tier>
#include "common.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define ASAN 1
#else
#define ASAN 0
#endif

static Report rep;
static std::string libdir; static uint64_t seed; static bool thorough;
static Lib lib[4], clean_[4], rho[4], ms[4];
static const double GAPMIN = 2e-8;

#define FAIL(key, ...) do { char b_[4096]; snprintf(b_, sizeof b_, __VA_ARGS__); rep.violation(key, b_); } while (0)

static VD scaled(const VD &y, double sg) { VD v = y; for (auto &t : v) t *= 2.0 / (sg * sg); return v; }

struct RefOut { bool ok = false; VI x; int rc = 0; uint64_t prunes = 0, maxl = 0; double gap = 0; bool first = true; };

static RefOut ref_sc(const Spec &s, const VD &y, double sg) {
  VD t = scaled(y, sg); Sc<EpsA> a; Sc<LlrA> b; a.ml1 = b.ml1 = s.kind == D1;
  RefOut o; o.x = a.run(t, s.m, s.r); VI xb = b.run(t, s.m, s.r);
  o.gap = std::min(a.gap.g, b.gap.g); o.ok = o.x == xb && o.gap > GAPMIN; return o;
}
template <class A> static RefOut ref_list1(const Spec &s, const VD &t, std::vector<VI> perms) {
  Scl<A> a; a.mask = s.mask; a.L = s.L; a.polar = s.kind == POL;
  if (perms.empty()) { VI p(s.m); for (int i = 0; i < s.m; i++) p[i] = i; perms.push_back(p); }
  std::vector<ListRes> l = a.run(t, s.m, s.r, s.code, perms);
  RefOut o; o.prunes = a.prunes; o.maxl = a.maxl;
  size_t best = 0;
  auto valid = [&](const ListRes &q) {
    if (s.crc.empty()) return true;
    int k = s.k(); VI x(q.x.begin(), q.x.begin() + k), c(q.x.begin() + k, q.x.end()); return crc_rem(x, s.crc) == c;
  };
  bool any = false;
  for (size_t i = 0; i < l.size(); i++) if (valid(l[i])) { best = i; any = true; break; }
  o.rc = any ? 0 : 1; o.first = best == 0;
  for (size_t i = 0; i < l.size(); i++) if (i != best && (!any || valid(l[i])) && l[i].x != l[best].x) a.gap.see(l[i].met - l[best].met);
  o.x.assign(l[best].x.begin(), l[best].x.begin() + s.k()); o.gap = a.gap.g; o.ok = true;
  return o;
}
static RefOut ref_list(const Spec &s, const VD &y, double sg) {
  VD t = scaled(y, sg); RefOut a = ref_list1<EpsA>(s, t, s.perms), b = ref_list1<LlrA>(s, t, s.perms);
  a.ok = a.x == b.x && a.rc == b.rc && a.gap > GAPMIN && b.gap > GAPMIN; return a;
}
static RefOut ref(const Spec &s, const VD &y, double sg) { return s.kind <= D1 ? ref_sc(s, y, sg) : ref_list(s, y, sg); }

static bool opened(Inst &c, Lib &l, const Spec &s) {
  if (!c.open(l, s.str())) { FAIL("init", "valid description rejected: %s", s.desc().c_str()); return false; }
  if (c.n != s.n() || c.k != s.k()) { FAIL("dims", "%s: n=%d k=%d, expected n=%d k=%d", s.desc().c_str(), c.n, c.k, s.n(), s.k()); return false; }
  return true;
}
static uint64_t hcase(const Spec &s, const VD &y) { return fnv(y.data(), y.size() * 8, hstr(s.desc())); }

static void cmp_dec(const Spec &s, const Rx &q, const RefOut &o, Inst &c, const char *what) {
  c.sg(q.dec_sg); int rc; VI x = c.dec(q.y, &rc);
  if (x != o.x || rc != o.rc)
    FAIL(what, "%s sg=%.17g: decoded %s rc=%d, expected %s rc=%d; y=%s", s.desc().c_str(), q.dec_sg, show(x).c_str(), rc, show(o.x).c_str(), o.rc, show(q.y).c_str());
}

// Long codes.  The noise is near the level at which they are used.
static double used_sg(Rng &R, const Spec &s) { double r = (double)s.k() / s.n(); return std::max(0.3, 1 / std::sqrt(2 * r * std::pow(10.0, 0.5 * R.u()))); }
static Spec gen_long(Rng &R, int kind, int lo, int hi, bool crc = false) {
  Spec s; s.kind = kind; s.m = R.in(lo, hi);
  if (kind == POL) {
    Gen g; g.mmin = g.mmax = s.m; g.lmax = 8; g.kmax = s.n() / 2; g.good = R.p(0.7); return gen_polar(R, g, crc);
  }
  s.r = R.p(0.8) ? R.in(1, 3) : s.m - R.in(0, 1);
  if (kind == GLP) {
    int nn = nodes_num(s.m, s.r); s.mask.assign(nn, '1'); s.L = R.in(1, 8);
    if (R.p(0.5)) { double d = R.p(0.3) ? 0.05 : 0.6; for (auto &c : s.mask) c = R.p(d) ? '1' : '0'; s.mask[R.p(0.5) ? nn - 1 : R.in(0, nn - 1)] = '1'; }
  }
  s.build(); return s;
}

// Now and then a code of medium length with short lists.
static bool medium(Rng &R, Gen &g, double p = 0.02) { if (!R.p(p)) return false; g.mmin = 7; g.mmax = 9; g.lmax = R.p(0.2) ? 32 : 8; g.good = R.p(0.7); return true; }
static void tell_medium(const Spec &s) { if (s.m >= 7) rep.count("decided, length 128 and more"); rep.maxi("max n", s.n()); }

// ----- C01: dimensions and encoder.
static void c01_long(Rng &R) {
  Spec s; s.kind = R.in(0, 3); s.L = 1; s.m = R.in(12, 17);
  if (s.kind == POL) {
    s.mask.assign(s.n(), '0'); int k = R.p(0.5) ? R.in(1, 40) : R.in(1, s.n() / 16); for (int i = 0; i < k; i++) s.mask[R.in(0, s.n() - 1)] = '1'; s.mask[R.p(0.5) ? s.n() - 1 : 0] = '1';
    int ck = (int)std::count(s.mask.begin(), s.mask.end(), '1'); if (ck > 2 && R.p(0.4)) s.crc = rnd_word(R, R.in(1, std::min(ck / 2, 64)));
  } else {
    s.r = R.p(0.5) ? R.in(1, 3) : R.in(1, std::min(15, s.m));
    if (s.kind != GLP && R.p(0.3)) { s.m = R.in(18, 20); s.r = R.p(0.7) ? R.in(1, 2) : R.in(3, 5); }
    if (s.kind == GLP) {
      if (R.p(0.15)) { s.m = 19; s.r = 9; }
      int nn = nodes_num(s.m, s.r); s.mask.assign(nn, '0'); for (int i = R.in(1, 12); i; i--) s.mask[R.p(0.3) ? nn - 1 - R.in(0, std::min(nn - 1, 20)) : R.in(0, nn - 1)] = '1';
    }
  }
  if (rep.idx < 3) { s.kind = (int)rep.idx; s.m = 24; s.r = 1; s.perms.clear(); s.mask = s.kind == GLP ? std::string(nodes_num(24, 1), '1') : ""; } // the longest
  s.build(); Inst c; if (!opened(c, lib[s.kind], s)) return;
  int k = s.k(); rep.count("long codes"); rep.maxi("max n", s.n()); rep.maxi("max k", k);
  for (int t = 0; t < 4; t++) {
    VI x = rnd_word(R, k); if (t == 1) { x.assign(k, 0); x[R.p(0.5) ? k - 1 : R.in(0, k - 1)] = 1; } else if (t == 2) x.assign(k, 1);
    VD y = c.enc(x), e = bpsk(code_word(s.code, x)); rep.count("encodings");
    if (y != e) { size_t i = 0; while (y[i] == e[i]) i++; FAIL("enc-long", "%.1500s x=%s: wrong symbol %zu of the codeword", s.desc().c_str(), show(x, 300).c_str(), i); return; }
  }
  rep.nontrivial(hstr(s.desc()));
}
static void c01(Rng &R) {
  if (R.p(0.012) || rep.idx < 3) { c01_long(R); return; }
  Gen g; g.mmax = R.p(0.05) ? 12 : R.p(0.3) ? 8 : 6; Spec s = gen_any(R, g);
  if (s.m > 9 && s.kind != POL && s.k() > 2000) { s.r = 2; if (s.kind == GLP) s.mask.assign(nodes_num(s.m, s.r), '1'); s.build(); }
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  std::vector<VI> words; int k = s.k();
  if (k <= 6) for (int v = 0; v < (1 << k); v++) { VI x(k); for (int i = 0; i < k; i++) x[i] = (v >> i) & 1; words.push_back(x); }
  else {
    words.push_back(VI(k, 0)); words.push_back(VI(k, 1));
    for (int i = 0; i < 12; i++) words.push_back(rnd_word(R, k));
    for (int i = 0; i < (k < 64 ? k : 20); i++) { VI x(k, 0); x[k < 64 ? i : R.in(0, k - 1)] = 1; words.push_back(x); }
  }
  for (auto &x : words) {
    VD y = c.enc(x), e = bpsk(code_word(s.code, x)); rep.count("encodings");
    if (y != e) { FAIL("enc", "%s x=%s: encoded %s, expected %s", s.desc().c_str(), show(x).c_str(), show(y).c_str(), show(e).c_str()); return; }
  }
  // The same code in other families.
  if (s.kind != POL && (s.kind != GLP || s.mask.find('0') == std::string::npos)) {
    Spec t = s; t.crc.clear(); t.perms.clear(); t.L = 2;
    for (int kd = D0; kd <= POL; kd++) {
      if (kd == s.kind) continue;
      t.kind = kd; t.mask = kd == POL ? rm_polar_mask(s.m, s.r) : kd == GLP ? std::string(nodes_num(s.m, s.r), '1') : ""; t.build();
      Inst d; if (!opened(d, lib[kd], t)) return;
      for (size_t i = 0; i < words.size() && i < 16; i++) {
        VD y = c.enc(words[i]), z = d.enc(words[i]); rep.count("cross family encodings");
        if (y != z) { FAIL("enc-cross", "%s and %s encode %s differently", s.desc().c_str(), t.desc().c_str(), show(words[i]).c_str()); return; }
      }
    }
  }
  rep.nontrivial(hstr(s.desc())); rep.count(std::string("codes ") + lib_names[s.kind]); rep.maxi("max n", s.n());
  rep.sample(s.desc() + " x=" + show(words.back()));
}

// ----- C02: noiseless.
static void c02(Rng &R) {
  Gen g; g.mmax = R.p(0.05) ? 11 : 7; g.lmax = 32; Spec s = gen_any(R, g);
  if (R.p(0.004)) { s = gen_long(R, s.kind, 12, 15); if (R.p(0.15) && s.kind == GLP) { s.m = s.r = R.in(13, 15); s.mask = "1"; s.L = R.in(1, 4); s.build(); } else if (s.kind != POL && s.m > 13 && s.r > 3) { s.r = R.in(1, 3); if (s.kind == GLP) s.mask.assign(nodes_num(s.m, s.r), '1'); s.build(); } rep.count("long codes"); }
  if (s.n() > 256) s.L = std::min(s.L, 4);
  if (R.p(0.4)) give_perms(R, s, R.in(1, 6));
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  for (int t = 0; t < 4; t++) {
    VI x = rnd_word(R, s.k()); VD y = bpsk(code_word(s.code, x));
    double sg = R.p(0.5) ? std::pow(10.0, -15 * R.u()) : std::pow(10.0, -1 + 1.3 * R.u());
    double a = 1; bool fade = false;
    if (R.p(0.5)) a = std::pow(10.0, 4 * R.u() - 2);
    double lo = 1e300;
    if (R.p(0.3)) { fade = true; for (auto &v : y) { double b = a * std::exp(0.5 * R.g()); v *= b; lo = std::min(lo, b); } } else { for (auto &v : y) v *= a; lo = a; }
    // The product of all soft values must stay significant.
    double e = std::tanh(lo / (sg * sg)), ex = s.kind == POL ? s.n() : std::pow(2.0, s.r);
    if (!(ex * std::log(e) > std::log(1e-8))) { rep.count("skipped: underflow"); continue; }
    c.sg(sg); int rc; VI d = c.dec(y, &rc); rep.count("decodings"); if (lo / (sg * sg) > 9.2) rep.count("saturated decodings");
    if (d != x || rc != 0) { FAIL("noiseless", "%s sg=%.17g scale=%g fading=%d: sent %s, decoded %s rc=%d", s.desc().c_str(), sg, a, fade, show(x).c_str(), show(d).c_str(), rc); return; }
    rep.nontrivial(hcase(s, y) ^ fnv(&sg, 8));
    rep.maxi("max n", s.n()); rep.maxi("max permutations", s.perms.size());
    rep.sample(s.desc() + " sg=" + std::to_string(sg) + " x=" + show(x));
  }
}

// ----- C03..C07: decoders against reference models.
// Another unit of the channel: reliabilities stay the same.
static void rescale(Rng &R, Rx &q) { if (!R.p(0.15)) return; double a = std::pow(10.0, 14 * R.u() - 7); q.dec_sg *= a; for (auto &v : q.y) v *= a * a; }
static void dec_ref(Rng &R, const Spec &s, int words, double lo, double hi, const char *key) {
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  for (int t = 0; t < words; t++) {
    Rx q = gen_rx(R, s, lo, hi); rescale(R, q); RefOut o = ref(s, q.y, q.dec_sg); rep.count("vectors");
    if (!o.ok) { rep.count("skipped: ties"); continue; }
    rep.count("decided"); bool err = o.x != q.x; if (err) rep.count("decoding errors");
    if (o.prunes) rep.count("decided with pruning");
    if (s.kind == POL && !s.crc.empty()) { if (o.rc) rep.count("erasures"); else if (!o.first) rep.count("valid but not the best metric"); }
    int v0 = rep.viol; cmp_dec(s, q, o, c, key); if (rep.viol > v0) return;
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 8) + " -> " + show(o.x));
  }
  rep.count("codes"); rep.maxi("max n", s.n()); rep.maxi("max list", s.L);
}
static void dec_long(Rng &R, int kind, int lo, int hi, const char *key, bool crc = false) {
  Spec s = gen_long(R, kind, lo, hi, crc); double sg = used_sg(R, s); uint64_t d0 = rep.cnt["decided"]; dec_ref(R, s, 3, sg * 0.8, sg * 1.1, key); rep.count("decided, long codes", rep.cnt["decided"] - d0); if (rep.cnt["decided"] > d0) rep.maxi("max n decided", s.n());
}
static void huge_list(Rng &R, Spec &s) { s.L = R.in(1001, 6000); s.build(); rep.count("codes with lists above 1000"); if (s.code.coef.size() > 12) rep.count("lists above 1000 that are cut"); }
static void c03(Rng &R) { if (R.p(0.005)) { dec_long(R, D0, 9, R.p(0.4) ? 15 : 12, "dtrm0"); return; } Gen g; g.mmax = R.p(0.1) ? 9 : 7; Spec s = gen_rm(R, D0, g); dec_ref(R, s, 8, 0.35, 1.2, "dtrm0"); }
static void c04(Rng &R) { if (R.p(0.005)) { dec_long(R, D1, 9, R.p(0.4) ? 15 : 12, "dtrm1"); return; } Gen g; g.mmax = R.p(0.1) ? 9 : 7; Spec s = gen_rm(R, D1, g); if (s.r == 1 && R.p(0.5)) { s.r = std::min(2, s.m); s.build(); } dec_ref(R, s, 8, 0.35, 1.2, "dtrm1"); }
static void c05(Rng &R) { if (R.p(0.02)) { dec_long(R, GLP, 7, R.p(0.1) ? 13 : 11, "glp"); return; } Gen g; g.mmin = 1; g.mmax = R.p(0.25) ? 6 : 5; g.lmax = R.p(0.02) ? 1000 : R.p(0.08) ? 256 : 32; bool huge = R.p(0.0006); if (huge) { g.mmin = 5; g.mmax = 6; } Spec s = gen_rm(R, GLP, g); if (huge) huge_list(R, s); dec_ref(R, s, 4, 0.4, 1.3, "glp"); }
static void c06(Rng &R) { if (R.p(0.02)) { dec_long(R, POL, 7, R.p(0.1) ? 13 : 11, "polar"); return; } Gen g; g.mmin = 1; g.mmax = R.p(0.25) ? 6 : 5; g.lmax = R.p(0.02) ? 1000 : R.p(0.08) ? 256 : 32; bool huge = R.p(0.0006); if (huge) { g.mmin = 5; g.mmax = 6; } Spec s = gen_polar(R, g, false); if (huge) huge_list(R, s); dec_ref(R, s, 4, 0.4, 1.3, "polar"); }
static void c07(Rng &R) { if (R.p(0.005)) { dec_long(R, POL, 7, R.p(0.2) ? 12 : 9, "ca-polar", true); return; } Gen g; g.mmin = 2; g.mmax = R.p(0.25) ? 6 : 5; g.lmax = R.p(0.02) ? 1000 : R.p(0.08) ? 256 : 32; bool huge = R.p(0.0006); if (huge) { g.mmin = 5; g.mmax = 6; } Spec s = gen_polar(R, g, true); if (huge) huge_list(R, s); dec_ref(R, s, 4, 0.4, 1.4, "ca-polar"); }

// ----- C08: CRC.
static void crc_one(int *(*calc)(const int *, int, const int *, int, int *), int (*val)(const int *, int, const int *, int, int *), const VI &x, const VI &p, Rng &R) {
  int n = (int)x.size(), L = (int)p.size(); VI r = crc_rem(x, p), xi = x, pi = p, buf(n + 8, 5);
  int *c = calc(xi.data(), n, pi.data(), L, buf.data()); rep.count("remainders");
  VI got(c, c + L);
  if (got != r || xi != x || pi != p) { FAIL("crc", "x=%s poly=%s: crc %s, expected %s, inputs %s", show(x, 300).c_str(), show(p, 300).c_str(), show(got, 300).c_str(), show(r, 300).c_str(), xi != x || pi != p ? "changed" : "kept"); return; }
  for (int i = n; i < n + 8; i++) if (buf[i] != 5) { FAIL("crc-buf", "x_len=%d: buffer written beyond x_len", n); return; }
  // The check accepts exactly the remainder.
  VI w = x; w.insert(w.end(), r.begin(), r.end());
  auto ask = [&](VI &ww) { VI b(n + 8, 5), w0 = ww; int v = val(ww.data(), n, pi.data(), L, b.data()); if (ww != w0 || pi != p) FAIL("crc-input", "is_valid_crc changed its input"); rep.count("validity checks"); return v != 0; };
  if (!ask(w)) { FAIL("crc-reject", "x=%s poly=%s: right crc %s rejected", show(x, 300).c_str(), show(p, 300).c_str(), show(r, 300).c_str()); return; }
  if (L <= 4) {
    for (int e = 1; e < (1 << L); e++) { VI z = w; for (int i = 0; i < L; i++) z[n + i] ^= (e >> i) & 1; if (ask(z)) { FAIL("crc-accept", "x=%s poly=%s: wrong crc accepted, error pattern %d", show(x).c_str(), show(p).c_str(), e); return; } }
  } else {
    for (int t = 0; t < 8 + L; t++) {
      VI z = w; bool ch = false;
      if (t < L) { z[n + t] ^= 1; ch = true; } else if (t == L) { for (int i = 0; i < L; i++) z[n + i] ^= 1; ch = true; } else for (int i = 0; i < L; i++) if (R.u64() & 1) { z[n + i] ^= 1; ch = true; }
      if (ch && ask(z)) { FAIL("crc-accept", "x=%s poly=%s: wrong crc accepted", show(x).c_str(), show(p).c_str()); return; }
    }
    // Errors in the information part: accepted iff the remainder stays the same.
    for (int t = 0; t < 6; t++) { VI z = w; int e = R.in(1, 3); for (int i = 0; i < e; i++) z[R.in(0, n - 1)] ^= 1; VI zx(z.begin(), z.begin() + n); bool v = crc_rem(zx, p) == r; if (ask(z) != v) { FAIL("crc-info", "x=%s poly=%s: validity %d, expected %d", show(zx).c_str(), show(p).c_str(), !v, v); return; } }
  }
}
static void c08(Rng &R) {
  auto calc = (int *(*)(const int *, int, const int *, int, int *))dlsym(lib[POL].h, "calc_crc");
  auto val = (int (*)(const int *, int, const int *, int, int *))dlsym(lib[POL].h, "is_valid_crc");
  if (!calc || !val) Lib::die("no crc functions");
  if (rep.idx < 62) { // exhaustive: all polynomials of length 1..5, all words up to length 9
    int L = 1, v = (int)rep.idx; while (v >= (1 << L)) { v -= 1 << L; L++; }
    VI p(L); for (int i = 0; i < L; i++) p[i] = (v >> i) & 1;
    for (int n = L; n <= 9; n++) for (int w = 0; w < (1 << n); w++) { VI x(n); for (int i = 0; i < n; i++) x[i] = (w >> i) & 1; crc_one(calc, val, x, p, R); }
    rep.nontrivial(hmix(L, v)); rep.count("polynomials exhausted"); rep.sample("exhaustive: poly=" + show(p) + ", all words of length " + std::to_string(L) + "..9");
    return;
  }
  int L = R.p(0.1) ? R.in(33, R.p(0.05) ? 2000 : 200) : R.p(0.5) ? R.in(1, 32) : R.in(1, 8), n = L + (R.p(0.3) ? R.in(0, 3) : R.in(0, R.p(0.01) ? 20000 : 300));
  if (R.p(0.0005)) { L = R.in(1, 40); n = R.in(20000, 100000); rep.count("words of 20000 and more"); } VI p = rnd_word(R, L), x = rnd_word(R, n); if (R.p(0.1)) x.assign(n, R.u64() & 1);
  crc_one(calc, val, x, p, R); rep.nontrivial(fnv(x.data(), n * 4, fnv(p.data(), L * 4))); rep.maxi("max word", n); rep.maxi("max polynomial", L); if (L > 64) rep.count("polynomials longer than 64"); rep.sample("poly=" + show(p) + " x=" + show(x));
}

// ----- C09: permutations.
static void c09(Rng &R) {
  Gen g; g.mmin = 2; g.mmax = R.p(0.2) ? 6 : 5; g.lmax = 32; medium(R, g); Spec s; bool pol = R.p(0.35); if (pol) s = gen_polar(R, g, R.p(0.4)); else { s = gen_rm(R, GLP, g); s.mask.assign(s.mask.size(), '1'); s.build(); }
  int np = R.p(0.3) ? 1 : R.p(0.8) ? R.in(2, 6) : R.p(0.7) ? R.in(7, 20) : R.in(21, 130); bool many = R.p(0.0015); if (many) { // more than 256 permutations; nothing is cut: among so many, cuts are ties
      np = R.in(200, 600); s = Spec(); s.kind = GLP; s.m = R.in(2, 4); s.r = 1; s.mask.assign(s.m, '1'); if (R.p(0.3)) { s.kind = POL; s.mask = rm_polar_mask(s.m, 1); } s.L = np << (s.m + 1); s.build(); pol = s.kind == POL; rep.count("codecs with 200 and more permutations"); VI id = rnd_perm(R, s.m); for (int i = 0; i < np; i++) s.perms.push_back(i < np * 0.9 - R.in(0, 40) ? id : rnd_perm(R, s.m)); } else give_perms(R, s, np); if (pol) rep.count("polar codes with permutations");
  if (np > 1 && !many && R.p(0.1)) s.perms[np - 1] = s.perms[0];
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  for (int t = 0; t < 4; t++) {
    Rx q = gen_rx(R, s); RefOut o = ref(s, q.y, q.dec_sg); rep.count("vectors");
    c.sg(q.dec_sg);
    if (np == 1 && s.crc.empty()) { // relation to decoding of the permuted word
      Spec u = s; u.perms.clear(); Inst d; if (!opened(d, lib[s.kind], u)) return;
      d.sg(q.dec_sg); VD yp(s.n()); for (int i = 0; i < s.n(); i++) yp[i] = q.y[img(i, s.perms[0])];
      VI xp = d.dec(yp), e(s.k()); VI where(s.n()); for (int i = 0; i < s.k(); i++) where[s.code.coef[i]] = i;
      for (int i = 0; i < s.k(); i++) e[where[img(s.code.coef[i], s.perms[0])]] = xp[i];
      VI x = c.dec(q.y); rep.count("single permutation relations");
      if (x != e) { FAIL("perm-relation", "%s: decoded %s, by explicit permutation %s; y=%s", s.desc().c_str(), show(x).c_str(), show(e).c_str(), show(q.y).c_str()); return; }
    }
    if (!o.ok) { rep.count("skipped: ties"); continue; }
    rep.count("decided"); tell_medium(s); if (many) rep.count("decided with 200 and more permutations"); if (o.x != q.x) rep.count("decoding errors"); if (np > s.L) rep.count("decided with more permutations than list places");
    if (np > 1) rep.count("decided with several permutations");
    int v0 = rep.viol; cmp_dec(s, q, o, c, "perm"); if (rep.viol > v0) return;
    if (np > 1) { Spec u = s; std::reverse(u.perms.begin(), u.perms.end()); std::swap(u.perms[0], u.perms[R.in(0, np - 1)]); Inst d; if (!opened(d, lib[s.kind], u)) return; rep.count("reordered sets"); cmp_dec(u, q, o, d, "perm-order"); if (rep.viol > v0) return; }
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 8) + " -> " + show(o.x));
  }
  rep.maxi("max permutations", np);
}

// ----- C10: symmetry.
static void c10(Rng &R) {
  Gen g; g.mmax = R.p(0.2) ? 7 : 5; g.lmax = 32; medium(R, g); Spec s = gen_any(R, g);
  if (R.p(0.2)) give_perms(R, s, R.in(1, 3));
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  for (int t = 0; t < 4; t++) {
    Rx q = gen_rx(R, s); RefOut o = ref(s, q.y, q.dec_sg); rep.count("vectors");
    if (!o.ok) { rep.count("skipped: ties"); continue; }
    VI a = rnd_word(R, s.k()); if (R.p(0.2)) { a.assign(s.k(), 0); a[R.in(0, s.k() - 1)] = 1; }
    VI ca = code_word(s.code, a); VD y2 = q.y; for (int i = 0; i < s.n(); i++) if (ca[i]) y2[i] = -y2[i];
    c.sg(q.dec_sg); int r1, r2; VI x1 = c.dec(q.y, &r1), x2 = c.dec(y2, &r2), e = x1; for (int i = 0; i < s.k(); i++) e[i] ^= a[i];
    rep.count("pairs"); tell_medium(s); if (x1 != q.x) rep.count("pairs with decoding errors"); if (r1) rep.count("pairs with erasures");
    if (x2 != e || r1 != r2) { FAIL("symmetry", "%s sg=%.17g codeword of %s: decoded %s rc=%d and %s rc=%d; y=%s", s.desc().c_str(), q.dec_sg, show(a).c_str(), show(x1).c_str(), r1, show(x2).c_str(), r2, show(q.y).c_str()); return; }
    rep.nontrivial(hcase(s, y2)); rep.sample(s.desc() + " shift=" + show(a) + " y=" + show(q.y, 8)); rep.count(std::string("pairs ") + lib_names[s.kind]);
  }
}

// ----- C11: maximum likelihood.
static void c11_big(Rng &R) { // RM(2,5) and CRC-aided polar codes of dimension up to 14; the sum of reliabilities is below the clipping level
  Spec s; static std::map<std::string, std::vector<VD>> cache;
  if (R.p(0.5)) { s.kind = GLP; s.m = 5; s.r = 2; s.mask.assign(10, '1'); s.L = R.p(0.5) ? 4096 : R.in(4096, 9000); }
  else { s.kind = POL; Gen g; g.mmin = 4; g.mmax = 5; do { s = gen_polar(R, g, R.p(0.5)); } while (s.code.coef.size() > 14 || s.code.coef.size() < 10); s.L = (1 << s.code.coef.size()) + R.in(0, 5); }
  s.build(); int k = s.k(), n = s.n(); Inst c; if (!opened(c, lib[s.kind], s)) return;
  auto &words = cache[s.kind == GLP ? "g" : s.str()]; if (words.empty()) for (int v = 0; v < (1 << k); v++) { VI x(k); for (int i = 0; i < k; i++) x[i] = (v >> i) & 1; words.push_back(bpsk(code_word(s.code, x))); }
  for (int t = 0; t < 12; t++) {
    Rx q = gen_rx(R, s, 0.9, 1.8); if (R.p(0.4)) for (auto &v : q.y) v = R.g();
    double tot = 0; for (double v : q.y) tot += std::fabs(v); q.dec_sg = std::sqrt(2 * tot / 15) * (R.p(0.5) ? 1 : 1 + R.u());
    double b = -1e300, sec = -1e300; int bi = 0;
    for (size_t v = 0; v < words.size(); v++) { double d = 0; for (int i = 0; i < n; i++) d += words[v][i] * q.y[i]; if (d > b) { sec = b; b = d; bi = (int)v; } else if (d > sec) sec = d; }
    rep.count("vectors"); if (b - sec < 1e-3) { rep.count("skipped: ties"); continue; }
    VI e(k); for (int i = 0; i < k; i++) e[i] = (bi >> i) & 1;
    c.sg(q.dec_sg); int rc; VI x = c.dec(q.y, &rc); rep.count("decided"); rep.count(std::string("decided ") + lib_names[s.kind]); rep.count("decided with lists of 1000 and more", s.L >= 1000); if (e != q.x) rep.count("ML decoding errors");
    if (x != e || rc) { FAIL("ml", "%s sg=%.17g: decoded %s rc=%d, ML word %s (correlation margin %g); y=%s", s.desc().c_str(), q.dec_sg, show(x).c_str(), rc, show(e).c_str(), b - sec, show(q.y).c_str()); return; }
    rep.nontrivial(hcase(s, q.y)); rep.count("codewords compared", words.size());
  }
  if (cache.size() > 3) { auto g = cache["g"]; cache.clear(); if (!g.empty()) cache["g"] = g; }
}
static void c11(Rng &R) {
  if (R.p(0.08)) { c11_big(R); return; }
  Spec s; int kind = R.in(0, 4); Gen g; g.mmax = 5; g.kmax = 9;
  if (kind == 0) { s.kind = D1; s.m = R.in(1, 8); s.r = 1; s.build(); }
  else if (kind <= 2) { s = gen_polar(R, g, kind == 2); int ck = (int)s.code.coef.size(); if (ck > 10) { rep.count("skipped: large"); return; } s.L = (1 << ck) + R.in(0, 3); }
  else { s.kind = GLP; s.r = kind == 3 ? 1 : 2; s.m = kind == 3 ? R.in(1, 6) : R.in(2, 4); s.mask.assign(nodes_num(s.m, s.r), '1'); s.build(); s.L = s.r == 1 ? 1 << (s.m + 1) : std::max(16, 1 << std::max(0, s.k() - 2)); if (R.p(0.3) && s.mask.size() > 2) { for (size_t i = 0; i + 1 < s.mask.size(); i++) if (R.p(0.3)) s.mask[i] = '0'; s.build(); } }
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  int k = s.k(); if (k > 12) { rep.count("skipped: large"); return; }
  std::vector<VD> words; for (int v = 0; v < (1 << k); v++) { VI x(k); for (int i = 0; i < k; i++) x[i] = (v >> i) & 1; words.push_back(bpsk(code_word(s.code, x))); }
  for (int t = 0; t < 6; t++) {
    Rx q = gen_rx(R, s, 0.5, 1.6); q.dec_sg = std::max(q.dec_sg, 0.7); // no clipping to speak of
    double b = -1e300, sec = -1e300; int bi = 0;
    for (size_t v = 0; v < words.size(); v++) { double d = 0; for (int i = 0; i < s.n(); i++) d += words[v][i] * q.y[i]; if (d > b) { sec = b; b = d; bi = (int)v; } else if (d > sec) sec = d; }
    rep.count("vectors");
    double tot = 0; for (double v : q.y) tot += std::fabs(v) * 2 / (q.dec_sg * q.dec_sg);
    if (b - sec < 1e-3 || (s.kind != D1 && s.n() > 16 && tot > 500)) { rep.count("skipped: ties"); continue; }
    // Soft values near the clipping level distort metrics: judge by the reference with clipping.
    VI ml(k); for (int i = 0; i < k; i++) ml[i] = (bi >> i) & 1;
    VD sy = scaled(q.y, q.dec_sg); VI xe, xl;
    if (s.kind == D1) { Sc<EpsA> u; Sc<LlrA> w; u.ml1 = w.ml1 = true; xe = u.run(sy, s.m, s.r); xl = w.run(sy, s.m, s.r); }
    else { xe = ref_list1<EpsA>(s, sy, s.perms).x; xl = ref_list1<LlrA>(s, sy, s.perms).x; }
    if (xl != ml) Lib::die("reference is not ML: " + s.desc());
    if (xe != ml) { rep.count("skipped: clipping"); continue; }
    c.sg(q.dec_sg); int rc; VI x = c.dec(q.y, &rc), e(k); for (int i = 0; i < k; i++) e[i] = (bi >> i) & 1;
    rep.count("decided"); rep.count(std::string("decided ") + lib_names[s.kind]); if (e != q.x) rep.count("ML decoding errors");
    if (x != e || rc) { FAIL("ml", "%s sg=%.17g: decoded %s rc=%d, ML word %s (correlation margin %g); y=%s", s.desc().c_str(), q.dec_sg, show(x).c_str(), rc, show(e).c_str(), b - sec, show(q.y).c_str()); return; }
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 8) + " -> " + show(e)); rep.count("codewords compared", words.size());
  }
}

// ----- C12: purity.  The oracle is a process in which no call has been made before.
static bool fresh(Lib &l, const std::string &par, bool enc, double sg, bool have_sg, const VI &x, const VD &y, VI &xo, VD &yo, int &rc) {
  int fd[2]; if (pipe(fd)) Lib::die("pipe");
  pid_t p = fork(); if (p < 0) Lib::die("fork");
  if (!p) {
    close(fd[0]); void *h = nullptr; std::vector<char> b(par.begin(), par.end()); b.push_back(0);
    int hdr[3] = {l.init(b.data(), &h), 0, 0};
    if (hdr[0] == 0) {
      int n = l.get_n(h), k = l.get_k(h); hdr[1] = n; hdr[2] = k; if (have_sg && l.set_sg) l.set_sg(h, sg);
      VI xi = x; VD yi = y, yb(n, 0); VI xb(n, 0); int r = 0;
      if (enc) l.enc(h, xi.data(), yb.data()); else r = l.dec(h, yi.data(), xb.data());
      std::vector<char> o((char *)hdr, (char *)hdr + sizeof hdr); o.insert(o.end(), (char *)&r, (char *)&r + 4);
      if (enc) o.insert(o.end(), (char *)yb.data(), (char *)(yb.data() + n)); else o.insert(o.end(), (char *)xb.data(), (char *)(xb.data() + k));
      size_t w = 0; while (w < o.size()) { ssize_t z = write(fd[1], o.data() + w, o.size() - w); if (z <= 0) break; w += z; }
    }
    _exit(0);
  }
  close(fd[1]); std::vector<char> o; char t[65536]; ssize_t z; while ((z = read(fd[0], t, sizeof t)) > 0) o.insert(o.end(), t, t + z); close(fd[0]);
  int st; waitpid(p, &st, 0);
  if (o.size() < 16) return false;
  int hdr[3]; memcpy(hdr, o.data(), 12); memcpy(&rc, o.data() + 12, 4);
  if (enc) { yo.resize(hdr[1]); if (o.size() < 16 + yo.size() * 8) return false; memcpy(yo.data(), o.data() + 16, yo.size() * 8); }
  else { xo.resize(hdr[2]); if (o.size() < 16 + xo.size() * 4) return false; memcpy(xo.data(), o.data() + 16, xo.size() * 4); }
  return true;
}
static void c12_long(Rng &R) { // very many calls
  Gen g; g.mmax = 4; g.lmax = 4; Spec s = gen_any(R, g); Inst c; if (!opened(c, lib[s.kind], s)) return;
  int calls = R.in(60000, 140000); std::vector<Rx> q; for (int i = 0; i < 16; i++) q.push_back(gen_rx(R, s, 0.4, 1.3));
  std::vector<VI> xo(16); std::vector<int> rc(16); VD yo; double sg = q[0].dec_sg;
  for (int i = 0; i < 16; i++) if (!fresh(clean_[s.kind], s.str(), false, sg, true, q[i].x, q[i].y, xo[i], yo, rc[i])) { FAIL("fresh", "fresh process gave no answer: %s", s.desc().c_str()); return; }
  c.sg(sg); VI b(s.n()); VD y;
  for (int t = 0; t < calls; t++) {
    int i = R.in(0, 15); y = q[i].y; if (R.p(0.001)) c.sg(sg); int r = c.l->dec(c.h, y.data(), b.data());
    if (!std::equal(xo[i].begin(), xo[i].end(), b.begin()) || r != rc[i]) { FAIL("dec-history", "%s sg=%.17g: decoded %s rc=%d at call %d, in a fresh process %s rc=%d; y=%s", s.desc().c_str(), sg, show(b).c_str(), r, t, show(xo[i]).c_str(), rc[i], show(q[i].y).c_str()); return; }
  }
  rep.count("calls in long histories", calls); rep.maxi("max calls in a history", calls);
}
static void c12(Rng &R) {
  if (R.p(0.02)) { c12_long(R); return; }
  struct Live { Spec s; Inst c; double sg = 0; bool set = false; bool dead = false; };
  std::vector<std::unique_ptr<Live>> v; int kind0 = R.in(0, 3); Gen g; g.mmax = 6; g.lmax = 16;
  auto add = [&]() {
    auto p = std::make_unique<Live>(); int kd = R.p(0.8) ? kind0 : R.in(0, 3);
    if (!v.empty() && R.p(0.35)) { // the same code with other settings
      p->s = v[R.in(0, (int)v.size() - 1)]->s; Spec &u = p->s; kd = u.kind; u.extra.clear(); rep.count("codecs with the code of another");
      if (kd >= GLP) { u.L = R.in(1, 16); if (u.perms.size() && R.p(0.5)) std::reverse(u.perms.begin(), u.perms.end()); else if (R.p(0.5)) u.perms.clear(); }
      if (kd == POL && !u.crc.empty()) for (auto &b : u.crc) b = R.u64() & 1; u.build();
    } else { p->s = kd == POL ? gen_polar(R, g, R.p(0.5)) : gen_rm(R, kd, g);
    if (R.p(kd == POL ? 0.15 : 0.4)) give_perms(R, p->s, R.in(1, 3)); }
    if (kd == GLP && R.p(0.3)) { char b[200]; snprintf(b, sizeof b, "use_variable_list\1on\1distance_threshold\1{\1%d\1%g\1%d\1%g\1}", R.in(1, 3), p->s.n() * (0.5 + R.u()), R.in(2, 8), 1e3); p->s.extra = b; }
    if (!opened(p->c, lib[p->s.kind], p->s)) return false;
    v.push_back(std::move(p)); return true;
  };
  int ni = R.in(1, 4); for (int i = 0; i < ni; i++) if (!add()) return;
  int ops = R.in(6, 14); std::string trace; std::map<int, std::vector<VD>> old; std::map<int, std::vector<VI>> oldx; // inputs of earlier calls by length
  for (int o = 0; o < ops; o++) {
    if (R.p(0.08)) { if (!add()) return; trace += " new"; }
    if (v.size() > 1 && R.p(0.06)) { int i = R.in(0, (int)v.size() - 1); v.erase(v.begin() + i); trace += " close"; }
    if (R.p(0.03)) { Lib &l = lib[v[0]->s.kind]; l.close(nullptr); if (l.get_n(nullptr) > 0 || l.get_k(nullptr) > 0) { FAIL("null", "%s: no codec has a length and a dimension", lib_names[v[0]->s.kind]); return; } trace += " no codec"; rep.count("calls without a codec"); }
    if (R.p(0.06)) { Inst b; std::string bad = v[0]->s.str(); bad = bad.substr(0, bad.find("list_size")); bad = bad.substr(0, bad.find("RM_r")); if (b.open(lib[v[0]->s.kind], bad)) { FAIL("init", "accepted: %s", bad.c_str()); return; } trace += " badinit"; }
    Live &a = *v[R.in(0, (int)v.size() - 1)];
    Rx q = gen_rx(R, a.s, 0.3, 1.3); rescale(R, q); if (a.set && !R.p(0.3)) { double f = a.sg / q.dec_sg; for (auto &v : q.y) v *= f * f; q.dec_sg = a.sg; }
    if (!a.set || R.p(0.5)) { a.sg = q.dec_sg; a.set = true; a.c.sg(a.sg); trace += " sg"; }
    auto &oy = old[a.s.n()]; auto &ox = oldx[a.s.k()];
    if (!oy.empty() && R.p(0.35)) { q.y = oy[R.in(0, (int)oy.size() - 1)]; rep.count("inputs of earlier calls"); trace += " again"; if (R.p(0.3)) { int f = R.in(0, a.s.n() - 1); q.y[f] = -q.y[f]; } } else oy.push_back(q.y);
    if (!ox.empty() && R.p(0.35)) { q.x = ox[R.in(0, (int)ox.size() - 1)]; if (R.p(0.3)) q.x[R.in(0, a.s.k() - 1)] ^= 1; } else ox.push_back(q.x);
    bool enc = R.p(0.25); VI xo; VD yo; int rc = 0, k = a.s.k(), n = a.s.n(); int nstat = R.in(0, 99);
    if (!fresh(clean_[a.s.kind], a.s.str(), enc, a.sg, true, q.x, q.y, xo, yo, rc)) { FAIL("fresh", "fresh process gave no answer: %s", a.s.desc().c_str()); return; }
    rep.count("calls compared with a fresh process"); trace += enc ? " enc" : " dec"; trace += std::string("(") + lib_names[a.s.kind] + ")";
    if (enc) {
      VI x = q.x, x0 = x; VD b(n + 16); for (auto &d : b) d = R.g() * 100; VD b0 = b; a.c.l->enc(a.c.h, x.data(), b.data() + 8);
      if (x != x0) { FAIL("enc-input", "%s: encoder changed its input", a.s.desc().c_str()); return; }
      for (int i = 0; i < 8; i++) if (b[i] != b0[i] || b[n + 8 + i] != b0[n + 8 + i]) { FAIL("enc-bounds", "%s: encoder wrote outside its output", a.s.desc().c_str()); return; }
      if (VD(b.begin() + 8, b.begin() + 8 + n) != yo) { FAIL("enc-history", "%s: encoding differs from that in a fresh process after:%s", a.s.desc().c_str(), trace.c_str()); return; }
    } else {
      VD y = q.y, y0 = y; VI b(k + 16); for (auto &d : b) d = (int)R.u64(); if (nstat < 30) for (auto &d : b) d = R.u64() & 1; VI b0 = b;
      int r = a.c.l->dec(a.c.h, y.data(), b.data() + 8);
      if (memcmp(y.data(), y0.data(), n * 8)) { FAIL("dec-input", "%s: decoder changed its input", a.s.desc().c_str()); return; }
      for (int i = 0; i < 8; i++) if (b[i] != b0[i] || b[k + 8 + i] != b0[k + 8 + i]) { FAIL("dec-bounds", "%s: decoder wrote outside its output (k = %d)", a.s.desc().c_str(), k); return; }
      VI got(b.begin() + 8, b.begin() + 8 + k);
      if (got != xo || r != rc) { FAIL("dec-history", "%s sg=%.17g: decoded %s rc=%d, in a fresh process %s rc=%d, after:%s; y=%s", a.s.desc().c_str(), a.sg, show(got).c_str(), r, show(xo).c_str(), rc, trace.c_str(), show(q.y).c_str()); return; }
    }
  }
  rep.nontrivial(hstr(trace) ^ hstr(v[0]->s.desc())); rep.sample(v[0]->s.desc() + " and " + std::to_string(v.size() - 1) + " others:" + trace); rep.maxi("max instances", v.size());
}

// ----- C13: memory.  Workload for the sanitizers (and for the memory parts separated by poisoned gaps).
static void c13(Rng &R) {
  Gen g; int big = R.in(0, 19); g.mmax = big == 0 ? 11 : big < 4 ? 8 : 6; g.lmax = big == 0 ? 8 : 256; g.kmax = big == 0 ? 600 : 1 << 20;
  Spec s = gen_any(R, g);
  if (R.p(0.004)) { s = gen_long(R, s.kind, 12, 15); if (s.kind != POL && s.m > 13 && s.r > 3) { s.r = R.in(1, 3); if (s.kind == GLP) s.mask.assign(nodes_num(s.m, s.r), '1'); s.build(); } rep.count("long codes"); }
  if (R.p(0.003)) { s.kind = R.p(0.8) ? GLP : R.in(0, 1); s.perms.clear(); s.crc.clear(); s.m = R.p(0.5) ? R.in(11, 15) : 15; s.r = s.m - R.in(0, 1); s.mask.clear(); if (s.kind == GLP) { s.mask.assign(nodes_num(s.m, s.r), '1'); s.L = R.in(1, 4); } s.build(); rep.count("large full codes"); }
  if (s.kind >= GLP && (long)s.n() * s.L > 40000) { s.L = std::max(1, 40000 / s.n()); }
  if (R.p(s.kind == POL ? 0.2 : 0.5)) { int np = R.p(0.5) ? R.in(1, 5) : R.in(1, 40); while ((long)np * s.n() > 20000) np /= 2; if (np) give_perms(R, s, np); }
  if (s.kind == GLP && R.p(0.25)) { char b[200]; snprintf(b, sizeof b, "use_variable_list\1on\1distance_threshold\1{\1%d\1%g\1%d\1%g\1}", R.in(1, 8), s.n() * (0.5 + R.u()), R.in(1, 32), s.n() * R.u()); s.extra = b; }
  if (R.p(0.1)) { // rejected descriptions
    Spec b = s; int w = R.in(0, 3);
    if (w == 0) b.mask += '1'; else if (w == 1) b.L = 0; else if (w == 2) b.m = 25 + R.in(0, 10); else if (!b.perms.empty()) b.perms[0][0] = b.m; else b.r = b.m + 1;
    Inst c; c.open(lib[b.kind], b.str()); c.fin(); rep.count("other descriptions");
  }
  Inst c; if (!opened(c, lib[s.kind], s)) return;
  int n = s.n(), k = s.k();
  for (int t = 0; t < 3; t++) {
    Rx q = gen_rx(R, s); int w = R.in(0, 11);
    if (w == 0) q.y.assign(n, 0.0); else if (w == 1) for (auto &v : q.y) v = (R.u64() & 1) ? 1 : -1; // ties
    else if (w == 2) for (auto &v : q.y) v *= std::pow(10.0, 12 * R.u()); else if (w == 3) for (auto &v : q.y) v = R.p(0.5) ? 0.0 : v;
    else if (w == 4) q.y.assign(n, R.p(0.5) ? 1.0 : -1.0); else if (w == 5) q.dec_sg = 1e-12; else if (w == 6) q.dec_sg = 1e6; else if (w == 7) for (auto &v : q.y) v = v > 0 ? 1e300 : -1e300; else if (w == 8) for (auto &v : q.y) v *= 1e-308;
    c.sg(q.dec_sg); if (c.l->set_csnrn && R.p(0.5)) c.l->set_csnrn(c.h, R.in(0, 1));
    // exactly sized buffers
    double *y = (double *)malloc(n * sizeof(double)); int *x = (int *)malloc(k * sizeof(int)); memcpy(y, q.y.data(), n * 8);
    int rc = c.l->dec(c.h, y, x); rep.count("decodings");
    for (int i = 0; i < k; i++) if (x[i] != 0 && x[i] != 1) { FAIL("symbols", "%s: decoded symbol %d is %d (rc=%d)", s.desc().c_str(), i, x[i], rc); free(x); free(y); return; }
    if (rc != 0 && rc != 1) FAIL("dec-rc", "%s: return code %d", s.desc().c_str(), rc);
    memcpy(x, q.x.data(), k * 4); c.l->enc(c.h, x, y); rep.count("encodings"); free(x); free(y);
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 6));
  }
  if (n <= 256 && s.L <= 64 && (rep.idx & 3) == 0) fprintf(rep.f, "G\t%s\t%llu\t%s\n", lib_names[s.kind], (unsigned long long)rep.idx, s.str().c_str());
  rep.count(std::string("codecs ") + lib_names[s.kind]); rep.maxi("max n", n); rep.maxi("max list", s.L); rep.maxi("max permutations", s.perms.size()); if ((int)s.perms.size() > s.L) rep.count("codecs with more permutations than list places");
}

// ----- C14: rejection and acceptance of descriptions.
static off_t outpos() { fflush(stdout); struct stat st; fstat(1, &st); return st.st_size; }
static std::string join(const std::vector<std::string> &t) { std::string s; for (auto &x : t) { if (!s.empty()) s += '\1'; s += x; } return s; }
// Descriptions at the limits: the largest codes and lists.
// Almost a permutation: values in range with the same sum, and often the same sum of squares or exclusive or.
static void not_perm(Rng &R, VI &v) {
  int m = (int)v.size(); VI w(v); std::sort(w.begin(), w.end()); auto sq = [](const VI &a) { long t = 0; for (int x : a) t += x * x; return t; }; auto xo = [](const VI &a) { int t = 0; for (int x : a) t ^= x; return t; }; int want = R.in(0, 2); VI best;
  for (int t = 0; t < 300; t++) {
    VI u(v); for (int k = R.in(1, 3); k; k--) { int i = R.in(0, m - 1), j = R.in(0, m - 1), d = R.in(1, 3); if (i != j && u[i] + d < m && u[j] - d >= 0) u[i] += d, u[j] -= d; }
    VI c(u); std::sort(c.begin(), c.end()); if (c == w) continue; best = u; if (want == 0 || (want == 1 && sq(u) == sq(v)) || (want == 2 && xo(u) == xo(v))) break;
  }
  if (best.empty()) v[0] = v[m - 1]; else v = best;
}
static void c14_edge(Rng &R) {
  std::string d, what; int kd = R.in(0, 3), n = 0; long k = 0; bool bad = R.p(0.4); auto I = [](long v) { return std::to_string(v); };
  auto bin = [](int m, int r) { long s = 0; double b = 1; for (int i = 0; i <= r; i++) { s += (long)(b + 0.5); b = b * (m - i) / (i + 1); } return s; };
  bool lists = R.p(0.5); if (lists) kd = R.in(2, 3);
  if (lists) {
    int m = 2; long L = bad ? (R.p(0.5) ? 1000001L + R.in(0, 5) : R.p(0.5) ? 2147483647L : 16777216L) : R.p(0.3) ? 1000000L : R.in(60000, 999999); n = 4; what = "list size"; if (!bad && R.p(0.7)) L = R.in(1000, 70000);
    if (kd == 2) { k = 3; d = "RM_m\1" "2\1RM_r\1" "1\1border_node_mask\1" "11\1border_node_lsize\1" + I(L); } else { k = 4; d = "c_m\1" "2\1info_bits_mask\1" "1111\1list_size\1" + I(L); }
    if (kd == 2 && R.p(0.3)) { d = "RM_m\1" "2\1RM_r\1" "1\1border_node_mask\1" "11\1border_node_lsize\1" "4\1use_variable_list\1on\1distance_threshold\1{\1" + I(L) + "\1" "5\1}"; what = "size in distance_threshold"; }
  } else if (kd < 2) { int m = R.in(20, 24), r = bad ? m + 1 : R.p(0.5) ? R.in(1, m) : m; if (bad && R.p(0.5)) { m = 25; r = 2; } n = 1 << std::min(m, 24); k = bin(m, r); d = "RM_m\1" + I(m) + "\1RM_r\1" + I(r); what = "large m"; }
  else if (kd == 2) {
    int m, r; if (R.p(0.4)) { m = R.in(20, 24); r = 1; } else { r = R.p(0.6) ? 15 : R.in(10, 15); m = R.in(r, 17); } int q = nodes_num(m, r); if (bad) { if (R.p(0.4)) { r = 16; m = R.in(16, 18); q = nodes_num(m, r); } else if (R.p(0.3)) { m = 25; r = 1; q = 25; } else q += R.p(0.5) ? 1 : -1; }
    n = 1 << std::min(m, 24); k = bin(m, r); d = "RM_m\1" + I(m) + "\1RM_r\1" + I(r) + "\1border_node_mask\1" + std::string(std::max(q, 0), '1') + "\1border_node_lsize\1" "2"; what = "large m or r"; if (bad && q < 1) return;
  } else { int m = R.in(14, 17), q = (1 << m) + (bad ? (R.p(0.5) ? 1 : -1) : 0); n = 1 << m; std::string M(q, '0'); int c = R.in(1, 100); for (int i = 0; i < c; i++) M[R.in(0, q - 1)] = '1'; k = std::count(M.begin(), M.end(), '1'); d = "c_m\1" + I(m) + "\1info_bits_mask\1" + M + "\1list_size\1" "2"; what = "large m"; }
  off_t o0 = outpos(); void *h = nullptr; char *b = strdup(d.c_str()); int rc = lib[kd].init(b, &h); free(b); off_t o1 = outpos(); if (d.size() > 600) d = d.substr(0, 600) + "..."; d = std::string(lib_names[kd]) + ": " + d;
  rep.count(bad ? "invalid descriptions at the limits" : "valid descriptions at the limits");
  if (bad) {
    if (rc == 0) { FAIL("accepted", "accepted (%s): %s", what.c_str(), d.c_str()); lib[kd].close(h); return; }
    if (h) { FAIL("codec", "failed init left a codec (%s): %s", what.c_str(), d.c_str()); return; }
    if (o1 == o0) { FAIL("silent", "no error message (%s): %s", what.c_str(), d.c_str()); return; }
  } else {
    if (rc) { FAIL("rejected", "rejected (%s): %s", what.c_str(), d.c_str()); return; }
    if (lib[kd].get_n(h) != n || lib[kd].get_k(h) != k) FAIL("dims", "wrong dimensions n=%d k=%d: %s", lib[kd].get_n(h), lib[kd].get_k(h), d.c_str());
    if (n <= 16384 && k <= 16384) {
      if (lib[kd].set_sg) lib[kd].set_sg(h, 0.2); if (lib[kd].set_csnrn) lib[kd].set_csnrn(h, 0);
      VI x = rnd_word(R, (int)k), xd(n); VD y(n), y2(n); lib[kd].enc(h, x.data(), y.data()); VI z(k); lib[kd].dec(h, y.data(), xd.data()); xd.resize(k); lib[kd].enc(h, xd.data(), y2.data()); if (xd != x || y != y2) FAIL("works", "accepted codec does not work: %s", d.c_str());
      rep.count("codecs at the limits used");
    }
    lib[kd].close(h);
  }
  if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET);
  rep.nontrivial(hstr(d)); rep.sample((bad ? "rejected: " : "accepted: ") + d);
}
// Permutations of many variables.
static void c14_perm(Rng &R) {
  int kd = R.in(2, 3), m = R.in(7, 18), r = m <= 11 ? R.in(1, 2) : 1, n = 1 << m, np = R.in(1, 4), b = R.in(0, np - 1); bool bad = R.p(0.6); auto I = [](long v) { return std::to_string(v); };
  std::string d, what = "valid", M; long k = 1; k += m; if (r == 2) k += (long)m * (m - 1) / 2;
  std::vector<VI> ps; for (int q = 0; q < np; q++) { VI v = rnd_perm(R, m); if (R.p(0.2)) { for (int j = 0; j < m; j++) v[j] = j; std::swap(v[R.in(0, m - 1)], v[R.in(0, m - 1)]); } ps.push_back(v); }
  if (kd == 3) { M.assign(n, '0'); for (int i = 0; i < n; i++) if (__builtin_popcount(i) >= m - r) M[i] = '1'; } else M.assign(nodes_num(m, r), '1');
  if (bad) {
    VI &v = ps[b]; int j = R.p(0.5) ? m - 1 : R.in(0, m - 1), z = R.in(0, 5), i = (j + R.in(1, m - 1)) % m;
    if (z == 5) not_perm(R, v); else if (z == 0) v[j] = m; else if (z == 1) v[j] = v[j] + 32 * R.in(1, 3); else if (z == 2) v[j] = v[j] - 32 * R.in(1, 3); else v[j] = v[i];
    what = "not a permutation";
    if (z == 4) { v = rnd_perm(R, m); what = "permutation that changes the code";
      if (kd == 3) { int x = 0; while (__builtin_popcount(x) < m - r - 1) x |= 1 << R.in(0, m - 1); int y = 0; for (int q = 0; q < m; q++) y |= ((x >> q) & 1) << v[q]; if (x == y) return; M[x] = '1'; k++; }
      else { bool id = true; for (int q = 0; q < m; q++) id &= v[q] == q; if (id) return; M[R.in(0, (int)M.size() - 1)] = '0'; } } }
  d = kd == 2 ? "RM_m\1" + I(m) + "\1RM_r\1" + I(r) + "\1border_node_mask\1" + M + "\1border_node_lsize\1" + I(R.in(1, 4)) : "c_m\1" + I(m) + "\1info_bits_mask\1" + M + "\1list_size\1" + I(R.in(1, 4));
  d += "\1permutations\1{"; for (auto &v : ps) for (int x : v) d += "\1" + I(x); d += "\1}"; if (d.size() > 139000) return;
  off_t o0 = outpos(); void *h = nullptr; char *c = strdup(d.c_str()); int rc = lib[kd].init(c, &h); free(c); off_t o1 = outpos(); if (M.size() > 100) d = d.substr(0, 30) + "..." + d.substr(d.find("permutations")); d = std::string(lib_names[kd]) + ": " + d;
  rep.count(bad ? "invalid permutations of many variables" : "valid permutations of many variables");
  if (bad) {
    if (rc == 0) { FAIL("accepted", "accepted (%s): %s", what.c_str(), d.c_str()); lib[kd].close(h); return; }
    if (h) { FAIL("codec", "failed init left a codec (%s): %s", what.c_str(), d.c_str()); return; }
    if (o1 == o0) { FAIL("silent", "no error message (%s): %s", what.c_str(), d.c_str()); return; }
  } else {
    if (rc) { FAIL("rejected", "rejected (%s): %s", what.c_str(), d.c_str()); return; }
    if (lib[kd].get_n(h) != n || lib[kd].get_k(h) != k) FAIL("dims", "wrong dimensions n=%d k=%d: %s", lib[kd].get_n(h), lib[kd].get_k(h), d.c_str());
    if (lib[kd].set_sg) lib[kd].set_sg(h, 0.2); if (lib[kd].set_csnrn) lib[kd].set_csnrn(h, 0);
    VI x = rnd_word(R, (int)k), xd(n); VD y(n), y2(n); lib[kd].enc(h, x.data(), y.data()); lib[kd].dec(h, y.data(), xd.data()); xd.resize(k); lib[kd].enc(h, xd.data(), y2.data()); if (xd != x || y != y2) FAIL("works", "accepted codec does not work: %s", d.c_str());
    lib[kd].close(h);
  }
  if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET);
  rep.nontrivial(hstr(d)); rep.sample((bad ? "rejected: " : "accepted: ") + d);
}
static void c14(Rng &R) {
  if (R.p(0.002)) { c14_edge(R); return; }
  if (R.p(0.004)) { c14_perm(R); return; }
  Gen g; g.mmin = 2; g.mmax = 6; g.lmax = 16; Spec s = gen_any(R, g); bool rm = s.kind != POL;
  if (R.p(s.kind == POL ? 0.3 : 0.5)) give_perms(R, s, R.in(1, 4));
  // Parameters as a list of (key, values).
  typedef std::vector<std::string> VS; std::vector<VS> P; auto I = [](long v) { return std::to_string(v); };
  auto find = [&](const char *k) { for (size_t i = 0; i < P.size(); i++) if (P[i][0] == k) return (int)i; return -1; };
  if (rm) { P.push_back({"RM_m", I(s.m)}); P.push_back({"RM_r", I(s.r)}); if (s.kind == GLP) { P.push_back({"border_node_mask", s.mask}); P.push_back({"border_node_lsize", I(s.L)}); } }
  else { P.push_back({"c_m", I(s.m)}); P.push_back({"info_bits_mask", s.mask}); P.push_back({"list_size", I(s.L)}); if (!s.crc.empty()) P.push_back({"ca_polar_crc", show(s.crc, 1000)}); }
  if (!s.perms.empty()) { VS p = {"permutations", "{"}; for (auto &q : s.perms) for (int v : q) p.push_back(I(v)); p.push_back("}"); P.push_back(p); }
  bool bad = R.p(0.7); std::string what = "valid";
  const char *mk = rm ? "RM_m" : "c_m", *maskk = rm ? "border_node_mask" : "info_bits_mask", *lk = rm ? "border_node_lsize" : "list_size";
  if (bad) {
    for (;;) {
      int w = R.in(0, 21); int i;
      if (w == 0) { // any required parameter is missing
        int nreq = s.kind == GLP ? 4 : s.kind == POL ? 3 : 2; i = R.in(0, nreq - 1); what = "no " + P[i][0]; P.erase(P.begin() + i); break; }
      if (w == 1) { static const long bm[] = {0, -1, -5, 25, 26, 31, 32, 33, 64, 1000, 2147483647L, -2147483647L}; long v = bm[R.in(0, 11)]; P[find(mk)][1] = I(v); what = "m=" + I(v); break; }
      if (w == 2 && rm) { static const long br[] = {0, -1, -7, 1000, 2147483647L}; int z = R.in(0, 5); long v = z == 5 ? s.m + R.in(1, 3) : br[z]; P[find("RM_r")][1] = I(v); what = "r=" + I(v); break; }
      if (w == 3 && s.kind >= GLP) { auto &m = P[find(maskk)][1]; int z = R.in(0, 3); if (z == 0) m += "1"; else if (z == 1) m.pop_back(); else if (z == 2) m += m; else m = m.substr(0, 1); if ((int)m.size() == (rm ? nodes_num(s.m, s.r) : s.n()) || m.empty()) { m = s.mask; continue; } what = "mask of wrong length"; break; }
      if (w == 4 && s.kind >= GLP) { auto &m = P[find(maskk)][1]; static const char bc[] = "23x-9aO.,"; m[R.in(0, (int)m.size() - 1)] = bc[R.in(0, 8)]; what = "mask with a wrong symbol"; break; }
      if (w == 5 && s.kind >= GLP) { auto &m = P[find(maskk)][1]; m.assign(m.size(), '0'); what = "no information bits"; break; }
      if (w == 6 && s.kind >= GLP) { static const long bl[] = {0, -1, -16, -2147483647L}; long v = bl[R.in(0, 3)]; P[find(lk)][1] = I(v); what = "list size " + I(v); break; }
      if (w == 7 && s.kind == POL) { // CRC longer than the information part
        int ck = (int)std::count(s.mask.begin(), s.mask.end(), '1'); int cl = ck / 2 + 1 + R.in(0, ck); std::string c(cl, '1'); for (auto &b : c) b = '0' + (R.u64() & 1); i = find("ca_polar_crc"); if (i < 0) P.push_back({"ca_polar_crc", c}); else P[i][1] = c; what = "long CRC"; break; }
      if (w == 8 && s.kind == POL) { i = find("ca_polar_crc"); if (i < 0) { P.push_back({"ca_polar_crc", "1"}); i = find("ca_polar_crc"); } static const char bc[] = "23x-9a"; P[i][1][R.in(0, (int)P[i][1].size() - 1)] = bc[R.in(0, 5)]; what = "CRC with a wrong symbol"; break; }
      if (w == 9 && (s.kind == POL || s.kind == GLP && s.mask.find('0') == std::string::npos)) { // not permutations
        VS p = {"permutations", "{"}; int np = R.in(1, 3), b = R.in(0, np - 1);
        for (int q = 0; q < np; q++) { VI v = rnd_perm(R, s.m); if (q == b) { int z = R.in(0, 4); int j = R.in(0, s.m - 1); if (z == 4) not_perm(R, v); else if (z == 0) v[j] = s.m; else if (z == 1) v[j] = -1; else if (z == 2) v[j] = v[(j + 1) % s.m]; else v[j] = R.p(0.5) ? 1000000 : s.m + R.in(1, 40); } for (int x : v) p.push_back(I(x)); }
        p.push_back("}"); i = find("permutations"); if (i >= 0) P[i] = p; else P.push_back(p); what = "not a permutation"; break; }
      if (w == 10 && s.kind >= GLP) { // wrong number of items
        VS p = {"permutations", "{"}; VI v = rnd_perm(R, s.m); v.insert(v.end(), v.begin(), v.begin() + R.in(1, s.m - 1)); for (int x : v) p.push_back(I(x)); p.push_back("}"); i = find("permutations"); if (i >= 0) P[i] = p; else P.push_back(p); what = "incomplete permutation"; break; }
      if (w == 11 && s.kind == GLP && s.mask.find('0') != std::string::npos && s.mask.size() > 1) { // permutations of a proper subcode
        VI v = rnd_perm(R, s.m); bool id = true; for (int j = 0; j < s.m; j++) if (v[j] != j) id = false; if (id) std::swap(v[0], v[1]);
        VS p = {"permutations", "{"}; for (int x : v) p.push_back(I(x)); p.push_back("}"); P.push_back(p); what = "permutation of a proper subcode"; break; }
      if (w == 12 && s.kind >= GLP) { i = find("permutations"); if (i >= 0) P.erase(P.begin() + i); VS p = {"permutations"}; VI v = rnd_perm(R, s.m); for (int x : v) p.push_back(I(x)); if (R.p(0.5)) p.insert(p.begin() + 1, "{"); else p.push_back("}"); P.push_back(p); what = "permutations without a brace"; break; }
      if (w == 13 && s.kind == GLP) { P.push_back({"use_variable_list", "on"}); what = "variable list without sizes"; break; }
      if (w == 14 && s.kind == GLP) { VS p = {"distance_threshold", "{", "4", "10", I(-R.in(0, 3)), "20", "}"}; P.push_back({"use_variable_list", "on"}); P.push_back(p); what = "bad size in distance_threshold"; break; }
      if (w == 15 && s.kind == GLP) { VS p = {"distance_threshold", "{", "4", "10"}; P.push_back({"use_variable_list", "on"}); P.push_back(p); what = "unterminated distance_threshold"; break; }
      if (w == 18 && s.kind == POL) { // the code changes under a permutation
        VI v; bool inv = true; for (int t = 0; t < 20 && inv; t++) { v = rnd_perm(R, s.m); std::vector<char> in(s.n()); for (int c : s.code.coef) in[c] = 1; for (int c : s.code.coef) if (!in[img(c, v)]) inv = false; } if (inv) continue;
        VS p = {"permutations", "{"}; for (auto &q : s.perms) for (int x : q) p.push_back(I(x)); for (int x : v) p.push_back(I(x)); p.push_back("}"); i = find("permutations"); if (i >= 0) P[i] = p; else P.push_back(p); what = "permutation that changes the code"; break; }
      if (w == 16 && !s.perms.empty()) { i = find("permutations"); if (i < 0) continue; VS p = P[i]; P.erase(P.begin() + i); P.insert(P.begin(), p); what = "permutations before RM_m"; break; }
      if (w == 19 && s.kind >= GLP) { // permutations of another number of elements
        i = find("permutations"); if (i >= 0) P.erase(P.begin() + i); int m2; do m2 = R.in(1, 8); while (m2 == s.m); VS p = {"permutations", "{"}; int np = R.p(0.3) ? s.m : R.in(1, 6); bool idn = R.p(0.5);
        for (int q = 0; q < np; q++) { VI v = rnd_perm(R, m2); if (idn) std::sort(v.begin(), v.end()); for (int x : v) p.push_back(I(x)); } p.push_back("}");
        P.insert(P.begin(), {mk, I(m2)}); P.insert(P.begin() + 1, p); what = "permutations of another m"; break; }
      if (w == 20 && s.kind == GLP) { int nt = R.p(0.6) ? 51 : R.in(52, 300); VS p = {"distance_threshold", "{"}; for (int q = 0; q < nt; q++) { p.push_back(I(R.in(1, 16))); p.push_back(I(R.in(1, 40))); } p.push_back("}"); P.push_back({"use_variable_list", "on"}); P.push_back(p); what = "too many thresholds"; break; }
      if (w == 21) { // the last parameter has no value
        int nreq = s.kind == GLP ? 4 : s.kind == POL ? 3 : 2; i = R.in(0, nreq - 1); what = "no value of " + P[i][0]; VS p = {P[i][0]}; if (i == 0 && !s.perms.empty()) continue; P.erase(P.begin() + i); P.push_back(p); break; }
      if (w == 17) { i = find(mk); P[i][1] = R.p(0.5) ? "abc" : "-"; what = "m is not a number"; break; }
    }
  } else {
    // Valid: any order (permutations after m), unknown parameters in between.
    if (s.perms.empty()) for (size_t i = P.size(); i > 1; i--) std::swap(P[i - 1], P[R.in(0, (int)i - 1)]);
    for (int t = R.in(0, 3); t; t--) { VS u = R.p(0.5) ? VS{"unknown_par", I(R.in(-5, 99))} : VS{"unknown_grp", "{", "RM_m", "-3", "c_m", "77", "}"}; P.insert(P.begin() + R.in(0, (int)P.size()), u); }
    if (s.kind == GLP && R.p(0.2)) P.push_back({"use_variable_list", R.p(0.5) ? "off" : "0"});
    if (s.kind == GLP && R.p(0.2)) { P.push_back({"use_variable_list", "on"}); VS p = {"distance_threshold", "{"}; int nt = R.p(0.7) ? 2 : R.p(0.6) ? 50 : R.in(1, 50); for (int q = 0; q < nt; q++) { p.push_back(I(R.in(1, 50))); p.push_back(I(R.in(1, 40))); } p.push_back("}"); P.push_back(p); if (nt > 40) rep.count("many thresholds"); }
    // Repeated parameters: the last value counts.
    if (R.p(0.3)) for (int t = R.in(1, 2); t; t--) {
      int i = R.in(0, (int)P.size() - 1); VS p = P[i]; const std::string key = p[0]; int at = R.in(0, i);
      if (key == maskk || key == "ca_polar_crc") { std::string v; int l = R.in(1, 40); while (l--) v += '0' + (R.u64() & 1); p[1] = v; }
      else if (key == "RM_r" || key == lk) p[1] = I(R.in(0, 40));
      else if (key == "permutations") { int j = -1; for (size_t q = 0; q < P.size(); q++) if (P[q][0] == mk) j = (int)q; if (j > i) continue; at = R.in(j + 1, i); p.resize(2); for (int q = R.in(0, 6); q; q--) for (int v : rnd_perm(R, s.m)) p.push_back(I(v)); p.push_back("}"); }
      else if (key == mk) { // any number of elements before the permutations
        p[1] = I(R.in(-2, 30)); }
      else continue;
      P.insert(P.begin() + at, p); rep.count("repeated parameters"); what = "valid, repeated parameters";
    }
    if (s.kind == GLP && s.mask.find('0') != std::string::npos && R.p(0.3)) { VS p = {"permutations", "{"}; for (int j = 0; j < s.m; j++) p.push_back(I(j)); p.push_back("}"); P.push_back(p); what = "valid, identity permutation of a subcode"; }
  }
  VS all; for (auto &p : P) for (auto &t : p) all.push_back(t);
  std::string str = join(all); std::string d = std::string(lib_names[s.kind]) + ": " + str;
  off_t o0 = outpos(); void *h = nullptr; char *b = strdup(str.c_str()); int rc = lib[s.kind].init(b, &h); std::string after = b; free(b); off_t o1 = outpos();
  rep.count(bad ? "invalid descriptions" : "valid descriptions"); rep.count("kind: " + what.substr(0, what.find('=') == std::string::npos ? 40 : what.find('=')));
  if (bad) {
    if (rc == 0) { FAIL("accepted", "accepted (%s): %s", what.c_str(), d.c_str()); lib[s.kind].close(h); return; }
    if (h) { FAIL("codec", "failed init left a codec (%s): %s", what.c_str(), d.c_str()); return; }
    if (o1 == o0) { FAIL("silent", "no error message (%s): %s", what.c_str(), d.c_str()); return; }
  } else {
    if (rc) { FAIL("rejected", "rejected (%s): %s", what.c_str(), d.c_str()); return; }
    if (lib[s.kind].get_n(h) != s.n() || lib[s.kind].get_k(h) != s.k()) FAIL("dims", "wrong dimensions: %s", d.c_str());
    // The accepted codec works.
    if (lib[s.kind].set_sg) lib[s.kind].set_sg(h, 0.2);
    VI x = rnd_word(R, s.k()), xd(s.n()); VD y(s.n()); lib[s.kind].enc(h, x.data(), y.data()); lib[s.kind].dec(h, y.data(), xd.data()); xd.resize(s.k());
    if (y != bpsk(code_word(s.code, x)) || xd != x) FAIL("works", "accepted codec does not work: %s", d.c_str());
    lib[s.kind].close(h);
  }
  if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET);
  rep.nontrivial(hstr(d)); rep.sample((bad ? "rejected (" : "accepted (") + what + "): " + d);
}

// ----- C28: another exact format.
// Words without noise decoded by builds with other formats.
static bool noiseless(Rng &R, Lib &l, const Spec &s0, bool minsum) {
  Spec s = s0; if (R.p(0.3)) { Gen g; g.mmax = 9; g.lmax = 16; s = s.kind == POL ? gen_polar(R, g, R.p(0.3)) : gen_rm(R, s.kind, g); }
  Inst c; if (!opened(c, l, s)) return false;
  for (int t = 0; t < 2; t++) {
    VI x = rnd_word(R, s.k()); VD y = bpsk(code_word(s.code, x)); double sg = R.p(0.5) ? std::pow(10.0, -15 * R.u()) : std::pow(10.0, -1 + 1.3 * R.u()), a = R.p(0.5) ? std::pow(10.0, 4 * R.u() - 2) : 1, lo = 1e300;
    bool fade = R.p(0.4); for (auto &v : y) { double b = fade ? a * std::exp(0.5 * R.g()) : a; v *= b; lo = std::min(lo, b); }
    double e = std::tanh(lo / (sg * sg)), ex = s.kind == POL ? s.n() : std::pow(2.0, s.r); if (!(ex * std::log(e) > std::log(1e-8))) { rep.count("skipped: underflow"); continue; }
    c.sg(sg); int rc; VI d = c.dec(y, &rc); rep.count("noiseless words"); if (2 * lo / (sg * sg) > 800) rep.count("noiseless words of very reliable symbols");
    if (d != x || rc) { FAIL("noiseless", "%s sg=%.17g scale=%g fading=%d: sent %s, decoded %s rc=%d", s.desc().c_str(), sg, a, fade, show(x).c_str(), show(d).c_str(), rc); return false; }
  }
  return true;
}

static void c28(Rng &R) {
  Gen g; g.mmax = 5; g.lmax = 32; medium(R, g); int kd = R.in(0, 3); Spec s = kd == 3 ? gen_rm(R, D0, g) : kd == 0 ? gen_rm(R, GLP, g) : gen_polar(R, g, kd == 2);
  if (kd == 0 && s.mask.find('0') == std::string::npos && R.p(0.3)) s.perms.push_back(rnd_perm(R, s.m));
  if (R.p(0.3) && !noiseless(R, rho[s.kind], s, false)) return;
  Inst a, b; if (!opened(a, lib[s.kind], s) || !opened(b, rho[s.kind], s)) return;
  for (int t = 0; t < 4; t++) {
    Rx q = gen_rx(R, s, 0.55, 1.4); q.dec_sg = std::max(q.dec_sg, 0.55); rep.count("vectors");
    RefOut o = ref(s, q.y, q.dec_sg); if (!o.ok) { rep.count("skipped: ties"); continue; }
    a.sg(q.dec_sg); b.sg(q.dec_sg); int r1, r2; VI x1 = a.dec(q.y, &r1), x2 = b.dec(q.y, &r2); rep.count("pairs"); if (x1 != q.x) rep.count("pairs with decoding errors"); if (r1) rep.count("pairs with erasures");
    rep.count(std::string("pairs ") + lib_names[s.kind]); tell_medium(s);
    if (x1 != x2 || r1 != r2) { FAIL("format", "%s sg=%.17g: decoded %s rc=%d by the default format, %s rc=%d by log likelihood ratios; y=%s", s.desc().c_str(), q.dec_sg, show(x1).c_str(), r1, show(x2).c_str(), r2, show(q.y).c_str()); return; }
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 8) + " -> " + show(x1));
  }
}

// ----- C29: variable list size.
static void c29(Rng &R) {
  Gen g; g.mmin = 2; g.mmax = 5; g.lmax = 4; if (medium(R, g)) g.lmax = 4; Spec s = gen_rm(R, GLP, g); int nl = R.p(0.03) ? R.in(5, 50) : R.in(1, 4); std::vector<int> ls; std::vector<double> th;
  if (s.mask.find('0') == std::string::npos && R.p(0.3)) for (int i = R.in(1, 3); i; i--) s.perms.push_back(rnd_perm(R, s.m));
  if (nl > 4) rep.count("more than 4 sizes");
  std::string ex = "use_variable_list\1on\1distance_threshold\1{"; int l = R.in(1, 3);
  for (int i = 0; i < nl; i++) { char b[60]; double t = s.n() * (nl > 4 ? 0.1 + 0.6 * R.u() : 0.4 + 1.1 * R.u()); snprintf(b, sizeof b, "\1%d\1%.6f", l, t); ex += b; ls.push_back(l); th.push_back(atof(strrchr(b, '\1') + 1)); l = nl <= 4 && R.p(0.8) ? l * R.in(1, 3) + R.in(0, 2) : R.in(1, 12); }
  ex += "\1}"; Spec v = s; v.extra = ex; if (R.p(0.5)) v.L = R.in(1, 20);
  Inst c; if (!opened(c, lib[GLP], v)) return; std::vector<Inst> fx(nl);
  for (int i = 0; i < nl; i++) { Spec f = s; f.L = ls[i]; if (!opened(fx[i], lib[GLP], f)) return; }
  for (int t = 0; t < 6; t++) {
    Rx q = gen_rx(R, s, 0.4, 1.2); VI e; int st = -1; bool tie = false;
    for (int i = 0; i < nl; i++) {
      fx[i].sg(q.dec_sg); e = fx[i].dec(q.y); st = i; VD w = bpsk(code_word(s.code, e)); double d = 0; for (int j = 0; j < s.n(); j++) d += (q.y[j] - w[j]) * (q.y[j] - w[j]); d /= q.dec_sg * q.dec_sg;
      if (std::fabs(d - th[i]) < 1e-6 * th[i]) tie = true; if (d < th[i]) break;
    }
    rep.count("vectors"); if (tie) { rep.count("skipped: ties"); continue; }
    if (c.l->set_csnrn && R.p(0.5)) c.l->set_csnrn(c.h, R.in(0, nl - 1));
    c.sg(q.dec_sg); VI x = c.dec(q.y); rep.count("decided"); tell_medium(s); rep.count("answered at size #" + std::to_string(st + 1)); if (x != q.x) rep.count("decoding errors");
    if (x != e) { FAIL("varlist", "%s sg=%.17g: decoded %s, fixed list of size %d (#%d) gives %s; y=%s", v.desc().c_str(), q.dec_sg, show(x).c_str(), ls[st], st + 1, show(e).c_str(), show(q.y).c_str()); return; }
    rep.nontrivial(hcase(v, q.y)); rep.sample(v.desc() + " y=" + show(q.y, 8) + " answered at #" + std::to_string(st + 1));
  }
}

// ----- C30: decoders of first order codes.
static void c30(Rng &R) {
  typedef int (*Dec)(int, double *, int *); typedef int (*Lst)(int, double *, int, int *); static void *h = lib[D1].h;
  static Dec sh = (Dec)dlsym(h, "rm1_dec_sh"), finp = (Dec)dlsym(h, "rm1_dec_sh_finp"), dotp = (Dec)dlsym(h, "rm1_dec_sh_dotp"); static Lst lst = (Lst)dlsym(h, "rm1_dec_lst");
  if (!sh || !finp || !dotp || !lst) Lib::die("no decoders of first order codes");
  int m = R.p(0.03) ? R.p(0.12) ? R.in(14, 16) : R.in(9, 13) : R.in(1, 8), n = 1 << m, form = R.in(0, n - 1), con = R.in(0, 1), kind = R.in(0, 3); VD y(n), l(n), e(n); double tot = 0, sg = 0.5 + R.u();
  for (int i = 0; i < n; i++) { y[i] = ((wt(i & form) & 1) ^ con) ? 1 : -1; if (kind == 1) y[i] += sg * R.g(); if (kind == 2) y[i] = R.g(); if (kind == 3) y[i] *= std::fabs(R.g()); }
  if (kind == 0) { double a = std::pow(10.0, -2 + 5 * R.u()); for (auto &v : y) v *= a; } else for (auto &v : y) v *= 2 / (sg * sg);
  for (double v : y) tot += std::fabs(v); if (kind && R.p(0.6)) { double f = (2 + 13 * R.u()) / tot; if (f < 1) for (auto &v : y) v *= f; tot = 0; for (double v : y) tot += std::fabs(v); }
  for (int i = 0; i < n; i++) { l[i] = -y[i]; e[i] = EpsA::in(y[i]); }
  VD fl = first_order_llr(l), fe = first_order(e, m, (EpsA *)nullptr);
  auto order = [&](const VD &f, double *gap, int want) { // linear forms with their better constants, best first
    std::vector<std::pair<double, int>> a; for (int i = 0; i < n; i++) a.push_back(f[2 * i] > f[2 * i + 1] ? std::make_pair(-f[2 * i], 2 * i) : std::make_pair(-f[2 * i + 1], 2 * i + 1));
    std::sort(a.begin(), a.end()); *gap = 1e300; VI o; for (int j = 0; j < want && j < n; j++) { o.push_back(a[j].second); if (j + 1 < n) *gap = std::min(*gap, a[j + 1].first - a[j].first); *gap = std::min(*gap, std::fabs(f[a[j].second] - f[a[j].second ^ 1])); } return o; };
  auto bits = [&](int w) { VI x; int f = w >> 1; for (int b = m - 1; b >= 0; b--) x.push_back((f >> b) & 1); x.push_back((wt(f) & 1) ^ (w & 1)); return x; };
  double g1, g2; VI o1 = order(fl, &g1, 1), o2 = order(fe, &g2, 1); rep.count("vectors"); rep.maxi("max n", n);
  bool ok = o1 == o2 && g1 > GAPMIN && g2 > GAPMIN; std::string in = "m=" + std::to_string(m) + " y=" + show(y);
  if (kind == 0 && std::fabs(y[0]) > 1e-3) { if (o1[0] != 2 * form + con) Lib::die("reference"); ok = true; }
  auto run = [&](const char *nm, const std::function<int(double *, int *)> &f, const VD &v, int cnt, const VI &exp) {
    VD z = v; VI x((m + 1) * cnt + 8, -5); int rc = f(z.data(), x.data()); rep.count(std::string("decodings by ") + nm);
    if (z != v) { FAIL("input", "%s %s: input changed", nm, in.c_str()); return; }
    for (int i = 0; i < 8; i++) if (x[(m + 1) * cnt + i] != -5) { FAIL("bounds", "%s %s: written beyond the output", nm, in.c_str()); return; }
    x.resize((m + 1) * cnt); VI w; for (int q : exp) { VI b = bits(q); w.insert(w.end(), b.begin(), b.end()); }
    if (rc || x != w) FAIL("rm1", "%s %s: rc=%d, decoded %s, expected %s", nm, in.c_str(), rc, show(x, 300).c_str(), show(w, 300).c_str());
  };
  if (!ok) rep.count("skipped: ties"); else {
    rep.count("decided"); if (o1[0] != 2 * form + con) rep.count("decoding errors"); if (kind == 0) rep.count("noiseless");
    run("rm1_dec_sh", [&](double *a, int *x) { return sh(m, a, x); }, y, 1, o1);
    run("rm1_dec_sh_finp", [&](double *a, int *x) { return finp(m, a, x); }, e, 1, o1);
    if (tot < 15 || (kind == 0 && n * std::fabs(y[0]) < 15)) run("rm1_dec_sh_dotp", [&](double *a, int *x) { return dotp(m, a, x); }, e, 1, o1);
    rep.nontrivial(fnv(y.data(), n * 8)); rep.sample(in.substr(0, 200) + " -> " + show(bits(o1[0])));
  }
  int L = R.p(0.1) ? R.in(n, 2 * n) : R.p(0.1) ? R.in(4096, 6000) : R.in(1, std::min(n, 40)), Lr = std::min({L, n, 4096}); if (n > 2048) { L = R.p(0.02) ? R.in(4096, 5000) : R.in(1, 50); Lr = std::min({L, n, 4096}); }
  int best = o1[0]; o1 = order(fl, &g1, Lr); o2 = order(fe, &g2, Lr); if (g1 < GAPMIN || g2 < GAPMIN || o1 != o2) {     rep.count("lists of tied candidates"); VI x((m + 1) * Lr + 8, -5); VD z = y; lst(m, z.data(), L, x.data()); for (int i = 0; i < 8; i++) if (x[(m + 1) * Lr + i] != -5) FAIL("bounds", "rm1_dec_lst %s: written beyond the output, list %d", in.c_str(), L);
    std::vector<char> seen(n); for (int j = 0; j < Lr; j++) { int f = 0; for (int b = 0; b <= m; b++) { int v = x[(m + 1) * j + b]; if (v != 0 && v != 1) { FAIL("list", "rm1_dec_lst %s: entry %d of %d has a symbol %d", in.c_str(), j, Lr, v); return; } if (b < m) f = 2 * f + v; } if (seen[f]++) { FAIL("list", "rm1_dec_lst %s: the linear form of entry %d of %d is in the list already", in.c_str(), j, Lr); return; } }
    if (ok) { VI b = bits(best); if (!std::equal(b.begin(), b.end(), x.begin())) FAIL("list", "rm1_dec_lst %s: the list begins with %s, not with the best %s", in.c_str(), show(x, m + 1).c_str(), show(b).c_str()); }
    return; }
  rep.count("lists"); rep.count("list entries compared", Lr); if (L > n) rep.count("lists longer than the code"); rep.maxi("max list", Lr); run("rm1_dec_lst", [&](double *a, int *x) { return lst(m, a, L, x); }, y, Lr, o1);
}

// ----- C33: min-sum decoding.
static void c33(Rng &R) {
  Gen g; g.mmax = R.p(0.2) ? 6 : 5; g.lmax = 32; medium(R, g); int kd = R.in(0, 3); Spec s = kd == 0 ? gen_rm(R, D0, g) : kd == 1 ? gen_rm(R, GLP, g) : gen_polar(R, g, kd == 3);
  if (kd == 1 && s.mask.find('0') == std::string::npos && R.p(0.3)) for (int i = R.in(1, 4); i; i--) s.perms.push_back(rnd_perm(R, s.m));
  if (R.p(0.3) && !noiseless(R, ms[s.kind], s, true)) return;
  Inst c, d; if (!opened(c, ms[s.kind], s) || !opened(d, lib[s.kind], s)) return;
  for (int t = 0; t < 4; t++) {
    Rx q = gen_rx(R, s, 0.4, 1.3); if (R.p(0.15)) q.dec_sg = std::pow(10.0, -2.5 * R.u()); VD y = scaled(q.y, q.dec_sg); rep.count("vectors"); double tot = 0; for (double v : y) tot += std::fabs(v); if (tot > 600) rep.count("vectors of very reliable symbols");
    RefOut o; if (s.kind == D0) { Sc<MsA> a; a.ml1 = false; o.x = a.run(y, s.m, s.r); o.gap = a.gap.g; } else o = ref_list1<MsA>(s, y, s.perms);
    if (!(o.gap > 1e-12 * (1 + tot))) { rep.count("skipped: ties"); continue; }
    rep.count("decided"); tell_medium(s); rep.count(std::string("decided ") + lib_names[s.kind]); if (o.x != q.x) rep.count("decoding errors"); if (o.prunes) rep.count("decided with pruning"); if (o.rc) rep.count("erasures");
    d.sg(q.dec_sg); if (d.dec(q.y) != o.x) rep.count("decided other than by exact decoding");
    int v0 = rep.viol; cmp_dec(s, q, o, c, "minsum"); if (rep.viol > v0) return;
    rep.nontrivial(hcase(s, q.y)); rep.sample(s.desc() + " y=" + show(q.y, 8) + " -> " + show(o.x));
  }
}

// ----- C34: families coincide.
static void c34(Rng &R) {
  std::vector<Spec> v; int w = R.in(0, 3); Gen g; g.mmax = 7; int big = R.p(0.03);
  if (w <= 1) { // no lists
    Spec s = gen_rm(R, D0, g); if (big) s = gen_long(R, D0, 8, 12); if (w == 1) { s.r = s.m; if (s.m > 10) s.m = s.r = 10; s.build(); }
    v.push_back(s); if (s.r == s.m) { s.kind = D1; s.build(); v.push_back(s); }
    s.kind = GLP; s.L = 1; s.mask.assign(nodes_num(s.m, s.r), '1'); s.build(); v.push_back(s); s.kind = POL; s.mask = rm_polar_mask(s.m, s.r); s.build(); v.push_back(s);
  } else if (w == 2) { // only nodes of one symbol
    g.mmax = big ? 9 : 6; g.mmin = 2; g.lmax = 64; Spec s = gen_rm(R, GLP, g); std::vector<std::pair<int, int>> b; border(s.m, s.r, b); bool any = false;
    for (size_t i = 0; i < b.size(); i++) { s.mask[i] = b[i].second == 0 && R.p(0.8) ? '1' : '0'; if (s.mask[i] == '1') any = true; } if (!any) for (size_t i = b.size(); i--;) if (b[i].second == 0) { s.mask[i] = '1'; any = true; break; } if (!any) return;
    s.build(); v.push_back(s); Spec p = s; p.kind = POL; p.mask.assign(s.n(), '0'); for (int c : s.code.coef) p.mask[s.n() - 1 - c] = '1'; p.build(); if (p.code.coef != s.code.coef) Lib::die("order of symbols"); v.push_back(p);
  } else { // first order codes with full lists
    Spec s; s.kind = D1; s.m = R.in(1, 6); s.r = 1; s.build(); v.push_back(s); s.kind = GLP; s.L = 2 << s.m; s.mask.assign(nodes_num(s.m, 1), '1'); s.build(); v.push_back(s); s.kind = POL; s.mask = rm_polar_mask(s.m, 1); s.build(); v.push_back(s);
  }
  std::vector<Inst> c(v.size()); for (size_t i = 0; i < v.size(); i++) if (!opened(c[i], lib[v[i].kind], v[i])) return;
  for (int t = 0; t < 6; t++) {
    Rx q = gen_rx(R, v[0], 0.5, 1.3); q.dec_sg = std::max(q.dec_sg, 0.5); if (big) { q.sg = q.dec_sg = used_sg(R, v[0]); q.y = bpsk(code_word(v[0].code, q.x)); for (auto &z : q.y) z += q.sg * R.g(); }
    RefOut o = ref(v[0], q.y, q.dec_sg); rep.count("vectors"); if (!o.ok) { rep.count("skipped: ties"); continue; }
    bool same = true; for (size_t i = 1; i < v.size() && same; i++) { RefOut p = ref(v[i], q.y, q.dec_sg); same = p.ok && p.x == o.x; } if (!same) { rep.count("skipped: ties"); continue; }
    std::vector<VI> x; std::vector<int> rc(v.size()); for (size_t i = 0; i < v.size(); i++) { c[i].sg(q.dec_sg); x.push_back(c[i].dec(q.y, &rc[i])); }
    rep.count("vectors compared"); rep.count("pairs compared", v.size() - 1); if (x[0] != q.x) rep.count("decoding errors"); if (v.size() == 4) rep.count("pairs with dtrm1"); if (w == 2) rep.count("lists compared"); if (w == 3) rep.count("full lists compared"); rep.maxi("max n", v[0].n());
    for (size_t i = 1; i < v.size(); i++) if (x[i] != x[0] || rc[i] != rc[0]) { FAIL("families", "%s decodes %s rc=%d, %s decodes %s rc=%d; sg=%.17g y=%s", v[0].desc().c_str(), show(x[0]).c_str(), rc[0], v[i].desc().c_str(), show(x[i]).c_str(), rc[i], q.dec_sg, show(q.y).c_str()); return; }
    rep.nontrivial(hcase(v[0], q.y)); rep.sample(v[0].desc() + " and " + std::to_string(v.size() - 1) + " others, y=" + show(q.y, 8));
  }
}

// ----- C36: encoding utilities.
static void c36(Rng &R) {
  static void *h = lib[D0].h; auto fn = [&](const char *n) { void *p = dlsym(h, n); if (!p) Lib::die(std::string("no function ") + n); return p; };
  typedef int (*K)(int, int); typedef int (*MM)(int, int *, int *); typedef int (*E)(int, int, int *, int *); typedef int (*B)(int, int, int *, double *); typedef int (*SK)(int, int, unsigned *); typedef int (*SE)(int, int, unsigned *, int *, int *); typedef int (*SB)(int, int, unsigned *, int *, double *);
  static K rm_k = (K)fn("calc_rm_k"); static MM mm = (MM)fn("mrm_enc_mm_bsc"); static E enc = (E)fn("mrm_enc_bsc"); static B encb = (B)fn("mrm_enc_bpsk"); static SK srm_k = (SK)fn("calc_srm_k"), par_k = (SK)fn("calc_par0_srm_k"); static SE senc = (SE)fn("smrm_enc_bsc"), penc = (SE)fn("smrm_par0_enc_bsc"); static SB sencb = (SB)fn("smrm_enc_bpsk"), pencb = (SB)fn("smrm_par0_enc_bpsk");
  int m = R.p(0.02) ? R.in(11, 16) : R.in(0, 10), r = R.in(0, m), n = 1 << m; std::string id = "RM(" + std::to_string(r) + "," + std::to_string(m) + ")"; rep.maxi("max n", n);
  auto arr = [](const VI &v) { return v; };
  // a call with an exactly sized input and output
  auto word = [&](const char *nm, const Code &c, const std::string &what, const std::function<int(int *, int *)> &bsc, const std::function<int(int *, double *)> &bp, int ret) {
    for (int t = 0; t < 3; t++) {
      int k = (int)c.coef.size(); VI x = rnd_word(R, k), x0 = x; if (t == 1 && k) { x.assign(k, 0); x[R.in(0, k - 1)] = 1; x0 = x; } VI e = code_word(c, x); VI y(n, 77); int *xb = (int *)malloc(std::max(1, k) * 4), *yb = (int *)malloc(n * 4); memcpy(xb, x.data(), k * 4); for (int i = 0; i < n; i++) yb[i] = (int)R.u64();
      int rc = bsc(xb, yb); y.assign(yb, yb + n); VI xa(xb, xb + k); free(yb); rep.count("words");
      if (y != e || rc != ret || xa != x0) { FAIL("enc", "%s of %s: x=%s gives %s (result %d), expected %s (result %d)%s", nm, what.c_str(), show(x0).c_str(), show(y).c_str(), rc, show(e).c_str(), ret, xa != x0 ? "; input changed" : ""); free(xb); return; }
      if (bp) { double *d = (double *)malloc(n * 8); rc = bp(xb, d); VD z(d, d + n); free(d); if (z != bpsk(e) || rc) { FAIL("bpsk", "%s of %s: x=%s gives wrong symbols or result %d", nm, what.c_str(), show(x0).c_str(), rc); free(xb); return; } rep.count("BPSK words"); }
      free(xb);
    }
  };
  int w = R.in(0, 3);
  if (w == 0) { // (m, m)
    Code c; c.m = m; c.n = n; for (int i = n; i--;) c.coef.push_back(i); word("mrm_enc_mm_bsc", c, id, [&](int *x, int *y) { return mm(m, x, y); }, nullptr, n);
    VI x = rnd_word(R, n), y(n), z(n); mm(m, x.data(), y.data()); mm(m, y.data(), z.data()); rep.count("inversions"); if (z != x) FAIL("inverse", "m=%d: encoding twice does not give %s", m, show(x).c_str());
  } else if (w == 1) {
    Code c; if (r == 0) { c.m = m; c.n = n; c.coef = {0}; for (int b = 0; b < m; b++) {} } 
    std::string full(nodes_num(m, r), '1'); size_t nd = 0; c.m = m; c.n = n; c.coef.clear(); rm_coefs(m, r, 0, full, nd, c.coef); int k = 0; { double b = 1; for (int i = 0; i <= r; i++) { k += (int)(b + 0.5); b = b * (m - i) / (i + 1); } }
    if (rm_k(m, r) != k) FAIL("dim", "%s: dimension %d, expected %d", id.c_str(), rm_k(m, r), k); rep.count("dimensions");
    word("mrm_enc_bsc", c, id, [&](int *x, int *y) { return enc(m, r, x, y); }, [&](int *x, double *y) { return encb(m, r, x, y); }, k);
  } else {
    int nn = 0; Code c; c.m = m; c.n = n; std::string mask;
    if (w == 2) nn = nodes_num(m, r); else { std::function<int(int, int)> cnt = [&](int a, int b) { return b == 0 ? 1 : cnt(a - 1, b - 1) + cnt(a - 1, b == a ? b - 1 : b); }; nn = cnt(m, r); }
    double dn = R.p(0.3) ? 1 : R.u(); unsigned *tb = (unsigned *)malloc(nn * 4); for (int i = 0; i < nn; i++) { bool on = R.p(dn); mask += on ? '1' : '0'; tb[i] = on ? (R.p(0.5) ? 1 : 1 + R.in(0, 1000000)) : 0; }
    size_t nd = 0; if (w == 2) rm_coefs(m, r, 0, mask, nd, c.coef); else par0_coefs(m, r, 0, mask, nd, c.coef);
    int k = (int)c.coef.size(), got = w == 2 ? srm_k(m, r, tb) : par_k(m, r, tb); rep.count("dimensions"); if (got != k) FAIL("dim", "subcode of %s, nodes %s: dimension %d, expected %d", id.c_str(), mask.substr(0, 300).c_str(), got, k);
    word(w == 2 ? "smrm_enc_bsc" : "smrm_par0_enc_bsc", c, id + " nodes " + mask.substr(0, 300), [&](int *x, int *y) { return (w == 2 ? senc : penc)(m, r, tb, x, y); }, [&](int *x, double *y) { return (w == 2 ? sencb : pencb)(m, r, tb, x, y); }, k); free(tb);
    rep.count(w == 2 ? "subcodes" : "subcodes, one symbol per node");
  }
  rep.nontrivial(R.u64()); rep.sample(id + " kind " + std::to_string(w));
}

// ----- C39: hard input builds.
static Lib hd[4], hr[4], hm[4];
static void c39(Rng &R) {
  int w = R.in(0, 9), f = R.in(0, 2); // format: 0 default, 1 log likelihood ratios, 2 min-sum
  static const char *fn[] = {"default", "log likelihood ratios", "min-sum"}; static const double llr[] = {std::log(4.0), 1, 1};
  Spec s; Gen g; g.mmax = R.p(0.2) ? 6 : 5; g.lmax = 32; int kd = R.in(0, 4); if (kd == 1) f = 0;
  bool ml = w < 3; // lists that hold every codeword
  if (ml) {
    g.kmax = 9; if (f == 2) f = 1;
    if (kd <= 1) { f = 0; s.kind = D1; s.m = R.in(1, 4); s.r = 1; s.build(); }
    else if (kd == 2) { s.kind = GLP; s.r = 1; s.m = R.in(1, 6); if (R.p(0.7)) f = 1; s.mask.assign(nodes_num(s.m, 1), '1'); s.L = (2 << s.m) + R.in(0, 3); s.build(); }
    else { s = gen_polar(R, g, kd == 4); if (s.code.coef.size() > 10) { rep.count("skipped: large"); return; } s.L = (1 << s.code.coef.size()) + R.in(0, 3); }
  } else { medium(R, g); s = kd == 0 ? gen_rm(R, D0, g) : kd == 1 ? gen_rm(R, D1, g) : kd == 2 ? gen_rm(R, GLP, g) : gen_polar(R, g, kd == 4); }
  Lib &l = (f == 0 ? hd : f == 1 ? hr : hm)[s.kind]; Inst c; if (!opened(c, l, s)) return;
  int n = s.n(), k = s.k(); if (ml && k > 12) return; std::vector<VI> words; if (ml) for (int v = 0; v < (1 << k); v++) { VI x(k); for (int i = 0; i < k; i++) x[i] = (v >> i) & 1; words.push_back(code_word(s.code, x)); }
  for (int t = 0; t < 6; t++) {
    Rx q = gen_rx(R, s, 0.4, 1.4); int ne = -1; if (t == 0) ne = 0; else if (R.p(0.3)) ne = R.in(1, 1 + n / 4);
    if (ne >= 0) { q.y = bpsk(code_word(s.code, q.x)); for (int e = 0; e < ne; e++) { double &v = q.y[R.in(0, n - 1)]; v = -v; } }
    for (auto &v : q.y) if (v == 0) v = 0.5;
    if (R.p(0.1)) q.dec_sg = std::pow(10.0, 4 * R.u() - 2); VI z(n); for (int i = 0; i < n; i++) z[i] = q.y[i] > 0; // bpsk: 1 is sent as +1
    c.sg(q.dec_sg); int rc; VI x = c.dec(q.y, &rc); rep.count("vectors"); rep.count(std::string("vectors, format ") + fn[f]); rep.count(std::string("vectors ") + lib_names[s.kind]); if (x != q.x) rep.count("decoding errors"); if (rc == 1) rep.count("erasures");
    std::string in = s.desc() + ", format " + fn[f] + ", sg=" + std::to_string(q.dec_sg) + " y=" + show(q.y);
    // 1. only signs matter
    VD y2(n); double sg2 = R.p(0.3) ? q.dec_sg : std::pow(10.0, 4 * R.u() - 2); int how = R.in(0, 3); for (int i = 0; i < n; i++) { double a = how == 0 ? 1 : how == 1 ? std::fabs(R.g()) + 1e-9 : how == 2 ? std::pow(10.0, 12 * R.u() - 6) : std::fabs(q.y[i]) * (0.1 + R.u()); y2[i] = z[i] ? a : -a; }
    c.sg(sg2); int rc2; VI x2 = c.dec(y2, &rc2); rep.count("pairs of equal signs"); if (x2 != x || rc2 != rc) { FAIL("signs", "%s: decoded %s rc=%d, the same signs with sg=%.17g y=%s decoded %s rc=%d", in.c_str(), show(x).c_str(), rc, sg2, show(y2).c_str(), show(x2).c_str(), rc2); return; }
    // 2. words without errors
    if (ne == 0 && (f == 2 || n <= 32)) { /* products of 32 soft values stay above rounding */ rep.count("words without channel errors"); if (x != q.x || rc) { FAIL("noiseless", "%s: decoded %s rc=%d, sent %s", in.c_str(), show(x).c_str(), rc, show(q.x).c_str()); return; } }
    // 3. nearest codeword
    if (ml && (f || n <= 8)) { // no clipping in the default format
      auto dist = [&](const VI &v) { int d = 0; for (int i = 0; i < n; i++) d += v[i] != z[i]; return d; }; int b = n + 1; for (auto &v : words) b = std::min(b, dist(v)); int d = (int)x.size() == k ? dist(code_word(s.code, x)) : -1; rep.count("nearest words"); rep.count("codewords compared", words.size()); if (b) rep.count("nearest words other than the received");
      if (d != b || rc) { FAIL("nearest", "%s: decoded %s rc=%d at distance %d, nearest codeword at %d", in.c_str(), show(x).c_str(), rc, d, b); return; }
    }
    // 4. reference decoding of the two-valued channel
    VD y(n); for (int i = 0; i < n; i++) y[i] = z[i] ? 1 : -1; double sg = std::sqrt(2 / llr[f]); RefOut o;
    if (f < 2) o = ref(s, y, sg); else { VD u = scaled(y, sg); if (s.kind == D0) { Sc<MsA> a; a.ml1 = false; o.x = a.run(u, s.m, s.r); o.gap = a.gap.g; } else o = ref_list1<MsA>(s, u, s.perms); o.ok = o.gap > GAPMIN; }
    if (!o.ok) rep.count("skipped: ties"); else { rep.count("decided by reference"); tell_medium(s); rep.count(std::string("decided ") + lib_names[s.kind]); if (o.x != q.x) rep.count("decided with decoding errors"); if (x != o.x || rc != o.rc) { FAIL("hard", "%s: decoded %s rc=%d, expected %s rc=%d", in.c_str(), show(x).c_str(), rc, show(o.x).c_str(), o.rc); return; } }
    rep.nontrivial(fnv(z.data(), n * 4, hstr(s.desc()))); rep.sample(s.desc() + " z=" + show(z) + " -> " + show(x));
  }
}

static const struct { const char *n; void (*f)(Rng &); } checks[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C28", c28}, {"C29", c29}, {"C30", c30}, {"C33", c33}, {"C34", c34}, {"C36", c36}, {"C39", c39}};

int main(int argc, char **argv) {
  if (argc < 9) return 98;
  std::string ck = argv[1]; libdir = argv[2]; seed = strtoull(argv[3], 0, 10); uint64_t lo = strtoull(argv[4], 0, 10), hi = strtoull(argv[5], 0, 10); thorough = !strcmp(argv[8], "thorough");
  rep.f = fopen(argv[6], "w"); if (!rep.f) return 98;
  int fd = open(argv[7], O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, 16)) return 98;
  rep.cur = (uint64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  void (*f)(Rng &) = nullptr; for (auto &c : checks) if (ck == c.n) f = c.f; if (!f) return 98;
  const char *sfx = ASAN ? ".asan.so" : ".opt.so";
  for (int i = 0; i < 4; i++) {
    lib[i].load(libdir + "/" + lib_names[i] + sfx);
    if (ck == "C12") clean_[i].load(libdir + "/" + lib_names[i] + ".clean.so");
    if (ck == "C28" && i != D1) rho[i].load(libdir + "/" + lib_names[i] + ".rho.so");
    if (ck == "C39") { hd[i].load(libdir + "/" + lib_names[i] + ".hd.so"); if (i != D1) { hr[i].load(libdir + "/" + lib_names[i] + ".hr.so"); hm[i].load(libdir + "/" + lib_names[i] + ".hm.so"); } }
    if (ck == "C33" && i != D1) ms[i].load(libdir + "/" + lib_names[i] + ".ms.so");
  }
  for (uint64_t i = lo; i < hi && rep.viol < 5; i++) {
    *rep.cur = i; rep.idx = i; Rng R(seed, hstr(ck), i); f(R); rep.count("cases");
#if ASAN
    if ((i & 63) == 63 || i + 1 == hi) if (__lsan_do_recoverable_leak_check()) { rep.violation("leak", "memory leak in cases up to " + std::to_string(i)); break; }
#endif
  }
  *rep.cur = hi; rep.finish(); fflush(stdout);
  _exit(0);
}
