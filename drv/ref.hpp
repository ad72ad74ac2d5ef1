// Independent reference models of the codes and decoders (no code shared with the repository).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

typedef std::vector<int> VI;
typedef std::vector<double> VD;

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    uint64_t x = a; mix(x); x ^= b * 0xd1342543de82ef95ULL; mix(x); x ^= c * 0xaf251af3b0f025b5ULL;
    s[0] = mix(x); s[1] = mix(x);
  }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b;
  }
  double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  int in(int a, int b) { return a + (int)(u64() % (uint64_t)(b - a + 1)); } // inclusive
  bool p(double q) { return u() < q; }
  double g() { double a, b, r; do { a = 2 * u() - 1; b = 2 * u() - 1; r = a * a + b * b; } while (r >= 1 || r == 0); return a * sqrt(-2 * log(r) / r); }
};

static inline int wt(unsigned x) { return __builtin_popcount(x); }

// ----- Codes.

// In: coefficients u[c], c = 0..n-1.  Out: y[pos] = XOR of u[c] over c with (c & pos) == 0.
static inline VI zeta(VI u) {
  int n = (int)u.size();
  // subset sums of u over subsets of ~pos
  for (int b = 1; b < n; b <<= 1) for (int i = 0; i < n; i++) if (i & b) u[i] ^= u[i ^ b];
  VI y(n);
  for (int p = 0; p < n; p++) y[p] = u[(n - 1) & ~p];
  return y;
}

// A linear code given by the ordered list of its information coefficients.
struct Code {
  int m = 0, n = 0;
  VI coef;     // coefficient of each information symbol, in the order of symbols
  VI crc;      // CRC polynomial (without leading 1), empty - none
  int k() const { return (int)coef.size() - (int)crc.size(); }
};

static inline VI crc_rem(const VI &x, const VI &poly) {
  // x(D) mod g(D), g = D^L + poly; first symbol is the highest power.  Horner's scheme.
  int L = (int)poly.size();
  VI r(L, 0); // r[0] is the highest power
  for (size_t i = 0; i < x.size(); i++) {
    int top = L ? r[0] : 0;
    for (int j = 0; j + 1 < L; j++) r[j] = r[j + 1];
    if (L) r[L - 1] = x[i];
    if (top) for (int j = 0; j < L; j++) r[j] ^= poly[j];
  }
  return r;
}

static inline VI code_word(const Code &c, const VI &x) {
  VI w = x;
  if (!c.crc.empty()) { VI r = crc_rem(x, c.crc); w.insert(w.end(), r.begin(), r.end()); }
  VI u(c.n, 0);
  for (size_t i = 0; i < c.coef.size(); i++) u[c.coef[i]] = w[i];
  return zeta(u);
}

// Border nodes of RM(r, m) in the recursion order: (level m, order r).
static inline void border(int m, int r, std::vector<std::pair<int, int>> &o) {
  if (r == 0 || r == m) { o.push_back({m, r}); return; }
  border(m - 1, r - 1, o); border(m - 1, r, o);
}
// Coefficients of RM(r, m) or its subcode: walks the recursion itself.  base collects bits set by "v" steps.
static inline void rm_coefs(int m, int r, int base, const std::string &mask, size_t &node, VI &o) {
  if (r == 0 || r == m) {
    bool on = mask.empty() || mask[node] == '1'; node++;
    if (!on) return;
    if (r == 0 && m > 0) { o.push_back(base); return; }
    for (int c = (1 << m) - 1; c >= 0; c--) o.push_back(base | c);
    return;
  }
  rm_coefs(m - 1, r - 1, base | (1 << (m - 1)), mask, node, o);
  rm_coefs(m - 1, r, base, mask, node, o);
}
// The same with (m, m) nodes decomposed too: every node has one symbol.
static inline void par0_coefs(int m, int r, int base, const std::string &mask, size_t &node, VI &o) {
  if (r == 0) { if (mask[node++] == '1') o.push_back(base); return; }
  par0_coefs(m - 1, r - 1, base | (1 << (m - 1)), mask, node, o);
  par0_coefs(m - 1, r == m ? r - 1 : r, base, mask, node, o);
}
static inline Code rm_code(int m, int r, const std::string &mask = "") {
  Code c; c.m = m; c.n = 1 << m; size_t nd = 0; rm_coefs(m, r, 0, mask, nd, c.coef); return c;
}
static inline Code polar_code(int m, const std::string &mask, const VI &crc = VI()) {
  Code c; c.m = m; c.n = 1 << m; c.crc = crc;
  for (int i = 0; i < c.n; i++) if (mask[i] == '1') c.coef.push_back(c.n - 1 - i);
  return c;
}
static inline std::string rm_polar_mask(int m, int r) {
  std::string s; for (int i = 0; i < (1 << m); i++) s += wt((1 << m) - 1 - i) <= r ? '1' : '0'; return s;
}

// ----- Soft arithmetic.

struct EpsA { // tanh domain with clipping at 1 - 1e-8
  typedef double T;
  static T clip(T e) { const T c = 1.0 - 1e-8; return e > c ? c : e < -c ? -c : e; }
  static T in(double y) { return clip(-std::tanh(0.5 * y)); }
  static T x(T a, T b) { return a * b; }
  static T add(T a, T b) { return clip((a + b) / (1.0 + a * b)); }
  static T p0(T e) { return std::log(1.0 + e); }
  static T p1(T e) { return std::log(1.0 - e); }
  static T llr(T e) { return std::log((1.0 + e) / (1.0 - e)); }
};
struct LlrA { // exact log likelihood ratios ln P0/P1
  typedef double T;
  static T in(double y) { return -y; }
  static T x(T a, T b) {
    T s = ((a < 0) != (b < 0)) ? -1.0 : 1.0;
    return s * std::min(std::fabs(a), std::fabs(b)) + std::log1p(std::exp(-std::fabs(a + b))) - std::log1p(std::exp(-std::fabs(a - b)));
  }
  static T add(T a, T b) { return a + b; }
  static T lp(T l) { // ln(2 / (1 + exp(-l)))
    return l >= 0 ? 0.69314718055994530942 - std::log1p(std::exp(-l)) : 0.69314718055994530942 + l - std::log1p(std::exp(l));
  }
  static T p0(T l) { return lp(l); }
  static T p1(T l) { return lp(-l); }
  static T llr(T l) { return l; }
};

struct MsA { // min-sum: log likelihood ratios with the approximate soft XOR
  typedef double T;
  static T in(double y) { return -y; }
  static T x(T a, T b) { T v = std::min(std::fabs(a), std::fabs(b)); return (a > 0) == (b > 0) ? v : -v; }
  static T add(T a, T b) { return a + b; }
  static T p0(T l) { return LlrA::p0(l); }
  static T p1(T l) { return LlrA::p1(l); }
  static T llr(T l) { return l; }
};

struct Gap { // smallest margin of all decisions taken
  double g = 1e300;
  void see(double d, double = 0) { d = std::fabs(d); if (!(d >= g)) g = d; }
};

static inline VI mm_info(const VI &y) { // information symbols of a word of the (m, m) code
  if (y.size() == 1) return y;
  size_t h = y.size() / 2; VI v(h), u(y.begin() + h, y.end());
  for (size_t i = 0; i < h; i++) v[i] = y[i] ^ y[i + h];
  VI a = mm_info(v), b = mm_info(u); a.insert(a.end(), b.begin(), b.end()); return a;
}

// ----- Recursive decoding without lists.  ml1: first order nodes by ML.

// Log likelihoods of the 2 n words of RM(1, m): [2 i] - the linear form i, [2 i + 1] - its complement.
static inline VD first_order_llr(VD f) {
  int n = (int)f.size();
  for (int b = 1; b < n; b <<= 1) for (int i = 0; i < n; i++) if (!(i & b)) { double p = f[i], q = f[i | b]; f[i] = p + q; f[i | b] = p - q; }
  VD o; for (double v : f) { o.push_back(v / 2); o.push_back(-v / 2); } return o;
}
static inline VD first_order(const std::vector<double> &e, int m, LlrA *) { (void)m; return first_order_llr(e); }
static inline VD first_order(const std::vector<double> &e, int m, MsA *) { (void)m; return first_order_llr(e); }
static inline VD first_order(const std::vector<double> &e, int m, EpsA *) { // by the recursion, with clipping
  std::vector<std::pair<std::vector<double>, double>> v(1, {e, 0.0}); std::vector<int> id(1, 0);
  for (int l = m - 1; l >= 0; l--) {
    std::vector<std::pair<std::vector<double>, double>> w; std::vector<int> jd; int h = 1 << l;
    for (size_t q = 0; q < v.size(); q++) {
      auto &p = v[q].first; double s0 = 0, s1 = 0; std::vector<double> a(h), b(h);
      for (int i = 0; i < h; i++) { double x = EpsA::x(p[i], p[i + h]); s0 += EpsA::p0(x); s1 += EpsA::p1(x); a[i] = EpsA::add(p[i], p[i + h]); b[i] = EpsA::add(-p[i], p[i + h]); }
      w.push_back({a, v[q].second + s0}); jd.push_back(id[q]); w.push_back({b, v[q].second + s1}); jd.push_back(id[q] | h);
    }
    v.swap(w); id.swap(jd);
  }
  // v symbols: 0 - equal halves.  The last symbol is the value at the last position.
  VD o(2 << m);
  for (size_t q = 0; q < v.size(); q++) {
    int form = id[q], last = wt(form) & 1; // linear form without constant at the position n - 1
    double t0 = v[q].second + EpsA::p0(v[q].first[0]), t1 = v[q].second + EpsA::p1(v[q].first[0]);
    o[2 * form] = last ? t1 : t0; o[2 * form + 1] = last ? t0 : t1;
  }
  return o;
}

template <class A> struct Sc {
  typedef typename A::T T; typedef std::vector<T> VT;
  bool ml1; Gap gap; VI x;
  VI run(const VD &y, int m, int r) { VT e(y.size()); for (size_t i = 0; i < y.size(); i++) e[i] = A::in(y[i]); x.clear(); dec(e, m, r); return x; }
  VI dec(const VT &e, int m, int r) {
    int n = 1 << m, h = n / 2;
    if (r == m) {
      VI w(n); for (int i = 0; i < n; i++) { w[i] = e[i] > 0 ? 0 : 1; gap.see(A::llr(e[i])); }
      VI b = mm_info(w); x.insert(x.end(), b.begin(), b.end()); return w;
    }
    if (r == 0) {
      T s = 0; for (int i = 0; i < n; i++) s += A::llr(e[i]);
      gap.see(s); int b = s > 0 ? 0 : 1; x.push_back(b); return VI(n, b);
    }
    if (ml1 && r == 1) {
      // max over words of sum llr * (+1/-1): f[i] - total for the linear form i, sign - the constant.
      VD f = first_order(e, m, (A *)nullptr); int bi = 0; bool neg = false; VD all;
      for (int i = 0; i < n; i++) { all.push_back(f[2 * i]); all.push_back(f[2 * i + 1]); }
      int b = 0; for (int i = 1; i < 2 * n; i++) if (all[i] > all[b]) b = i;
      double sec = -1e300; for (int i = 0; i < 2 * n; i++) if (i != b) sec = std::max(sec, all[i]);
      gap.see(all[b] - sec); bi = b / 2; neg = b & 1;
      VI w(n); for (int i = 0; i < n; i++) w[i] = (wt(i & bi) & 1) ^ (int)neg;
      // information symbols: coefficients of weight 1 (m-1 .. 0), then the constant.  y[pos] = u0 ^ XOR u[bit]*(1 - pos_bit)
      for (int b = m - 1; b >= 0; b--) x.push_back((bi >> b) & 1);
      x.push_back(w[n - 1]);
      return w;
    }
    VT v(h); for (int i = 0; i < h; i++) v[i] = A::x(e[i], e[i + h]);
    VI wv = dec(v, m - 1, r - 1);
    for (int i = 0; i < h; i++) v[i] = A::add(wv[i] ? -e[i] : e[i], e[i + h]);
    VI wu = dec(v, m - 1, r), w(n);
    for (int i = 0; i < h; i++) { w[i] = wv[i] ^ wu[i]; w[i + h] = wu[i]; }
    return w;
  }
};

// ----- List decoding.

struct ListRes { VI x; double met; };

template <class A> struct Scl {
  typedef typename A::T T; typedef std::vector<T> VT;
  struct Path { std::vector<VT> st; std::vector<VI> cw; VI x; double met = 0; int perm = 0; };
  std::string mask; size_t node = 0; int L = 1; bool polar = false; Gap gap; uint64_t prunes = 0, maxl = 0;
  std::vector<Path> P;

  void prune() {
    maxl = std::max<uint64_t>(maxl, P.size());
    if ((int)P.size() <= L) return;
    prunes++;
    std::stable_sort(P.begin(), P.end(), [](const Path &a, const Path &b) { return a.met > b.met; });
    gap.see(P[L - 1].met - P[L].met, P[L].met);
    P.resize(L);
  }
  void leaf(int m, int r) { // border node of the path's current input st.back(); pushes the word to cw
    bool on = mask[node++] == '1'; int n = 1 << m;
    if (!on) {
      for (auto &p : P) { double s = 0; for (int i = 0; i < n; i++) s += A::p0(p.st.back()[i]); p.met += s; p.cw.push_back(VI(n, 0)); }
      return;
    }
    std::vector<Path> Q;
    auto add = [&](const Path &p, const VI &w, double s) {
      Q.push_back(p); Path &q = Q.back(); q.met += s; q.cw.push_back(w);
      if (r == 0 && m > 0) q.x.push_back(w[0]);
      else { VI b = mm_info(w); q.x.insert(q.x.end(), b.begin(), b.end()); }
    };
    for (auto &p : P) {
      const VT &e = p.st.back();
      auto met = [&](const VI &w) { double s = 0; for (int i = 0; i < n; i++) s += w[i] ? A::p1(e[i]) : A::p0(e[i]); return s; };
      if (r == 0) { VI z(n, 0), o(n, 1); add(p, z, met(z)); add(p, o, met(o)); continue; }
      VI h(n); std::vector<std::pair<double, int>> a(n);
      for (int i = 0; i < n; i++) { h[i] = e[i] > 0 ? 0 : 1; double l = A::llr(e[i]); a[i] = {std::fabs(l), i}; }
      std::vector<VI> c; c.push_back(h);
      auto fl = [&](std::initializer_list<int> b) { VI w = h; for (int i : b) w[i] ^= 1; return w; };
      if (n == 2) { c.push_back(fl({0})); c.push_back(fl({1})); c.push_back(fl({0, 1})); }
      else {
        std::stable_sort(a.begin(), a.end());
        gap.see(a[0].first); gap.see(a[1].first - a[0].first); gap.see(a[2].first - a[1].first);
        if (n > 3) gap.see(a[3].first - a[2].first);
        c.push_back(fl({a[0].second})); c.push_back(fl({a[1].second}));
        double two = a[0].first + a[1].first, one = a[2].first;
        gap.see(two - one, two);
        if (two < one) c.push_back(fl({a[0].second, a[1].second})); else c.push_back(fl({a[2].second}));
      }
      for (auto &w : c) add(p, w, met(w));
    }
    P.swap(Q); prune();
  }
  void rec(int m, int r) {
    if (polar ? m == 0 : (r == 0 || r == m)) { leaf(m, polar ? 0 : r); return; }
    int h = 1 << (m - 1);
    for (auto &p : P) { const VT &e = p.st.back(); VT v(h); for (int i = 0; i < h; i++) v[i] = A::x(e[i], e[i + h]); p.st.push_back(std::move(v)); }
    rec(m - 1, r - 1);
    for (auto &p : P) {
      p.st.pop_back(); const VT &e = p.st.back(); const VI &w = p.cw.back(); VT v(h);
      for (int i = 0; i < h; i++) v[i] = A::add(w[i] ? -e[i] : e[i], e[i + h]);
      p.st.push_back(std::move(v));
    }
    rec(m - 1, r);
    for (auto &p : P) {
      p.st.pop_back(); VI u = std::move(p.cw.back()); p.cw.pop_back(); VI v = std::move(p.cw.back()); p.cw.pop_back(); VI w(2 * h);
      for (int i = 0; i < h; i++) { w[i] = v[i] ^ u[i]; w[i + h] = u[i]; }
      p.cw.push_back(std::move(w));
    }
  }
  // perms: images of index bits 0..m-1.  Returns the final list, best first; information symbols moved back.
  std::vector<ListRes> run(const VD &y, int m, int r, const Code &code, const std::vector<VI> &perms) {
    P.clear(); node = 0; int n = 1 << m;
    auto img = [&](int c, const VI &p) { int o = 0; for (int j = 0; j < m; j++) if ((c >> j) & 1) o |= 1 << p[j]; return o; };
    for (size_t i = 0; i < perms.size(); i++) {
      Path p; VT e(n); for (int t = 0; t < n; t++) e[t] = A::in(y[img(t, perms[i])]);
      p.st.push_back(e); p.perm = (int)i; P.push_back(p);
    }
    rec(m, r);
    VI where(n, -1); for (size_t i = 0; i < code.coef.size(); i++) where[code.coef[i]] = (int)i;
    std::vector<ListRes> o;
    for (auto &p : P) {
      ListRes l; l.met = p.met; l.x.assign(p.x.size(), -1);
      for (size_t i = 0; i < p.x.size(); i++) l.x[where[img(code.coef[i], perms[p.perm])]] = p.x[i];
      o.push_back(l);
    }
    std::stable_sort(o.begin(), o.end(), [](const ListRes &a, const ListRes &b) { return a.met > b.met; });
    return o;
  }
};
