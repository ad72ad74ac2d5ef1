// Common parts of the codec drivers: libraries, code descriptions, reports.
#pragma once
#include "ref.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>

enum { D0, D1, GLP, POL };
static const char *const lib_names[] = {"dtrm0", "dtrm1", "glp", "polar"};

struct Lib {
  void *h = nullptr;
  int (*init)(char *, void **) = nullptr;
  int (*get_n)(void *) = nullptr;
  int (*get_k)(void *) = nullptr;
  void (*set_sg)(void *, double) = nullptr;
  void (*set_csnrn)(void *, int) = nullptr;
  int (*enc)(void *, int *, double *) = nullptr;
  int (*dec)(void *, double *, int *) = nullptr;
  void (*close)(void *) = nullptr;
  static void die(const std::string &s) { fprintf(stderr, "HARNESS: %s\n", s.c_str()); _exit(97); }
  void load(const std::string &p) {
    h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) die(std::string("dlopen ") + dlerror());
    auto get = [&](const char *n, bool must) { void *s = dlsym(h, n); if (!s && must) die(std::string("no symbol ") + n + " in " + p); return s; };
    init = (decltype(init))get("cdc_init", true); get_n = (decltype(get_n))get("cdc_get_n", true); get_k = (decltype(get_k))get("cdc_get_k", true);
    set_sg = (decltype(set_sg))get("cdc_set_sg", false); set_csnrn = (decltype(set_csnrn))get("cdc_set_csnrn", false);
    enc = (decltype(enc))get("enc_bpsk", true); dec = (decltype(dec))get("dec_bpsk", true); close = (decltype(close))get("cdc_close", true);
  }
};

// ----- Report of this process.

struct Report {
  FILE *f = nullptr; uint64_t *cur = nullptr; uint64_t idx = 0; int viol = 0; int samples = 0;
  std::map<std::string, uint64_t> cnt; std::map<std::string, uint64_t> mx;
  std::vector<uint64_t> hashes;
  static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '\1') o += ' '; else if (c == '\n' || c == '\t') o += "\\n"; else o += c; } return o; }
  void violation(const std::string &key, const std::string &msg) {
    viol++; cnt["violations"]++;
    if (viol <= 20) { fprintf(f, "V\t%llu\t%s\t%s\n", (unsigned long long)idx, esc(key).c_str(), esc(msg).c_str()); fflush(f); }
  }
  void beat() { cur[1]++; } // For cases known to be long.
  void sample(const std::string &s) { if (samples < 2) { samples++; fprintf(f, "S\t%s\n", esc(s).c_str()); } }
  void count(const std::string &n, uint64_t v = 1) { cnt[n] += v; }
  void maxi(const std::string &n, uint64_t v) { uint64_t &x = mx[n]; if (v > x) x = v; }
  void nontrivial(uint64_t h) { hashes.push_back(h); }
  void finish() {
    for (auto &c : cnt) fprintf(f, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
    for (auto &c : mx) fprintf(f, "M\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
    for (auto h : hashes) fprintf(f, "H\t%016llx\n", (unsigned long long)h);
    fprintf(f, "E\n"); fclose(f);
  }
};

static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
static inline uint64_t hstr(const std::string &s) { return fnv(s.data(), s.size()); }
static inline uint64_t hmix(uint64_t a, uint64_t b) { return fnv(&b, 8, a); }

template <class T> static std::string show(const std::vector<T> &v, size_t mx = 64) {
  std::string o; char b[40];
  for (size_t i = 0; i < v.size() && i < mx; i++) {
    if constexpr (std::is_same<T, int>::value) snprintf(b, sizeof b, "%d", v[i]); else snprintf(b, sizeof b, "%s%.6g", i ? "," : "", (double)v[i]);
    o += b;
  }
  if (v.size() > mx) o += "...";
  return o;
}

// ----- Code descriptions.

struct Spec {
  int kind = D0, m = 2, r = 1, L = 1;
  std::string mask, extra; std::vector<VI> perms; VI crc; Code code;
  int n() const { return 1 << m; }
  int k() const { return code.k(); }
  void build() { code = kind == POL ? polar_code(m, mask, crc) : rm_code(m, r, kind == GLP ? mask : ""); }
  std::string str() const {
    std::string s; auto tok = [&](const std::string &t) { if (!s.empty()) s += '\1'; s += t; };
    auto num = [&](int v) { tok(std::to_string(v)); };
    if (kind == POL) {
      tok("c_m"); num(m); tok("info_bits_mask"); tok(mask);
      if (!crc.empty()) { tok("ca_polar_crc"); tok(show(crc, 1000)); }
      tok("list_size"); num(L);
    } else {
      tok("RM_m"); num(m); tok("RM_r"); num(r);
      if (kind == GLP) { tok("border_node_mask"); tok(mask); tok("border_node_lsize"); num(L); }
    }
    if (!perms.empty()) { tok("permutations"); tok("{"); for (auto &p : perms) for (int v : p) num(v); tok("}"); }
    if (!extra.empty()) tok(extra);
    return s;
  }
  std::string desc() const { return std::string(lib_names[kind]) + ": " + str(); }
};

static inline int nodes_num(int m, int r) { std::vector<std::pair<int, int>> o; border(m, r, o); return (int)o.size(); }

struct Inst {
  Lib *l = nullptr; void *h = nullptr; int n = 0, k = 0;
  Inst() {}
  Inst(const Inst &) = delete;
  Inst(Inst &&o) noexcept { *this = std::move(o); }
  Inst &operator=(Inst &&o) noexcept { fin(); l = o.l; h = o.h; n = o.n; k = o.k; o.h = nullptr; return *this; }
  bool open(Lib &lib, const std::string &s) {
    fin(); l = &lib; std::vector<char> b(s.begin(), s.end()); b.push_back(0);
    int rc = l->init(b.data(), &h);
    if (rc) { h = nullptr; return false; }
    n = l->get_n(h); k = l->get_k(h); return true;
  }
  void sg(double s) { if (l->set_sg) l->set_sg(h, s); }
  VD enc(const VI &x) { VI t = x; t.resize(std::max<size_t>(1, t.size())); VD y(n, 9e9); l->enc(h, t.data(), y.data()); return y; }
  VI dec(const VD &y, int *rc = nullptr) { VD t = y; VI x(n, -7); int c = l->dec(h, t.data(), x.data()); if (rc) *rc = c; x.resize(k); return x; }
  void fin() { if (h) l->close(h); h = nullptr; }
  ~Inst() { fin(); }
};

static inline VI rnd_word(Rng &R, int k) { VI x(k); for (auto &b : x) b = R.u64() & 1; return x; }
static inline VD bpsk(const VI &c) { VD y(c.size()); for (size_t i = 0; i < c.size(); i++) y[i] = c[i] ? 1.0 : -1.0; return y; }

static inline VI rnd_perm(Rng &R, int m) { VI p(m); for (int i = 0; i < m; i++) p[i] = i; for (int i = m - 1; i > 0; i--) std::swap(p[i], p[R.in(0, i)]); return p; }

struct Gen { int mmin = 1, mmax = 6, lmax = 16; bool good = false; int kmax = 1 << 20; };

static inline Spec gen_rm(Rng &R, int kind, const Gen &g) {
  Spec s; s.kind = kind;
  for (int it = 0;; it++) {
    s.m = R.in(std::max(1, g.mmin), g.mmax); s.r = R.in(1, s.m);
    if (kind == GLP) {
      int nn = nodes_num(s.m, s.r); s.mask.assign(nn, '1');
      if (R.p(0.6)) {
        double d = R.p(0.5) ? 0.85 : R.u();
        for (auto &c : s.mask) c = R.p(d) ? '1' : '0';
        if (R.p(0.3)) { s.mask.assign(nn, '0'); for (int i = R.in(1, 3); i; i--) s.mask[R.in(0, nn - 1)] = '1'; }
        if (s.mask.find('1') == std::string::npos) s.mask[R.in(0, nn - 1)] = '1';
      }
      static const int Ls[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 64, 100, 128, 200, 256, 500, 1000};
      do s.L = R.p(0.1) ? R.in(1, g.lmax) : Ls[R.in(g.lmax > 256 ? 14 : 0, 22)]; while (s.L > g.lmax);
    }
    s.build();
    if (s.k() <= g.kmax || it > 200) break;
  }
  return s;
}
static inline Spec gen_polar(Rng &R, const Gen &g, bool crc) {
  Spec s; s.kind = POL;
  for (int it = 0;; it++) {
    s.m = R.in(std::max(crc ? 2 : 1, g.mmin), g.mmax); int n = s.n();
    s.mask.assign(n, '0');
    int k = R.in(1, n);
    if (R.p(0.7) || g.good) { // keep reliable positions, with random exceptions
      std::vector<std::pair<double, int>> o;
      double beta = R.p(0.5) ? 1.19 : 1.0, jit = R.p(0.5) ? 0 : R.u();
      for (int i = 0; i < n; i++) { double w = 0, b = 1; for (int j = 0; j < s.m; j++, b *= beta) if ((i >> j) & 1) w += b; o.push_back({-w + jit * R.g(), i}); }
      std::sort(o.begin(), o.end());
      if (g.good) k = R.in(std::max(1, n / 8), std::max(1, (3 * n + 3) / 4));
      for (int i = 0; i < k; i++) s.mask[o[i].second] = '1';
    } else { double d = R.u(); for (auto &c : s.mask) c = R.p(d) ? '1' : '0'; }
    if (s.mask.find('1') == std::string::npos) s.mask[R.in(0, n - 1)] = '1';
    int ck = (int)std::count(s.mask.begin(), s.mask.end(), '1');
    s.crc.clear();
    if (crc) {
      if (ck < 2) continue;
      int cl = R.in(1, std::min(ck / 2, R.p(0.7) ? 4 : R.p(0.8) ? 24 : 200));
      s.crc.resize(cl); for (auto &b : s.crc) b = R.u64() & 1;
      if (R.p(0.8)) s.crc[cl - 1] = 1;
    }
    static const int Ls[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 64, 100, 128, 200, 256, 500, 1000};
    do s.L = R.p(0.1) ? R.in(1, g.lmax) : Ls[R.in(g.lmax > 256 ? 14 : 0, 22)]; while (s.L > g.lmax);
    s.build();
    if (s.k() <= g.kmax || it > 200) break;
  }
  return s;
}
static inline Spec gen_any(Rng &R, const Gen &g) {
  int k = R.in(0, 4);
  if (k <= 2) return gen_rm(R, k, g);
  return gen_polar(R, g, k == 4);
}

// Adds permutations that keep the code.  Masks of polar codes are made symmetric.
static inline int img(int c, const VI &p) { int o = 0; for (size_t j = 0; j < p.size(); j++) if ((c >> j) & 1) o |= 1 << p[j]; return o; }
static inline bool give_perms(Rng &R, Spec &s, int np) {
  if (s.kind == GLP) { if (s.mask.find('0') != std::string::npos) return false; for (int i = 0; i < np; i++) s.perms.push_back(rnd_perm(R, s.m)); return true; }
  if (s.kind != POL) return false;
  int a = R.p(0.4) ? 0 : R.in(0, s.m - 1), b = a == 0 && R.p(0.6) ? s.m - 1 : R.in(a, s.m - 1); std::vector<VI> P; // the variables a..b are permuted
  for (int i = 0; i < np; i++) { VI q = rnd_perm(R, b - a + 1), p(s.m); for (int j = 0; j < s.m; j++) p[j] = j; for (int j = a; j <= b; j++) p[j] = a + q[j - a]; P.push_back(p); }
  int n = s.n(); bool grow = R.p(0.5);
  for (;; grow = true) {
    std::vector<char> in(n); for (int i = 0; i < n; i++) in[n - 1 - i] = s.mask[i] == '1';
    for (bool ch = true; ch;) { ch = false; for (auto &p : P) for (int c = 0; c < n; c++) { char &x = in[c], &y = in[img(c, p)]; if (x != y) { x = y = grow; ch = true; } } }
    std::string m(n, '0'); int k = 0; for (int i = 0; i < n; i++) if (in[n - 1 - i]) { m[i] = '1'; k++; }
    if (k < 1 || (int)s.crc.size() * 2 > k) continue;
    s.mask = m; break;
  }
  s.perms = P; s.build(); return true;
}

// Received vectors.  Information word x is sent; kinds of noise differ.
struct Rx { VI x; VD y; double sg = 1, dec_sg = 1; };
static inline VI odd_word(Rng &R, int k) { // words at which loops begin or end
  VI x(k, 0); int t = R.in(0, 4);
  if (t == 1) x.assign(k, 1); else if (t == 2) x[R.in(0, k - 1)] = 1; else if (t == 3) { x.assign(k, 1); x[R.in(0, k - 1)] = 0; } else if (t == 4) { int a = R.in(0, k - 1); for (int i = R.p(0.5) ? 0 : a; i < k; i++) x[i] = 1; for (int i = a; i < k && R.p(0.9); i++) x[i] = (int)(R.u64() & 1); }
  return x;
}
static inline Rx gen_rx(Rng &R, const Spec &s, double lo = 0.4, double hi = 1.3) {
  Rx q; q.x = R.p(0.2) ? odd_word(R, s.k()) : rnd_word(R, s.k()); q.y = bpsk(code_word(s.code, q.x));
  q.sg = lo + (hi - lo) * R.u();
  int t = R.in(0, 11);
  if (t == 0) for (auto &v : q.y) v = R.g();                                    // no codeword at all
  else if (t == 1) for (auto &v : q.y) v = v * std::fabs(R.g()) + q.sg * R.g(); // fading
  else if (t == 2) for (auto &v : q.y) v = (v + q.sg * R.g()) * std::exp(1.5 * R.g()); // symbols of very different reliability
  else for (auto &v : q.y) v += q.sg * R.g();
  q.dec_sg = R.p(0.75) ? q.sg : q.sg * (0.6 + 1.2 * R.u());
  return q;
}
