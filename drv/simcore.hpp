// Simulator driver: interposed codec, time and file operations; monitors of a simulation; results files.
// Linked with the objects of one simulator program; see lib/sim.py for the list of wrapped functions.
#pragma once
#include "common.hpp"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <deque>
#include <dirent.h>
#include <functional>
#include <set>

extern "C" {
struct sim_init_params { char *spf_name; int ret_int; int dont_randomize; };
int sim_init(sim_init_params *sp, void **inst);
void sim_close(void *inst);
int sim_run(void *inst);
void sim_state_str(void *inst, char ds[]);
void sim_cur_res_str(void *inst, char ds[]);
int sim_save_res(void *inst);
void sim_control(void *inst, int ctrl_code);
int __real_cdc_init(char s[], void **c);
int cdc_get_n(void *c);
int cdc_get_k(void *c);
void __real_cdc_set_sg(void *c, double sg) __attribute__((weak));
int __real_enc_bpsk(void *c, int x[], double y[]);
int __real_dec_bpsk(void *c, double y[], int x[]);
void __real_cdc_close(void *c);
FILE *__real_fopen(const char *p, const char *m);
int __real_fclose(FILE *f);
int __real_rename(const char *a, const char *b);
int __real_remove(const char *a);
int __real_unlink(const char *a);
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
time_t __real_time(time_t *t);
int __real_open(const char *p, int fl, ...);
int __real_access(const char *p, int m);
int __real_link(const char *a, const char *b);
int __real_mkdir(const char *a, mode_t m);
}
enum { MORE = 1, LESS = 2, NEXT = 3, NOT_COMPLETED = 17 };

static Report rep;
#define FAIL(key, ...) do { char b_[6000]; snprintf(b_, sizeof b_, __VA_ARGS__); rep.violation(key, b_); } while (0)

// ----- Virtual time.
struct VTime { double t = 1.7e9; double tick = 0; uint64_t calls = 0; double clk = 0; double waited = 0; Rng R{1, 2, 3}; };
static VTime vt;
static double vnow() { vt.calls++; if (vt.tick > 0) vt.t += vt.tick * vt.R.u(); return vt.t; }

// ----- File operations.
enum Op { O_FOPEN, O_FCLOSE, O_RENAME, O_REMOVE, O_WAIT, O_MALLOC, O_ACCESS };
static const char *const op_names[] = {"fopen", "fclose", "rename", "remove", "wait", "malloc", "access"};
static bool armed = false;                                       // only operations of the code under test
static std::function<int(Op, const char *, const char *)> op_hook; // result: 0 - go on, else a kind of failure
static std::map<FILE *, std::pair<std::string, std::string>> open_files;
static int op_point(Op o, const char *a, const char *b = "") {
  if (!armed || !op_hook) return 0;
  armed = false; int r = op_hook(o, a, b); armed = true; return r;
}
// Kinds of failure.
enum { F_NONE, F_ACCES, F_MFILE, F_IO, F_BADREAD, F_FULL, F_TRUNC, F_ONCE };
// A file with a single failing write, after a number of writes of some hundred bytes.
struct Once { int fd; int left; char buf[256]; };
static int once_left = 0; static std::deque<Once *> once_done;
static ssize_t once_write(void *c, const char *b, size_t n) { Once *o = (Once *)c; if (o->left-- == 0) { errno = EIO; return 0; } return write(o->fd, b, n); }
static int once_close(void *c) { Once *o = (Once *)c; int r = close(o->fd); once_done.push_back(o); return r; } // the buffer is in use until fclose is over

extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
  int r = op_point(O_FOPEN, p, m);
  if (r == F_ACCES || r == F_MFILE || r == F_IO) { errno = r == F_ACCES ? EACCES : r == F_MFILE ? EMFILE : EIO; return nullptr; }
  if (r == F_BADREAD && m[0] == 'r') { int fd = __real_open(".", O_RDONLY); return fdopen(fd, "rb"); }
  if (r == F_ONCE && m[0] == 'w') { while (once_done.size() > 4) { delete once_done.front(); once_done.pop_front(); } int fd = __real_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) return nullptr; cookie_io_functions_t io = {nullptr, once_write, nullptr, once_close}; Once *o = new Once{fd, once_left, {}}; FILE *f = fopencookie(o, "w", io); setvbuf(f, o->buf, _IOFBF, sizeof o->buf); open_files[f] = {p, m}; return f; }
  FILE *f = __real_fopen(p, m);
  if (f && r == F_FULL && m[0] != 'r') { int fd = __real_open("/dev/full", O_WRONLY); if (fd >= 0) { dup2(fd, fileno(f)); close(fd); } }
  if (armed && f) open_files[f] = {p, m};
  return f;
}
extern "C" int __wrap_fclose(FILE *f) {
  auto it = open_files.find(f); std::string p, m; if (it != open_files.end()) { p = it->second.first; m = it->second.second; }
  int r = op_point(O_FCLOSE, p.c_str(), m.c_str());
  if (it != open_files.end()) open_files.erase(it);
  if (r && !m.empty() && m[0] != 'r') { fflush(f); struct stat st; if (!fstat(fileno(f), &st) && S_ISREG(st.st_mode) && r == F_TRUNC) { if (ftruncate(fileno(f), st.st_size / 2)) {} } __real_fclose(f); errno = ENOSPC; return EOF; }
  int rc = __real_fclose(f);
  if (r) { errno = EIO; return EOF; }
  return rc;
}
extern "C" int __wrap_rename(const char *a, const char *b) { int r = op_point(O_RENAME, a, b); if (r) { errno = r == F_ACCES ? EACCES : EIO; return -1; } return __real_rename(a, b); }
extern "C" int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t md = va_arg(a, mode_t); va_end(a); int r = op_point(O_FOPEN, p, (fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)) ? "r" : (fl & O_EXCL) ? "wx" : "w"); if (r) { errno = EACCES; return -1; } return __real_open(p, fl, md); }
extern "C" int __wrap_access(const char *p, int m) { op_point(O_ACCESS, p); return __real_access(p, m); }
extern "C" int __wrap_link(const char *a, const char *b) { int r = op_point(O_RENAME, a, b); if (r) { errno = EACCES; return -1; } return __real_link(a, b); }
extern "C" int __wrap_mkdir(const char *a, mode_t m) { int r = op_point(O_FOPEN, a, "wx"); if (r) { errno = EACCES; return -1; } return __real_mkdir(a, m); }
extern "C" int __wrap_remove(const char *a) { int r = op_point(O_REMOVE, a); if (r) { errno = EACCES; return -1; } return __real_remove(a); }
extern "C" int __wrap_unlink(const char *a) { int r = op_point(O_REMOVE, a); if (r) { errno = EACCES; return -1; } return __real_unlink(a); }
static size_t malloc_limit = 0; static bool skip_dec = false, fast_rand = false;
// Blocks the code under test has allocated and not released.
static bool tracking = false; static std::map<void *, size_t> live;
static void *tracked(void *p, size_t n) { if (p && tracking && armed) live[p] = n; return p; }
static bool no_memory(size_t n) { if ((armed && malloc_limit && n > malloc_limit) || op_point(O_MALLOC, "", "")) { errno = ENOMEM; return true; } return false; }
extern "C" void *__wrap_malloc(size_t n) { return no_memory(n) ? nullptr : tracked(__real_malloc(n), n); }
extern "C" void *__wrap_calloc(size_t n, size_t m) { return no_memory(n * m) ? nullptr : tracked(__real_calloc(n, m), n * m); }
extern "C" void *__wrap_realloc(void *p, size_t n) { if (no_memory(n)) return nullptr; if (tracking) live.erase(p); return tracked(__real_realloc(p, n), n); }
extern "C" void __wrap_free(void *p) { if (tracking) live.erase(p); __real_free(p); }
extern "C" int __real_rand(void);
static uint64_t fast_state = 88172645463325252ULL, rand_calls = 0;
extern "C" int __wrap_rand(void) { rand_calls++; if (!fast_rand) return __real_rand(); return (int)(Rng::mix(fast_state) >> 33); }
extern "C" void __real_srand(unsigned);
extern "C" void __wrap_srand(unsigned v) { fast_state = v; Rng::mix(fast_state); fast_state ^= (uint64_t)v * 0xd1342543de82ef95ULL; __real_srand(v); }
static void vwait(double s) { vt.t += s; vt.clk += s; vt.waited += s; op_point(O_WAIT, ""); }
static bool in_save = false;
extern "C" time_t __wrap_time(time_t *t) { if (armed && in_save) vwait(0.26); time_t r = (time_t)vnow(); if (t) *t = r; return r; }
extern "C" clock_t __wrap_clock(void) { if (armed) { vwait(0.26); } return (clock_t)(vt.clk * CLOCKS_PER_SEC); }
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *) { double t = vnow(); if (armed) vwait(0.26); tv->tv_sec = (time_t)t; tv->tv_usec = (long)((t - (double)tv->tv_sec) * 1e6); return 0; }
extern "C" int __wrap_clock_gettime(clockid_t, struct timespec *ts) { double t = vnow(); if (armed) vwait(0.26); ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9); return 0; }
extern "C" int __wrap_nanosleep(const struct timespec *a, struct timespec *) { vwait((double)a->tv_sec + a->tv_nsec * 1e-9); return 0; }
extern "C" int __wrap_usleep(unsigned u) { vwait(u * 1e-6); return 0; }
extern "C" unsigned __wrap_sleep(unsigned u) { vwait(u); return 0; }

// ----- Simulation configuration.
struct Pt {
  long long trn = 0, bit = 0, bl = 0, er = 0, mltrn = 0, ml = 0;
  bool operator==(const Pt &o) const { return trn == o.trn && bit == o.bit && bl == o.bl && er == o.er && mltrn == o.mltrn && ml == o.ml; }
  Pt &operator+=(const Pt &o) { trn += o.trn; bit += o.bit; bl += o.bl; er += o.er; mltrn += o.mltrn; ml += o.ml; return *this; }
  Pt minus(const Pt &o) const { Pt r = *this; r.trn -= o.trn; r.bit -= o.bit; r.bl -= o.bl; r.er -= o.er; r.mltrn -= o.mltrn; r.ml -= o.ml; return r; }
  std::string str() const { char b[200]; snprintf(b, sizeof b, "trials %lld, bit errors %lld, block errors %lld, erasures %lld, ML trials %lld, ML errors %lld", trn, bit, bl, er, mltrn, ml); return b; }
};
struct Cfg {
  Spec spec; std::vector<double> snr; std::vector<int> trn; bool trn_list = true; // SNR_val_trn or EbNo_values
  std::vector<std::string> snr_txt;
  int min_trn = 0, min_en = 0; bool ml = false, mlh = false, rcw = false; double fixedR = 0; std::string res = "r.srf"; int ret_int = 10; bool nr = false;
  static std::string num(double v) { char b[64]; for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, 0) == v) break; } return b; }
  std::string code_txt() const { std::string s = spec.str(); std::string o; bool key = true; int depth = 0; std::string t;
    std::vector<std::string> tk; for (char c : s + "\1") if (c == '\1') { tk.push_back(t); t.clear(); } else t += c;
    for (auto &w : tk) { if (w == "{") { o += "{ "; depth++; } else if (w == "}") { o += "}\n"; depth = 0; key = true; } else if (depth) o += w + " "; else if (key) { o += w + " "; key = false; } else { o += w + "\n"; key = true; } }
    return o; }
  std::string text() const {
    std::string o = code_txt() + "\nres_file " + res + "\n"; char b[100];
    if (trn_list) { o += "SNR_val_trn {\n"; for (size_t i = 0; i < snr.size(); i++) { snprintf(b, sizeof b, " %d\n", trn[i]); o += "  " + num(snr[i]) + b; } o += "}\n"; }
    else { o += "EbNo_values { "; for (double v : snr) o += num(v) + " "; o += "}\n"; }
    if (min_trn) o += "min_trials_per_snr " + std::to_string(min_trn) + "\n";
    if (min_en) o += "min_errors_per_snr " + std::to_string(min_en) + "\n";
    if (ml) o += "ml_lb on\n"; if (mlh) o += "ml_lb_hard on\n"; if (rcw) o += "random_codeword on\n";
    if (fixedR > 0) o += "fixed_R " + num(fixedR) + "\n";
    return o;
  }
  double rate() const { return fixedR > 0 ? fixedR : (double)spec.k() / spec.n(); }
  double sigma(int i) const { return 1 / std::sqrt(2 * rate() * std::pow(10.0, snr[i] / 10)); }
  int min_trials(int i) const { return trn_list && trn[i] >= 1 ? trn[i] : std::max(1, min_trn); }
  int min_errors() const { return std::max(1, min_en); }
  std::string desc() const { std::string s = spec.desc() + " |"; for (size_t i = 0; i < snr.size(); i++) s += " " + num(snr[i]) + (trn_list ? ":" + std::to_string(trn[i]) : ""); s += " | min_trn " + std::to_string(min_trn) + " min_en " + std::to_string(min_en) + (ml ? " ml" : "") + (mlh ? " ml_hard" : "") + (rcw ? " rcw" : "") + (fixedR > 0 ? " R " + num(fixedR) : ""); return s; }
};

// ----- Monitor of one simulation at the codec interface.
struct Mon {
  Cfg cfg; Rng S{1, 2, 3}; double p_err = 0, p_era = 0, p_real = 1; int quiet_after = 0; std::vector<double> pf;
  std::vector<Pt> pt, prev; VI tx; VD txc; bool enc_since = false; double sg = 0; bool sg_set = false; int cur = -1;
  uint64_t hash = 14695981039346656037ULL, decs = 0, encs = 0; bool ambiguous = false; long bad_sigma = 0, bad_order = 0; bool nohash = false, nolimit = false, forced = false; double worst_sigma = 0;
  uint64_t missing_enc = 0, sign_checks = 0, sign_errors = 0; std::string note;
  std::function<void(Mon &, const double *y)> on_dec; int closed = 0;
  Mon() {}
  void start(const Cfg &c, uint64_t seed) { cfg = c; S = Rng(seed, 77, 5); pt.assign(c.snr.size(), Pt()); pf.assign(c.snr.size(), 1.0); }
  int point() {
    // The point is known by the noise level the decoder was told; points are visited in order.
    int b = -1; double bd = 1e300;
    for (size_t i = 0; i < cfg.snr.size(); i++) { double d = std::fabs(std::log(sg / cfg.sigma((int)i))); if (d < bd - 1e-12 || (std::fabs(d - bd) <= 1e-12 && (int)i == cur)) { bd = d; b = (int)i; } }
    // Equal SNR values: stay, or move to the next one.
    if (bd > 1e-9) { bad_sigma++; worst_sigma = std::max(worst_sigma, bd); }
    return b;
  }
};
static std::map<void *, Mon *> mons; static Mon *pending = nullptr;
extern "C" int __wrap_cdc_init(char s[], void **c) { int r = __real_cdc_init(s, c); if (r == 0 && pending) mons[*c] = pending; pending = nullptr; return r; }
extern "C" void __wrap_cdc_close(void *c) { auto it = mons.find(c); if (it != mons.end()) { it->second->closed++; mons.erase(it); } __real_cdc_close(c); }
extern "C" void __wrap_cdc_set_sg(void *c, double sg) { auto it = mons.find(c); if (it != mons.end()) { it->second->sg = sg; it->second->sg_set = true; } if (__real_cdc_set_sg) __real_cdc_set_sg(c, sg); }
extern "C" int __wrap_enc_bpsk(void *c, int x[], double y[]) {
  auto it = mons.find(c); if (it != mons.end()) { Mon &m = *it->second; m.tx.assign(x, x + m.cfg.spec.k()); m.enc_since = true; m.encs++; }
  return __real_enc_bpsk(c, x, y);
}
extern "C" int __wrap_dec_bpsk(void *c, double y[], int xd[]) {
  auto it = mons.find(c); if (it == mons.end()) { if (!skip_dec) return __real_dec_bpsk(c, y, xd); int k = cdc_get_k(c); for (int i = 0; i < k; i++) xd[i] = 1; return 0; }
  bool was = armed; armed = false;
  Mon &m = *it->second; int n = m.cfg.spec.n(), k = m.cfg.spec.k(); m.decs++; if (m.decs > 100000 && !m.nolimit) { m.p_real = 0; m.p_err = std::max(m.p_err, 0.5); m.p_era = std::min(m.p_era, 0.5); m.pf.assign(m.pf.size(), 1); m.forced = true; } // or a decoder without errors is simulated for ever
  int p = m.point(); if (p != m.cur && p < m.cur) m.bad_order++; m.cur = p;
  if (!m.cfg.rcw) m.tx.assign(k, 0); else if (!m.enc_since) m.missing_enc++;
  m.enc_since = false; if ((int)m.tx.size() != k) m.tx.assign(k, 0);
  if (!m.nohash || (int)m.txc.size() != n) m.txc.resize(n), 0; if (!m.nohash) { VI t = m.tx; t.resize(std::max(k, 1)); __real_enc_bpsk(c, t.data(), m.txc.data()); }
  if (!m.nohash && m.cfg.sigma(p) < 0.08) for (int i = 0; i < n; i++) { m.sign_checks++; if (y[i] * m.txc[i] <= 0) m.sign_errors++; }
  if (!m.nohash) m.hash = fnv(y, n * sizeof(double), m.hash);
  if (m.on_dec) m.on_dec(m, y);
  VD yc; if (!m.nohash) yc.assign(y, y + n); int rc = 0;
  m.prev = m.pt; if (m.S.p(m.p_real)) { armed = was; rc = __real_dec_bpsk(c, y, xd); armed = false; if (rc < 0) { armed = was; return rc; } }
  else {
    for (int i = 0; i < k; i++) xd[i] = m.tx[i];
    double pe = m.p_err * m.pf[p];
    if (m.S.p(pe) && !(m.quiet_after && m.pt[p].trn > m.quiet_after)) { int w = m.S.in(0, 3); if (w == 0) xd[m.S.in(0, k - 1)] ^= 1; else if (w == 1) for (int i = 0; i < k; i++) xd[i] ^= 1; else { bool d = false; for (int i = 0; i < k; i++) if (m.S.u64() & 1) { xd[i] ^= 1; d = true; } if (!d) xd[k - 1] ^= 1; } }
    if (m.S.p(m.p_era)) rc = 1;
  }
  Pt &q = m.pt[p]; q.trn++; int e = 0; for (int i = 0; i < k; i++) if (xd[i] != m.tx[i]) e++;
  if (e) { q.bl++; q.bit += e; }
  if (rc == 1) q.er++;
  if ((m.cfg.ml || m.cfg.mlh) && rc != 1) {
    q.mltrn++;
    if (e) {
      VD z(n); VI t(xd, xd + k); __real_enc_bpsk(c, t.data(), z.data()); long double a = 0, b = 0; 
      for (int i = 0; i < n; i++) { double v = m.cfg.mlh ? (yc[i] > 0 ? 1.0 : -1.0) : yc[i]; a += (long double)(v - m.txc[i]) * (v - m.txc[i]); b += (long double)(v - z[i]) * (v - z[i]); }
      if (a > b) q.ml++;
      if (!m.cfg.mlh && std::fabs((double)(a - b)) < 1e-9 * (double)(a + b)) m.ambiguous = true;
    }
  }
  armed = was; return rc;
}

// ----- Files.
static std::string slurp(const std::string &p, bool *ok = nullptr) {
  std::string s; FILE *f = __real_fopen(p.c_str(), "rb"); if (ok) *ok = f != nullptr; if (!f) return s;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); __real_fclose(f); return s;
}
static void spit(const std::string &p, const std::string &s) { FILE *f = __real_fopen(p.c_str(), "wb"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) Lib::die("cannot write " + p); __real_fclose(f); }
static std::set<std::string> dir_files() { std::set<std::string> s; DIR *d = opendir("."); if (!d) return s; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(d); return s; }
static bool exists(const std::string &p) { struct stat st; return !lstat(p.c_str(), &st); }

struct Srf {
  bool ok = false; std::string why; std::string text; std::map<std::string, std::vector<std::string>> kv; std::vector<std::string> table;
  std::vector<double> snr; std::vector<Pt> pt; long n = -1, k = -1;
  void parse(const std::string &t) {
    text = t; kv.clear(); table.clear(); snr.clear(); pt.clear(); ok = false; why.clear();
    std::string body, line; bool com = false; for (char c : t) { if (c == '%') com = true; if (com) line += c; if (c == '\n') { if (com) table.push_back(line); line.clear(); com = false; } if (!com) body += c; } if (com) table.push_back(line);
    std::vector<std::string> tk; std::string w; for (char c : body + " ") if (isspace((unsigned char)c)) { if (!w.empty()) tk.push_back(w); w.clear(); } else w += c;
    for (size_t i = 0; i < tk.size();) {
      std::string key = tk[i++]; if (i >= tk.size()) { why = "no value of " + key; return; }
      if (kv.count(key)) { why = "repeated " + key; return; }
      auto &v = kv[key];
      if (tk[i] == "{") { i++; while (i < tk.size() && tk[i] != "}") v.push_back(tk[i++]); if (i >= tk.size()) { why = "unterminated " + key; return; } i++; } else v.push_back(tk[i++]);
    }
    for (const char *q : {"code_n", "code_k", "SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "WER", "ERR", "ml_tr_num", "enml_bl", "MLER"}) if (!kv.count(q)) { why = std::string("no ") + q; return; }
    n = atol(kv["code_n"][0].c_str()); k = atol(kv["code_k"][0].c_str());
    size_t m = kv["SNR"].size(); for (const char *q : {"tr_num", "en_bit", "en_bl", "erasures_num", "WER", "ERR", "ml_tr_num", "enml_bl", "MLER"}) if (kv[q].size() != m) { why = std::string("length of ") + q; return; }
    for (size_t i = 0; i < m; i++) {
      Pt p; auto g = [&](const char *q) { const char *s = kv[q][i].c_str(); char *e; errno = 0; long long v = strtoll(s, &e, 10); if (*e || e == s) why = std::string("item of ") + q; return v; };
      p.trn = g("tr_num"); p.bit = g("en_bit"); p.bl = g("en_bl"); p.er = g("erasures_num"); p.mltrn = g("ml_tr_num"); p.ml = g("enml_bl"); pt.push_back(p);
      const char *s = kv["SNR"][i].c_str(); char *e; snr.push_back(strtod(s, &e)); if (*e || e == s) why = "item of SNR";
    }
    ok = why.empty();
  }
  bool load(const std::string &p) { bool there; std::string t = slurp(p, &there); if (!there) { why = "no file"; ok = false; return false; } parse(t); return ok; }
};
typedef std::vector<std::pair<double, Pt>> Content;
static std::string srf_text(const Content &c, int n, int k) {
  std::string o = "code_n " + std::to_string(n) + "\ncode_k " + std::to_string(k) + "\n\n"; auto L = [&](const char *nm, auto f) { o += std::string(nm) + " { "; for (auto &p : c) o += f(p) + " "; o += "}\n"; };
  auto I = [](long long v) { return std::to_string(v); }; auto E = [](double v) { char b[50]; snprintf(b, sizeof b, "%.3e", v); return std::string(b); };
  L("SNR", [&](auto &p) { return Cfg::num(p.first); }); L("tr_num", [&](auto &p) { return I(p.second.trn); }); L("en_bit", [&](auto &p) { return I(p.second.bit); }); L("en_bl", [&](auto &p) { return I(p.second.bl); });
  L("erasures_num", [&](auto &p) { return I(p.second.er); }); L("WER", [&](auto &p) { return E((double)p.second.bl / p.second.trn); }); L("ERR", [&](auto &p) { return E((double)p.second.er / p.second.trn); });
  L("ml_tr_num", [&](auto &p) { return I(p.second.mltrn); }); L("enml_bl", [&](auto &p) { return I(p.second.ml); }); L("MLER", [&](auto &p) { return E(p.second.mltrn ? (double)p.second.ml / p.second.mltrn : 0.0); });
  o += "\n% SNR   BER        WER        ERR        ML LB";
  for (auto &p : c) { char b[200]; snprintf(b, sizeof b, "\n%% %3.2f  %.3e  %.3e  %.3e  %.3e", p.first, (double)p.second.bit / ((double)p.second.trn * k), (double)p.second.bl / p.second.trn, (double)p.second.er / p.second.trn, p.second.mltrn ? (double)p.second.ml / p.second.mltrn : 0.0); o += b; }
  return o;
}
// Is the file what the model says?  Empty result: yes.
static std::string cmp_content(const Srf &f, const Content &c, bool order) {
  if (!f.ok) return "not a complete results file (" + f.why + ")";
  if (f.snr.size() != c.size()) return "has " + std::to_string(f.snr.size()) + " SNR values, expected " + std::to_string(c.size());
  for (size_t i = 0; i < c.size(); i++) {
    size_t j = i; if (!order) { j = 0; while (j < f.snr.size() && f.snr[j] != c[i].first) j++; }
    if (j >= f.snr.size() || f.snr[j] != c[i].first) return "SNR " + Cfg::num(c[i].first) + " is not at its place or not exact";
    if (!(f.pt[j] == c[i].second)) return "SNR " + Cfg::num(c[i].first) + ": " + f.pt[j].str() + "; expected " + c[i].second.str();
  }
  return "";
}
static void model_add(Content &c, double snr, const Pt &d) {
  for (auto &p : c) if (p.first == snr) { p.second += d; return; }
  size_t i = 0; while (i < c.size() && c[i].first < snr) i++;
  c.insert(c.begin() + i, {snr, d});
}

// ----- A simulation under the monitors.
struct Sim {
  void *h = nullptr; Mon mon; std::vector<Pt> saved; bool done = false; int last_rc = 0;
  Sim() {}
  Sim(const Sim &) = delete;
  bool start(const Cfg &c, uint64_t seed, const std::string &spf = "p.spf") {
    mon.start(c, seed); spit(spf, c.text()); saved.assign(c.snr.size(), Pt()); return init(spf);
  }
  bool init(const std::string &spf) {
    sim_init_params sp; std::string nm = spf; sp.spf_name = &nm[0]; sp.ret_int = mon.cfg.ret_int; sp.dont_randomize = mon.cfg.nr; pending = &mon;
    armed = true; int rc = sim_init(&sp, &h); armed = false; pending = nullptr; if (rc) h = nullptr; return rc == 0;
  }
  int run() { armed = true; int rc = sim_run(h); armed = false; last_rc = rc; if (rc == 0) done = true; return rc; }
  int save() { armed = in_save = true; int rc = sim_save_res(h); armed = in_save = false; return rc; }
  std::string state() { std::vector<char> b(20000, 0x5a); armed = true; sim_state_str(h, b.data()); armed = false; return std::string(b.data(), strnlen(b.data(), b.size())); }
  std::string results() { std::vector<char> b(20000, 0x5a); armed = true; sim_cur_res_str(h, b.data()); armed = false; return std::string(b.data(), strnlen(b.data(), b.size())); }
  void control(int c) { armed = true; sim_control(h, c); armed = false; }
  void saved_ok(Content &m) { for (size_t i = 0; i < mon.pt.size(); i++) { if (mon.pt[i].trn != saved[i].trn) model_add(m, mon.cfg.snr[i], mon.pt[i].minus(saved[i])); saved[i] = mon.pt[i]; } }
  void fin() { if (h) { armed = true; sim_close(h); armed = false; } h = nullptr; }
  ~Sim() { fin(); }
};

// ----- Random configurations.
static int target = 0; // codec of the program we are linked with
struct CfgGen { int mmax = 4, npt = 5, trn = 60; bool high = false; };
static Spec gen_code(Rng &R, int mmax) { Gen g; g.mmin = 2; g.mmax = mmax; g.lmax = 8; Spec s = target == POL ? gen_polar(R, g, R.p(0.5)) : gen_rm(R, target, g); return s; }
// Sorted and distinct; the monitor cannot tell points apart that differ in the last digits only.
static void distinct_snr(Cfg &c) { std::map<long, double> q; for (double v : c.snr) q.insert({std::lround(v * 1e4), v}); c.snr.clear(); for (auto &p : q) c.snr.push_back(p.second); c.trn.resize(c.snr.size()); }
static Cfg gen_cfg(Rng &R, const CfgGen &g) {
  Cfg c; c.spec = gen_code(R, g.mmax); int np = R.p(0.1) ? 50 : R.in(1, g.npt); std::set<long> used;
  for (int i = 0; i < np; i++) { double v; long q; do { int w = R.in(0, 5); v = w == 0 ? R.in(-8, 12) : w == 1 ? R.in(-40, 60) * 0.25 : w == 2 ? R.in(-800, 1200) / 100.0 : w == 3 ? -8 + 20 * R.u() : w == 4 && g.high ? 30 + R.in(0, 60) : R.in(-2, 6) * 0.5; q = std::lround(v * 1e4); } while (!used.insert(q).second); c.snr.push_back(v); }
  c.trn_list = R.p(0.6); for (int i = 0; i < np; i++) c.trn.push_back(R.p(0.15) ? R.in(-1, 1) : R.in(1, std::max(2, np > 10 ? g.trn / 4 : g.trn)));
  if (R.p(0.6)) c.min_trn = R.in(1, g.trn); if (R.p(0.5)) c.min_en = R.in(1, 12);
  c.ml = R.p(0.5); c.mlh = R.p(0.2); c.rcw = R.p(0.6); if (R.p(0.2)) c.fixedR = R.p(0.5) ? 0.05 + R.u() : R.in(1, 12) / 8.0; c.nr = R.p(0.3);
  if (R.p(0.5)) for (size_t i = c.snr.size(); i > 1; i--) std::swap(c.snr[i - 1], c.snr[R.in(0, (int)i - 1)]); else std::sort(c.snr.begin(), c.snr.end());
  return c;
}
static void fresh_files() {
  armed = false; op_hook = nullptr; open_files.clear();
  for (const char *f : {"r.srf", "r.srf.bsy", "r.srf.tmp", "p.spf", "q.spf", "r2.srf", "r2.srf.bsy", "r2.srf.tmp", "p2.spf"}) { struct stat st; if (!lstat(f, &st)) { if (S_ISDIR(st.st_mode)) rmdir(f); else __real_unlink(f); } }
}
static void set_time(Rng &R, double tick) { vt = VTime(); vt.t = 1.0e9 + std::floor(1e9 * R.u()); vt.tick = tick; vt.R = Rng(R.u64(), 9, 9); }
