// Simulator checks; linked with the objects of one simulator program.
// usage: simdrv <check> <target or path> <seed> <first> <last+1> <report> <current case file> <tier>
#include "simcore.hpp"
#include <dlfcn.h>

static uint64_t seed; static bool thorough; static std::string arg;
#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#else
#define ASAN 0
#endif

static void out_stat(const char *nm, uint64_t n, double sum, double var1) { fprintf(rep.f, "A\t%s\t%llu\t%.17g\t%.17g\n", nm, (unsigned long long)n, sum, var1); }

static void script(Rng &R, Mon &m) {
  m.p_real = R.p(0.3) ? 1 : R.p(0.3) ? 0.5 : 0; m.p_err = R.p(0.2) ? 1 : R.p(0.5) ? 0.3 * R.u() + 0.05 : R.u(); m.p_era = R.p(0.4) ? 0 : R.p(0.3) ? 1 : R.u();
  if (m.p_era == 1 && R.p(0.5)) m.p_era = 0.5;
}
// A scripted decoder must produce errors, or the simulation goes on for ever.
static bool drive(Sim &s, Rng &R, const std::function<bool(int)> &at, long cap = 400000) {
  for (long i = 0;; i++) {
    int rc = s.run();
    if (rc < 0) { FAIL("run", "sim_run failed: %s", s.mon.cfg.desc().c_str()); return false; }
    if (at && !at(rc)) return false;
    if (rc == 0) return true;
    if (rc != NOT_COMPLETED) { FAIL("run", "sim_run returned %d: %s", rc, s.mon.cfg.desc().c_str()); return false; }
    if ((long)s.mon.decs > cap) { rep.count("abandoned: too long"); return false; }
  }
}
static std::string cmp_sim(const Srf &f, const Mon &m, bool ml_too) {
  if (!f.ok) return "results file is not complete: " + f.why;
  std::string bad; size_t cnt = 0; bool sums = m.bad_sigma > 0; Pt fs, ms;
  for (size_t i = 0; i < m.pt.size(); i++) {
    const Pt &e = m.pt[i]; if (e.trn) cnt++; ms += e; size_t j = 0; while (j < f.snr.size() && f.snr[j] != m.cfg.snr[i]) j++;
    if (j >= f.snr.size()) { if (e.trn && !sums) return "no entry for SNR " + Cfg::num(m.cfg.snr[i]); continue; }
    Pt a = f.pt[j], b = e; fs += a; if (!ml_too) a.ml = a.mltrn = b.ml = b.mltrn = 0; else { a.trn = b.trn = a.bit = b.bit = a.bl = b.bl = a.er = b.er = 0; }
    if (!sums && !(a == b)) return "SNR " + Cfg::num(m.cfg.snr[i]) + ": saved " + f.pt[j].str() + "; observed " + e.str();
  }
  if (sums) { if (!ml_too) fs.ml = fs.mltrn = ms.ml = ms.mltrn = 0; else { fs.trn = ms.trn = fs.bit = ms.bit = fs.bl = ms.bl = fs.er = ms.er = 0; } if (!(fs == ms)) return "sums differ: saved " + fs.str() + "; observed " + ms.str(); }
  else if (f.snr.size() != cnt) return "number of SNR values in the file is not the number of simulated ones";
  return "";
}

// ----- C17 (and C20): counts.
static std::map<std::string, std::pair<uint64_t, double>> bitstat;
static void bit_stats(Mon &m) {
  static std::map<Mon *, VI> prev; // only one simulation at a time
  const VI &x = m.tx; VI &p = prev[&m]; auto add = [&](const std::string &n, double v) { auto &q = bitstat[n]; q.first++; q.second += v; };
  for (size_t i = 0; i < x.size(); i++) {
    double v = x[i] ? 1 : -1; add("ones", v); add("ones at position " + std::to_string(i % 16), v); if (i) add("neighbours", v * (x[i - 1] ? 1 : -1)); if (i > 1) add("second neighbours", v * (x[i - 2] ? 1 : -1));
    if (p.size() == x.size()) { add("successive words", v * (p[i] ? 1 : -1)); if (i) add("successive words, shifted", v * (p[i - 1] ? 1 : -1)); }
  }
  p = x;
}
static void c17_long(Rng &R) { // many words
  fresh_files(); Cfg c; c.spec = gen_code(R, 2); c.snr = {R.in(-20, 20) * 0.25}; if (R.p(0.5)) c.snr.push_back(c.snr[0] + 1); int T = R.in(66000, 150000); c.trn.assign(c.snr.size(), T); c.min_en = 1; c.rcw = R.p(0.5); c.ret_int = 10; set_time(R, R.p(0.5) ? 0 : 0.01);
  Sim s; s.mon.nohash = s.mon.nolimit = true; s.mon.p_real = 0; s.mon.p_err = R.p(0.5) ? 1 : 0.3; s.mon.p_era = R.p(0.5) ? 1 : 0.3 * R.u();
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  if (!drive(s, R, nullptr, 10000000)) return;
  if (s.save()) { FAIL("save", "saving failed: %s", c.desc().c_str()); return; }
  Srf f; f.load("r.srf"); std::string e = cmp_sim(f, s.mon, false); rep.count("files compared"); rep.count("long simulations"); for (auto &p : s.mon.pt) rep.maxi("max words at an SNR value", p.trn);
  if (!e.empty()) { FAIL("counts", "%s: %s", c.desc().c_str(), e.c_str()); return; }
}
static void c17_big(Rng &R) { // long codes
  fresh_files(); Cfg c; c.spec.m = R.in(13, 15); c.spec.r = R.in(c.spec.m - 4, c.spec.m); c.spec.kind = target; c.spec.build(); c.snr = {R.in(-20, 20) * 0.25}; if (R.p(0.5)) c.snr.push_back(c.snr[0] + 1); c.trn.assign(c.snr.size(), R.in(3, 12)); c.min_en = 1; c.rcw = R.p(0.5); c.ret_int = 10; set_time(R, 0);
  Sim s; s.mon.p_real = R.p(0.5) ? 0 : 0.3; s.mon.p_err = R.p(0.5) ? 1 : 0.6; s.mon.p_era = R.p(0.5) ? 0 : 0.3;
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  if (!drive(s, R, nullptr, 10000000)) return;
  if (s.save()) { FAIL("save", "saving failed: %s", c.desc().c_str()); return; }
  Srf f; f.load("r.srf"); std::string e = cmp_sim(f, s.mon, false); rep.count("files compared"); rep.count("simulations of long codes"); rep.maxi("max code dimension", c.spec.k());
  if (!e.empty()) { FAIL("counts", "%s: %s", c.desc().c_str(), e.c_str()); return; }
}
static void c17(Rng &R) {
  if ((target == D0 || target == D1) && R.p(0.01)) { c17_big(R); return; }
  if (R.p(0.01)) { c17_long(R); return; }
  fresh_files(); CfgGen g; g.high = true; Cfg c = gen_cfg(R, g); if (R.p(0.7)) c.rcw = true; Sim s; script(R, s.mon); if (c.min_en && s.mon.p_err < 0.2 && s.mon.p_real < 1) s.mon.p_err = 0.5;
  double mx = *std::max_element(c.snr.begin(), c.snr.end()); if (s.mon.p_real > 0 && mx > 4) { s.mon.p_real = R.p(0.5) ? 0 : 0.3; if (s.mon.p_err < 0.2) s.mon.p_err = 0.4; }
  set_time(R, R.p(0.3) ? 0 : 20 * R.u()); c.ret_int = R.p(0.3) ? -1 : R.in(0, 30); if (c.nr) srand((unsigned)R.u64());
  double ps = R.p(0.4) ? 0 : 0.2; bool prevd = false; s.mon.on_dec = [&](Mon &m, const double *) { if (m.cfg.rcw) bit_stats(m); };
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  auto look = [&](const char *when) {
    Srf f; f.load("r.srf"); rep.count("files compared"); std::string e = cmp_sim(f, s.mon, false);
    if (!e.empty()) { FAIL("counts", "%s, %s: %s", c.desc().c_str(), when, e.c_str()); return false; } return true;
  };
  bool ok = drive(s, R, [&](int rc) { if (rc == NOT_COMPLETED && R.p(ps)) { if (s.save()) { FAIL("save", "saving failed"); return false; } prevd = true; return look("interrupted"); } return true; });
  if (!ok) { s.fin(); return; }
  if (s.save()) { FAIL("save", "saving failed: %s", c.desc().c_str()); return; }
  if (!look("completed")) return;
  if (s.mon.missing_enc) FAIL("words", "%s: %llu words transmitted without encoding a new information word", c.desc().c_str(), (unsigned long long)s.mon.missing_enc);
  if (s.mon.sign_errors) FAIL("words", "%s: %llu of %llu received symbols of nearly noiseless words have a wrong sign", c.desc().c_str(), (unsigned long long)s.mon.sign_errors, (unsigned long long)s.mon.sign_checks);
  Pt t; for (auto &p : s.mon.pt) t += p;
  rep.count("words", t.trn); rep.count("block errors", t.bl); rep.count("bit errors", t.bit); rep.count("erasures", t.er); rep.count("symbols of nearly noiseless words", s.mon.sign_checks); rep.count("SNR points", c.snr.size());
  if (prevd) rep.count("simulations also saved before the end"); if (t.bl && t.er) rep.nontrivial(hstr(c.desc()) ^ s.mon.hash); rep.sample(c.desc() + " -> " + t.str());
  s.fin(); if (s.mon.closed != 1) FAIL("close", "codec closed %d times", s.mon.closed);
}
// ----- C20: ML lower bound.
static void c20(Rng &R) {
  fresh_files(); CfgGen g; Cfg c = gen_cfg(R, g); c.ml = R.p(0.8); c.mlh = R.p(0.4); c.rcw = R.p(0.7);
  for (auto &v : c.snr) v = std::min(v, 5.0) - (R.p(0.5) ? 4 : 0); distinct_snr(c);
  Sim s; s.mon.p_real = R.p(0.5) ? 1 : 0.5; s.mon.p_err = 0.6; s.mon.p_era = R.p(0.5) ? 0 : 0.4 * R.u(); set_time(R, R.p(0.5) ? 0 : 20 * R.u()); c.ret_int = R.p(0.3) ? -1 : R.in(0, 30); if (c.nr) srand((unsigned)R.u64());
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  if (!drive(s, R, nullptr)) return;
  if (s.save()) { FAIL("save", "saving failed"); return; }
  if (s.mon.ambiguous) { rep.count("skipped: ties"); return; }
  Srf f; f.load("r.srf"); std::string e = cmp_sim(f, s.mon, true); rep.count("files compared");
  if (!e.empty()) { FAIL("ml", "%s: %s", c.desc().c_str(), e.c_str()); return; }
  Pt t; for (auto &p : s.mon.pt) t += p;
  // The bound as reported.
  if (t.mltrn) for (size_t i = 0; i < f.snr.size(); i++) { double r = atof(f.kv["MLER"][i].c_str()), x = f.pt[i].mltrn ? (double)f.pt[i].ml / f.pt[i].mltrn : 0; if (std::fabs(r - x) > 6e-4 * x) FAIL("mler", "%s: MLER %g, counted %g", c.desc().c_str(), r, x); }
  if (c.ml || c.mlh) { rep.count(c.mlh ? "words judged, hard" : "words judged", t.mltrn); rep.count(c.mlh ? "ML errors, hard" : "ML errors", t.ml); rep.count("block errors", t.bl); rep.count("erased words left out", t.er); } else { rep.count("simulations with the bound off"); if (t.ml || t.mltrn) FAIL("off", "counted with ml_lb off"); }
  if (t.ml && t.bl > t.ml) rep.nontrivial(hstr(c.desc()) ^ s.mon.hash); rep.sample(c.desc() + " -> " + t.str());
}

// ----- C18: stopping.
struct StateStr { bool ok = false; double snr = 0; int num = 0, of = 0, trn = 0, req = 0, en = 0, ml = -1; };
static StateStr parse_state(const std::string &t) {
  StateStr s; std::vector<double> v; const char *p = t.c_str();
  while (*p) { if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit((unsigned char)p[1]))) { char *e; v.push_back(strtod(p, &e)); p = e; } else p++; }
  if (v.size() < 6) return s; s.ok = true; s.snr = v[0]; s.num = (int)v[1]; s.of = (int)v[2]; s.trn = (int)v[3]; s.req = (int)v[4]; s.en = (int)v[5]; if (v.size() > 6) s.ml = (int)v[6]; return s;
}
static void c18(Rng &R) {
  fresh_files(); CfgGen g; g.npt = 4; g.trn = R.p(0.3) ? 1000 : 80; g.mmax = 3; Cfg c = gen_cfg(R, g); c.ret_int = -1; c.ml = c.mlh = false; if (R.p(0.7)) c.min_en = R.p(0.5) ? R.in(1, 25) : R.in(22, 120);
  bool huge = R.p(0.08); int lim_trn = R.in(50, 1500); if (huge) { c.min_en = (int)std::pow(10.0, 4 + 5.2 * R.u()); if (c.snr.size() > 3) { c.snr.resize(3); c.trn.resize(3); } } // ended by a request for the next point
  Sim s; s.mon.p_real = 0; static const double pe[] = {0.02, 0.05, 0.1, 0.2, 0.5, 0.9, 1}; s.mon.p_err = pe[R.in(0, 6)]; s.mon.p_era = R.p(0.5) ? 0 : R.p(0.3) ? 1 : R.u(); set_time(R, 0); if (c.nr) srand((unsigned)R.u64()); bool ctl = R.p(0.35); double pc = ctl ? 0.002 + 0.05 * R.u() : 0;
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  for (auto &p : s.mon.pf) p = R.p(0.3) ? 0.3 + 0.7 * R.u() : 1;
  int np = (int)c.snr.size(); std::vector<int> cut(np, 0), more(np, 0); int cur = -1, trn = 0, req = 0, en = 0; bool ok = true; std::string ctls; uint64_t forecasts = 0;
  auto expect = [&](bool b, const char *what) { if (!b && ok) { ok = false; FAIL("stop", "%s:%s at SNR #%d after %d trials (required %d) and %d errors: %s", c.desc().c_str(), ctls.c_str(), cur + 1, trn, req, en, what); } };
  auto leave = [&]() { // the current point is left
    expect(trn >= req, "left although the current estimate of required trials is not reached");
    if (!cut[cur]) { expect(trn >= c.min_trials(cur), "left with fewer trials than required"); expect(en >= c.min_errors(), "left with fewer errors than required"); }
  };
  bool fin = drive(s, R, [&](int rc) {
    if (rc == 0) { if (cur < 0) { expect(false, "completed without a trial"); return false; } leave(); expect(cur == np - 1, "completed before the last SNR value"); return ok; }
    StateStr t = parse_state(s.state()); if (!t.ok) { rep.count("no state string"); return true; }
    int i = t.num - 1; rep.count("states observed");
    if (i == cur) { expect(trn < req || (trn < c.min_trials(cur) || en < c.min_errors()), "went on although all requirements are met"); expect(t.trn == trn + 1, "trials are not counted one by one"); }
    else { if (cur >= 0) leave(); expect(i == cur + 1, "SNR values are not visited in order"); if (i < 0 || i >= np) return ok = false; cur = i; rep.count("points"); expect(t.trn == 1, "first trial of a point is not the first"); }
    trn = t.trn; req = t.req; en = t.en;
    expect(s.mon.pt[i].trn == trn && s.mon.pt[i].bl == en, "state string disagrees with the trials and errors observed");
    if (!more[i]) {
      double lim = std::max((double)c.min_trials(i), 1.5 * trn + 1); if (en > 20 && en < c.min_errors()) lim = std::max(lim, (double)trn * c.min_errors() / en + 1);
      expect(req <= lim, "estimate of required trials is too large");
      if (en < c.min_errors()) forecasts++;
    }
    if (!cut[i]) expect(req >= c.min_trials(i), "fewer trials required than configured");
    bool end = huge && trn >= lim_trn;
    if (end || R.p(pc)) {
      int k = end ? NEXT : R.in(1, 3); s.control(k); StateStr u = parse_state(s.state()); rep.count(k == MORE ? "requests for more" : k == LESS ? "requests for less" : "requests for next"); ctls += k == MORE ? " >" : k == LESS ? " <" : " N";
      expect(u.num == t.num && u.trn == t.trn && u.en == t.en, "a request changed more than the number of trials");
      if (k == MORE) { more[i] = 1; expect(req < 2 || u.req > req || (u.req == req && req >= 2000000000), "a request for more trials did not add any"); }
      if (k == LESS) { cut[i] = 1; expect(u.req <= req && u.req >= trn && (req < 6 || u.req == trn || u.req < req), "a request for fewer trials did not remove any"); }
      if (k == NEXT) { cut[i] = 1; expect(u.req == trn, "a request for the next point did not end this one"); }
      req = u.req;
    }
    return ok;
  }, 60000);
  if (!ok || !fin) return;
  Pt t; for (int i = 0; i < np; i++) { t += s.mon.pt[i]; if (!cut[i]) { if (s.mon.pt[i].trn < c.min_trials(i) || s.mon.pt[i].bl < c.min_errors()) FAIL("stop", "%s: SNR #%d completed with %s", c.desc().c_str(), i + 1, s.mon.pt[i].str().c_str()); } }
  if (huge) rep.count("simulations with huge error requirements"); rep.count("trials", t.trn); rep.count("estimates observed", forecasts); rep.count("completed simulations"); if (t.trn > np) rep.nontrivial(hstr(c.desc()) ^ s.mon.hash ^ hstr(ctls)); rep.sample(c.desc() + ctls + " -> " + t.str());
}

// ----- C19: channel.
struct Acc { uint64_t n = 0; double s = 0; void add(double v) { n++; s += v; } };
static std::map<std::string, std::pair<Acc, double>> chan; // statistic -> sums, variance of one term
static void c19(Rng &R) {
  fresh_files(); Cfg c; c.spec = gen_code(R, 6); { CfgGen g; Cfg d = gen_cfg(R, g); c.snr.assign(d.snr.begin(), d.snr.begin() + std::min<size_t>(3, d.snr.size())); }
  if (R.p(0.2)) { std::set<double> u(c.snr.begin(), c.snr.end()); while (u.size() < 3) u.insert(R.in(-30, 30)); c.snr.assign(u.begin(), u.end()); }
  c.trn_list = R.p(0.5); long want = thorough ? 300000 : 120000; int T = (int)std::max<long>(40, want / c.spec.n() / (long)c.snr.size()); c.trn.assign(c.snr.size(), T); c.min_trn = T; c.min_en = 1; c.rcw = R.p(0.7);
  if (R.p(0.35)) c.fixedR = R.p(0.5) ? 0.02 + R.u() : R.in(1, 16) / 8.0; c.ret_int = R.p(0.4) ? 10 : R.p(0.5) ? 0 : -1; set_time(R, R.p(0.5) ? 0 : R.p(0.5) ? 0.01 * R.u() : R.u()); c.nr = false; uint64_t rets = 0; std::map<uint64_t, long> seen; long repeats = 0;
  // Consecutive words of rand() are correlated (up to 0.015, lengths 8 and 16).  To tell that from faults of the simulator, half of the simulations are given better numbers.
  fast_rand = R.p(0.5); rand_calls = 0; struct Off { ~Off() { fast_rand = false; } } off;
  Sim s; s.mon.nolimit = true; s.mon.p_real = 0; s.mon.p_err = 0.5; int n = c.spec.n(); static const int LAGS[] = {1, 2, 3, 4, 5, 7, 8};
  std::map<std::string, std::pair<Acc, double>> loc; VD prev, cur(n), tail; double ptail = 0; std::vector<VD> firstwords(c.snr.size()); long words = 0; VD hist(32, 0); double hn = 0; std::vector<double> last2;
  s.mon.on_dec = [&](Mon &m, const double *y) {
    auto add = [&](const char *nm, double var, double v) { auto &q = loc[nm]; q.second = var; q.first.add(v); };
    double sg = m.cfg.sigma(m.cur); 
    for (int i = 0; i < n; i++) cur[i] = (y[i] - m.txc[i]) / sg;
    { double r[2] = {std::round(cur[0] * 1e6), std::round(cur[n - 1] * 1e6)}; if (seen[fnv(r, 16)]++) repeats++; }
    if (words < 64) { for (int i = 0; i < n; i++) firstwords[m.cur].push_back(cur[i]); }
    words++;
    for (int i = 0; i < n; i++) {
      double z = cur[i], a = std::fabs(z), z2 = z * z; add("mean", 1, z); add("variance", 2, z2 - 1); add("skewness", 15, z2 * z); add("kurtosis", 96, z2 * z2 - 3); add("correlation with the symbol", 1, z * m.txc[i]); add("power and the symbol", 2, (z2 - 1) * m.txc[i]);
      add("beyond 1", 0.31731050786 * 0.68268949214, (a > 1) - 0.31731050786291); add("beyond 2", 0.04550026390 * 0.9544997361, (a > 2) - 0.045500263896358); add("beyond 3", 0.0026997960632 * 0.9973002039, (a > 3) - 0.0026997960632602); add("beyond 4", 6.33424836662e-5, (a > 4) - 6.33424836662e-5); add("beyond 5", 5.7330314376e-7, (a > 5) - 5.7330314376e-7);
      add("below 0.1", 0.0796556745541 * 0.9203443254459, (a < 0.1) - 0.0796556745540579);
      add("positive", 1, z > 0 ? 1 : -1); if (i & 1) { add("mean, odd places", 1, z); add("variance, odd places", 2, z2 - 1); }
      double f = 0.5 * std::erfc(-z / std::sqrt(2.0)); int b = (int)(f * 32); if (b > 31) b = 31; hist[b]++; hn++;
      static char nm[7][3][40]; static bool init = false; if (!init) { init = true; for (int l = 0; l < 7; l++) { sprintf(nm[l][0], "lag %d", LAGS[l]); sprintf(nm[l][1], "power, lag %d", LAGS[l]); sprintf(nm[l][2], "next symbols, lag %d", LAGS[l]); } }
      for (int l = 0; l < 7; l++) { int j = i - LAGS[l]; double w = j >= 0 ? cur[j] : (int)prev.size() == n && n + j >= 0 ? prev[n + j] : 1e9; if (w > 1e8) continue; add(nm[l][0], 1, z * w); add(nm[l][1], 4, (z2 - 1) * (w * w - 1)); if (j >= 0) add(nm[l][2], 1, w * m.txc[i]); }
      if ((int)prev.size() == n) { add("same place, next word", 1, z * prev[i]); add("power, same place, next word", 4, (z2 - 1) * (prev[i] * prev[i] - 1)); }
    }
    prev = cur;
  };
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  if (!drive(s, R, [&](int rc) { if (rc == NOT_COMPLETED) { rets++; if (R.p(0.05)) { s.state(); s.results(); } if (R.p(0.002) && s.save()) { FAIL("save", "saving failed"); return false; } } return true; }, 10000000)) return;
  rep.count("returns in between", rets);
  if (repeats > 3) { FAIL("repeated", "%s: %ld words of %ld have the same noise as an earlier one (%llu returns in between)", c.desc().c_str(), repeats, words, (unsigned long long)rets); return; }
  rep.count("noise samples", (uint64_t)hn); rep.count("noise levels told", c.snr.size());
  if (s.mon.bad_sigma) { FAIL("sigma", "%s: noise level told to the decoder is wrong by the factor exp(%g) in %ld decodings", c.desc().c_str(), s.mon.worst_sigma, s.mon.bad_sigma); return; }
  bool real = !fast_rand || !rand_calls; rep.count(real ? "simulations with real generators" : "simulations with better random numbers");
  if (!s.mon.sg_set) { FAIL("sigma", "noise level is not told"); return; }
  for (size_t a = 0; a < c.snr.size(); a++) for (size_t b = a + 1; b < c.snr.size(); b++) { // between SNR points
    size_t m = std::min(firstwords[a].size(), firstwords[b].size()); double d = 0; size_t eq = 0; for (size_t i = 0; i < m; i++) { d += firstwords[a][i] * firstwords[b][i]; if (std::fabs(firstwords[a][i] - firstwords[b][i]) < 1e-9) eq++; }
    if (m > 16 && (std::fabs(d) > 7 * std::sqrt((double)m) + (real ? 0.04 * m : 0) || eq * 2 > m)) FAIL("independence", "%s: noise of SNR #%zu and #%zu is correlated: %g over %zu values, %zu equal", c.desc().c_str(), a + 1, b + 1, d, m, eq); rep.count("pairs of SNR points compared");
  }
  double chi = 0; for (double h : hist) chi += (h - hn / 32) * (h - hn / 32) / (hn / 32);
  if (chi > 31 + 7 * std::sqrt(62.0) + 30) FAIL("distribution", "%s: noise is not Gaussian: chi square %g for 31 degrees of freedom, %g values", c.desc().c_str(), chi, hn);
  for (auto &q : loc) { double z = q.second.first.s / std::sqrt(q.second.first.n * q.second.second); if (q.second.first.n > 3000 && q.second.first.n * q.second.second > 20 && std::fabs(z) > 7 && (!real || std::fabs(q.second.first.s / q.second.first.n) > 0.04 * std::sqrt(q.second.second))) FAIL("noise", "%s: %s of the noise is off by %.1f standard deviations (mean %g over %llu values)", c.desc().c_str(), q.first.c_str(), z, q.second.first.s / q.second.first.n, (unsigned long long)q.second.first.n); auto &t = chan[real ? "real generators: " + q.first : q.first]; t.second = q.second.second; t.first.n += q.second.first.n; t.first.s += q.second.first.s; rep.count("statistics"); }
  rep.nontrivial(hstr(c.desc()) ^ s.mon.hash); rep.sample(c.desc()); rep.maxi("max n", n);
}

static double pool_value(Rng &R) { static const double v[] = {0, 1, 2, -3, 0.25, 2.5, 0.1, 0.2, 0.3, 0.30000000000000004, 1.05, 1.0500000000000003, 3.14159265358979, -2.75, 1e-7, 4.000001, 7, 1.001, 1.0014999, 100, -100}; return v[R.in(0, 20)]; }
static void preset(Rng &R, Content &m, bool &sorted, int big) {
  std::set<double> u; int n = big ? R.in(490, 500) : R.in(1, 8); while ((int)u.size() < n) u.insert(big || R.p(0.3) ? std::round(-5000 + 10000 * R.u()) / 100 : pool_value(R));
  for (double v : u) { Pt p; bool hi = R.p(0.2); p.trn = hi ? 2147480000LL : R.in(1, 2000000); p.bl = R.p(0.3) ? 0 : (long long)(p.trn * R.u()); p.bit = std::min<long long>(2147480000LL, p.bl * R.in(1, 3)); if (!p.bl) p.bit = 0; p.er = R.p(0.5) ? 0 : (long long)(p.trn * R.u()); p.mltrn = R.p(0.4) ? 0 : p.trn - p.er; p.ml = (long long)(std::min(p.mltrn, p.bl) * R.u()); m.push_back({v, p}); }
  if (sorted && R.p(0.25) && m.size() > 1) { sorted = false; for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[R.in(0, (int)i - 1)]); }
}

// ----- C21: reproducibility.  Each run in a process of its own, in which no random number has been drawn.
static bool in_child(const std::function<std::string()> &f, std::string &out) {
  fflush(rep.f); int fd[2]; if (pipe(fd)) Lib::die("pipe"); pid_t p = fork(); if (p < 0) Lib::die("fork");
  if (!p) { close(fd[0]); std::string o = "+" + f(); size_t w = 0; while (w < o.size()) { ssize_t z = write(fd[1], o.data() + w, o.size() - w); if (z <= 0) break; w += z; } _exit(0); }
  close(fd[1]); out.clear(); char t[65536]; ssize_t z; while ((z = read(fd[0], t, sizeof t)) > 0) out.append(t, z); close(fd[0]); int st; waitpid(p, &st, 0);
  if (out.empty() || out[0] != '+' || !WIFEXITED(st)) return false; out.erase(0, 1); return true;
}
static void c21(Rng &R) {
  fresh_files(); CfgGen g; g.npt = 4; g.trn = 60; Cfg c = gen_cfg(R, g); c.nr = R.p(0.75); c.min_en = std::min(c.min_en, 8); double pr = R.p(0.5) ? 1 : 0; if (pr == 1) { for (auto &v : c.snr) v = std::min(v, 4.0) - 2; distinct_snr(c); }
  uint64_t ms = R.u64(), t0 = 1000000000 + R.u64() % 1000000000, base = R.u64(); int nv = c.nr ? 4 : 2; std::vector<std::string> outs; std::vector<std::string> how; std::string old; if (c.nr && R.p(0.4)) { Content m; bool st = true; preset(R, m, st, 0); for (auto &q : m) if (q.second.trn > 2000000000) { q.second = Pt(); q.second.trn = 7; } old = srf_text(m, c.spec.n(), c.spec.k()); }
  for (int v = 0; v < nv; v++) {
    Cfg d = c; Rng V(base, v); int mode = v == 0 ? 0 : V.in(1, 4); double tick = mode == 0 ? 0 : mode == 1 ? 0 : 10 * V.u() + 0.3; d.ret_int = mode == 0 ? 10 : mode == 1 ? -1 : V.in(0, 10); double ps = mode == 4 ? 0.3 : mode == 3 ? 0.05 : 0, pq = mode >= 2 ? 0.5 : 0;
    if (c.nr && V.p(0.5)) t0 += V.in(0, 100000); uint64_t tv = c.nr ? t0 : t0 + (v ? (R.p(0.5) ? 1 : V.in(1, 100000)) : 0); if (!c.nr) { d.ret_int = 10; tick = 0; ps = pq = 0; mode = 0; }
    char hb[200]; snprintf(hb, sizeof hb, "return interval %d, clock step %.3g, saved with probability %.2g, started at %llu", d.ret_int, tick, ps, (unsigned long long)tv); how.push_back(hb);
    std::string o; bool ok = in_child([&]() {
      fresh_files(); if (!old.empty() && v >= 2) spit("r.srf", old); vt = VTime(); vt.t = (double)tv; vt.tick = tick; vt.R = Rng(base, v, 3); Sim s; s.mon.p_real = pr; s.mon.p_err = 0.4; s.mon.p_era = 0.1; if (!s.start(d, ms)) return std::string("init failed"); uint64_t rets = 0, saves = 0;
      for (;;) { int rc = s.run(); if (rc == 0) break; if (rc != NOT_COMPLETED) return std::string("run failed"); rets++; if (V.p(pq)) s.state(); if (V.p(pq)) s.results(); if (V.p(ps)) { if (s.save()) return std::string("save failed"); saves++; } if (s.mon.decs > 300000) return std::string("too long"); }
      std::string res = s.results(); if (s.save()) return std::string("save failed"); std::string f = old.empty() ? slurp("r.srf") : ""; s.fin(); char b[200]; snprintf(b, sizeof b, "%016llx|%llu|%llu\n", (unsigned long long)s.mon.hash, (unsigned long long)rets, (unsigned long long)saves); return b + std::to_string(s.mon.decs) + "\n" + res + "\n" + f; }, o);
    if (!ok) { FAIL("crash", "%s: simulation crashed (%s)", d.desc().c_str(), hb); return; }
    if (o == "too long") { rep.count("abandoned: too long"); return; }
    if (o.find("failed") != std::string::npos) { FAIL("run", "%s: %s (%s)", d.desc().c_str(), o.c_str(), hb); return; }
    rep.count("runs"); uint64_t r = strtoull(o.c_str() + 17, 0, 10); size_t q = o.find('|', 17); rep.count("interruptions", r); rep.count("saves in between", strtoull(o.c_str() + q + 1, 0, 10)); o.erase(16, o.find('\n') - 16); outs.push_back(o);
  }
  if (c.nr) { for (int v = 1; v < nv; v++) { rep.count("pairs compared"); if (outs[v] != outs[0]) { FAIL("repro", "%s: results differ: (%s) gives %s; (%s) gives %s", c.desc().c_str(), how[0].c_str(), outs[0].substr(0, 600).c_str(), how[v].c_str(), outs[v].substr(0, 600).c_str()); return; } } if (!old.empty()) rep.count("runs with and without an old results file compared"); }
  else { rep.count("randomized pairs"); if (outs[0].substr(0, 16) == outs[1].substr(0, 16)) { FAIL("random", "%s: the same noise in runs (%s) and (%s)", c.desc().c_str(), how[0].c_str(), how[1].c_str()); return; } }
  rep.nontrivial(hstr(c.desc()) ^ hstr(outs[0])); rep.sample(c.desc() + " | " + how.back());
}

// ----- C22: accumulation.
static Cfg c22_cfg(Rng &R) {
  Cfg c; c.spec = gen_code(R, 3); int np = R.p(0.1) ? R.in(8, 14) : R.in(1, 5);
  for (int i = 0; i < np; i++) { for (int t = 0; t < 60; t++) { double v = R.p(0.85) ? pool_value(R) : -5 + 10 * R.u(); bool cl = false; for (double w : c.snr) if (std::fabs(v - w) < 1e-8) cl = true; if (!cl) { c.snr.push_back(v); break; } } }
  np = (int)c.snr.size(); for (int i = 0; i < np; i++) c.trn.push_back(R.in(1, 12)); c.min_en = R.p(0.7) ? 1 : R.in(1, 4); c.rcw = R.p(0.5); c.ml = R.p(0.5); c.trn_list = R.p(0.7); c.min_trn = R.in(1, 10); c.ret_int = -1; if (R.p(0.4)) std::sort(c.snr.begin(), c.snr.end());
  return c;
}
static void c22(Rng &R) {
  fresh_files(); set_time(R, 0); Content model; bool sorted = true; int big = R.p(0.06); std::string trace; Spec sp = gen_code(R, 3); bool there = false;
  if (big || R.p(0.35)) { preset(R, model, sorted, big); if (R.p(0.1) && !big) { model.clear(); spit("r.srf", ""); sorted = true; } else spit("r.srf", srf_text(model, sp.n(), sp.k())); there = true; trace = "file of " + std::to_string(model.size()) + " values;"; }
  int runs = R.in(1, 5), live = R.p(0.3) ? 2 : 1; std::vector<std::unique_ptr<Sim>> a; uint64_t saves = 0; std::set<double> over;
  auto add = [&]() { auto s = std::make_unique<Sim>(); Cfg c = c22_cfg(R); c.spec = sp; if (big && R.p(0.5)) for (auto &v : c.snr) if (R.p(0.6) && !model.empty()) { double w = model[R.in(0, (int)model.size() - 1)].first; bool cl = false; for (double x : c.snr) if (std::fabs(x - w) < 1e-8) cl = true; if (!cl) v = w; }
    s->mon.p_real = 0; s->mon.p_err = 0.5; s->mon.p_era = 0.2; bool ok = s->start(c, R.u64(), "p.spf"); if (!ok) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return false; } trace += " run("; for (double v : c.snr) trace += " " + Cfg::num(v); trace += ")"; a.push_back(std::move(s)); return true; };
  auto save = [&](Sim &s) {
    Content next = model; std::vector<Pt> sv = s.saved; s.saved_ok(next); size_t nn = next.size(); std::string before = slurp("r.srf"); int rc = s.save(); saves++; trace += " save"; rep.count("saves");
    bool of = false; for (auto &p : next) if (p.second.trn > 2147483647LL || p.second.bit > 2147483647LL) of = true; if (of) { rep.count("skipped: out of range"); return false; }
    if (nn > 500) { rep.count("saves into a full file"); s.saved = sv; if (rc == 0 || slurp("r.srf") != before) { FAIL("capacity", "more than 500 SNR values saved with result %d;%s", rc, trace.c_str()); return false; } return true; }
    if (rc) { FAIL("save", "saving failed;%s", trace.c_str()); return false; }
    model = next; Srf f; f.load("r.srf"); std::string e = cmp_content(f, model, sorted); rep.count("files compared"); rep.count("entries compared", model.size());
    if (!e.empty()) { FAIL("merge", "results file: %s; after%s", e.c_str(), trace.c_str()); return false; }
    if (exists("r.srf.bsy")) { FAIL("flag", "busy flag left after%s", trace.c_str()); return false; }
    return true;
  };
  int started = 0;
  while (started < runs || !a.empty()) {
    while ((int)a.size() < live && started < runs) { if (!add()) return; started++; }
    int i = R.in(0, (int)a.size() - 1); Sim &s = *a[i]; int steps = R.in(1, 15), rc = NOT_COMPLETED; for (int j = 0; j < steps && rc == NOT_COMPLETED; j++) rc = s.run();
    if (rc < 0) { FAIL("run", "sim_run failed"); return; }
    if (s.mon.bad_sigma) { rep.count("skipped: points unknown"); return; }
    if (rc == 0) { trace += " end"; if (!save(s)) return; if (R.p(0.3) && !save(s)) return; a.erase(a.begin() + i); rep.count("completed runs"); }
    else if (R.p(0.4)) { if (!save(s)) return; if (R.p(0.1)) { a.erase(a.begin() + i); trace += " abandoned"; rep.count("abandoned runs"); } }
    else if (R.p(0.03)) { a.erase(a.begin() + i); trace += " abandoned"; rep.count("abandoned runs"); }
  }
  rep.maxi("max SNR values", model.size()); if (saves > 1) rep.nontrivial(hstr(trace) ^ hstr(slurp("r.srf"))); rep.sample(trace);
}

// ----- C24: failures while saving.
static const char *const fnames[] = {"", "EACCES", "EMFILE", "EIO", "unreadable", "disk full", "cut at close", "one failing write"};
static void c24(Rng &R) {
  fresh_files(); set_time(R, 0); Content model; bool sorted = true; Cfg c = c22_cfg(R); c.min_trn = 100000; c.trn.assign(c.snr.size(), 100000); c.min_en = 1; if (c.snr.size() > 4) c.snr.resize(4); c.trn.resize(c.snr.size());
  int start = R.in(0, 3); std::string trace = start == 0 ? "no file" : start == 1 ? "empty file" : "old file";
  if (start == 1) spit("r.srf", ""); else if (start > 1) { preset(R, model, sorted, 0); for (auto &p : model) if (p.second.trn > 2000000000) { p.second = Pt(); p.second.trn = 5; } static const char *const tops[] = {"", "", "\n", "\n\n", " ", "% old\n", "\r\n", "\t"}; const char *top = tops[R.in(0, 7)]; if (*top) trace += " after blanks"; spit("r.srf", top + srf_text(model, c.spec.n(), c.spec.k())); }
  Sim s; s.mon.p_real = 0; s.mon.p_err = 0.5; s.mon.p_era = 0.2; if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; }
  bool rmfault = false; std::set<std::string> base;
  auto more = [&]() { int k = R.in(1, 4); for (int i = 0; i < k; i++) { if (R.p(0.3) && s.mon.cur + 1 < (int)c.snr.size() && s.mon.cur >= 0) s.control(NEXT); if (s.run() != NOT_COMPLETED) { FAIL("run", "simulation ended"); return false; } } return !s.mon.bad_sigma; };
  auto good = [&](const char *when) { Content n = model; s.saved_ok(n); int rc = s.save(); rep.count("recovering saves"); if (rc) { FAIL("recover", "%s: saving failed %s", trace.c_str(), when); return false; } model = n; Srf f; f.load("r.srf"); std::string e = cmp_content(f, model, sorted); if (!e.empty()) { FAIL("recover", "%s, %s: %s", trace.c_str(), when, e.c_str()); return false; } return true; };
  // After a save that may have failed.
  auto judge = [&](int rc, const std::string &before, bool there, const std::string &what) {
    rep.count("faulty saves"); bool now; std::string after = slurp("r.srf", &now);
    if (exists("r.srf.bsy")) { FAIL("flag", "%s, %s: busy flag left (result %d)", trace.c_str(), what.c_str(), rc); return false; }
    if (!rmfault) for (auto &f : dir_files()) if (f != "r.srf" && !base.count(f)) { FAIL("remains", "%s, %s: file %s left (result %d)", trace.c_str(), what.c_str(), f.c_str(), rc); return false; }
    if (rmfault) rep.count("saves whose temporary file could not be removed");
    if (rc == 0) { rep.count("faults without effect"); s.saved_ok(model); Srf f; f.parse(after); std::string e = now ? cmp_content(f, model, sorted) : "no file"; if (!e.empty()) { FAIL("unreported", "%s, %s: reported as saved, but results file: %s", trace.c_str(), what.c_str(), e.c_str()); return false; } return true; }
    rep.count("failed saves"); rep.nontrivial(hstr(trace + what) ^ hstr(before));
    if (after != before || (there && !now)) { FAIL("old", "%s, %s: saving failed, but old results changed from '%s' to '%s'", trace.c_str(), what.c_str(), before.substr(0, 300).c_str(), after.substr(0, 300).c_str()); return false; }
    if (!there && now && !after.empty()) { FAIL("old", "%s, %s: saving failed, but a file appeared", trace.c_str(), what.c_str()); return false; }
    return true;
  };
  auto faulty = [&](const std::function<int(int, Op, const char *, const char *)> &f, const std::string &what, bool &hit) {
    bool there; std::string before = slurp("r.srf", &there); base = dir_files(); int no = 0; hit = rmfault = false; once_left = R.p(0.5) ? R.in(0, 3) : R.in(0, 12);
    op_hook = [&](Op o, const char *a, const char *b) { if (o == O_WAIT || o == O_ACCESS) return 0; if (o == O_REMOVE && strlen(a) > 4 && !strcmp(a + strlen(a) - 4, ".bsy")) return 0; int r = f(no++, o, a, b); if (r) { hit = true; if (o == O_REMOVE) rmfault = true; rep.count(std::string("faults in ") + op_names[o]); } return r; };
    int rc = s.save(); op_hook = nullptr; if (!hit) { rep.count("saves without the fault"); }
    return judge(rc, before, there, what);
  };
  // Every operation in turn.
  int kinds[] = {F_ACCES, F_MFILE, F_IO, F_BADREAD, F_FULL, F_TRUNC, F_ONCE, F_ONCE}; int kind = kinds[R.in(0, 7)];
  for (int k = 0; k < 80; k++) {
    if (!more()) return; bool hit; std::string what = std::string(fnames[kind]) + " at operation " + std::to_string(k);
    if (!faulty([&](int no, Op, const char *, const char *) { return no == k ? kind : 0; }, what, hit)) return;
    if (!hit) break;
    if (R.p(0.5) && !good(("after " + what).c_str())) return;
  }
  if (!good("after all single faults")) return;
  // Several faults in a row, and several in one save.
  for (int k = 0; k < 6; k++) { if (!more()) return; bool hit; double p = 0.15 + 0.3 * R.u(); if (!faulty([&](int, Op, const char *, const char *) { return R.p(p) ? kinds[R.in(0, 7)] : 0; }, "several faults", hit)) return; if (R.p(0.4) && !good("after several faults")) return; }
  // No space for the whole file.
  size_t sz = srf_text(model, 1000, 1000).size() + 300;
  rmfault = false;
  for (int k = 0; k < (thorough ? 40 : 8); k++) {
    if (!more()) return; bool there; std::string before = slurp("r.srf", &there); base = dir_files(); struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = R.p(0.3) ? R.in(0, 8) : R.in(0, (int)sz); setrlimit(RLIMIT_FSIZE, &l); int rc = s.save(); setrlimit(RLIMIT_FSIZE, &o);
    char b[60]; snprintf(b, sizeof b, "file size limit %ld", (long)l.rlim_cur); rep.count("saves with a size limit"); if (!judge(rc, before, there, b)) return; if (R.p(0.3) && !good(b)) return;
  }
  if (!good("after size limits")) return;
  // Busy flag of another process.
  { if (!more()) return; std::string before = slurp("r.srf"); spit("r.srf.bsy", "Busy"); int rc = s.save(); rep.count("busy saves"); if (rc == 0 || slurp("r.srf") != before || !exists("r.srf.bsy")) { FAIL("busy", "%s: results file is busy, saving returned %d, busy flag %s", trace.c_str(), rc, exists("r.srf.bsy") ? "kept" : "removed"); return; } __real_unlink("r.srf.bsy"); if (R.p(0.5) && !good("after the busy flag was removed")) return; }
  // Old results cannot be parsed.
  for (int k = 0; k < 4; k++) {
    if (!more()) return; std::string keep = slurp("r.srf"), bad = keep; size_t q; int w = R.in(0, 6);
    if (w == 0) { size_t a = keep.find("SNR { "), b = keep.find('%'); q = a + 6 + R.in(0, 6); if (R.p(0.7)) q = R.in((int)a + 6, (int)keep.find("enml_bl {") + 9); bad = keep.substr(0, q); (void)b; }
    else if (w == 1) { static const char *gs[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"}; std::string gname = std::string(gs[R.in(0, 6)]) + " { "; q = keep.find("\n" + gname); bad.insert(q + 1 + gname.size(), "7 "); }
    else if (w == 2) { static const char *gs[] = {"tr_num", "en_bit", "en_bl", "ml_tr_num", "enml_bl"}; std::string gname = std::string(gs[R.in(0, 4)]); q = keep.find("\n" + gname); bad.insert(q + 1, "x"); }
    else if (w == 3) { bad += "\n% "; bad += std::string(140000, 'x'); }
    else if (w == 4) { q = keep.find("}\n% "); q = keep.rfind("} ", keep.find('%')); for (size_t i = 0; i < bad.size(); i++) if (bad[i] == '}') bad[i] = ' '; }
    else if (w == 5) { std::string l; for (int i = 0; i < 501; i++) l += " " + std::to_string(i); bad = "SNR {" + l + " }\ntr_num {" + l + " }\nen_bit {" + l + " }\nen_bl {" + l + " }\nerasures_num {" + l + " }\nml_tr_num {" + l + " }\nenml_bl {" + l + " }\n"; }
    else { __real_unlink("r.srf"); mkdir("r.srf", 0700); int rc = s.save(); bool dir; { struct stat st; dir = !lstat("r.srf", &st) && S_ISDIR(st.st_mode); } rmdir("r.srf"); if (rc == 0 || !dir) { FAIL("directory", "saved over a directory (result %d)", rc); return; } if (exists("r.srf.bsy")) { FAIL("flag", "busy flag left"); return; } spit("r.srf", keep); rep.count("malformed old results"); continue; }
    spit("r.srf", bad); int rc = s.save(); rep.count("malformed old results");
    if (rc == 0 || slurp("r.srf") != bad) { FAIL("malformed", "%s: malformed old results (kind %d) %s, result %d: %s", trace.c_str(), w, slurp("r.srf") != bad ? "replaced" : "kept", rc, bad.substr(0, 900).c_str()); return; }
    if (exists("r.srf.bsy")) { FAIL("flag", "%s: busy flag left after malformed old results", trace.c_str()); return; }
    spit("r.srf", keep); if (R.p(0.6) && !good("after malformed old results")) return;
  }
  if (!good("at the end")) return;
  rep.sample(trace + ", " + fnames[kind] + " at every operation; final " + std::to_string(model.size()) + " values");
}
#include "simdrv2.hpp"
#include "simdrv3.hpp"

static const struct { const char *n; void (*f)(Rng &); } checks[] = {{"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C23K", c23k}, {"C24", c24}, {"C25", c25}, {"C27", c27}, {"C37", c37}, {"C38", c38}};

int main(int argc, char **argv) {
  if (argc < 9) return 98;
  std::string ck = argv[1]; arg = argv[2]; seed = strtoull(argv[3], 0, 10); uint64_t lo = strtoull(argv[4], 0, 10), hi = strtoull(argv[5], 0, 10); thorough = !strcmp(argv[8], "thorough");
  std::string tn = arg.substr(0, arg.find(':')); if (arg.find(':') != std::string::npos) arg = arg.substr(arg.find(':') + 1); else arg.clear();
  for (int i = 0; i < 4; i++) if (tn == lib_names[i]) target = i;
  rep.f = __real_fopen(argv[6], "w"); if (!rep.f) return 98;
  int fd = open(argv[7], O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, 16)) return 98;
  rep.cur = (uint64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
  void (*f)(Rng &) = nullptr; for (auto &c : checks) if (ck == c.n) f = c.f; if (!f) return 98;
  for (uint64_t i = lo; i < hi && rep.viol < 5; i++) {
    *rep.cur = i; rep.idx = i; Rng R(seed, hstr(ck), i); f(R); rep.count("cases"); fflush(stdout); if (lseek(1, 0, SEEK_END) > 4000000) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
  }
  for (auto &q : bitstat) out_stat(("information bits, " + q.first).c_str(), q.second.first, q.second.second, 1);
  for (auto &q : chan) out_stat(q.first.c_str(), q.second.first.n, q.second.first.s, q.second.second);
  *rep.cur = hi; rep.finish(); fflush(stdout);
  _exit(0);
}
