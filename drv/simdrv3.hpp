// Memory of simulations, lack of memory.

// ----- C37: any history of simulations; a sanitizer build.
static std::string live_str() { char b[200]; size_t t = 0; for (auto &p : live) t += p.second; snprintf(b, sizeof b, "%zu blocks, %zu bytes (the first of %zu)", live.size(), t, live.empty() ? 0 : live.begin()->second); return b; }
static Spec codec_spec(Rng &R, int mmax) {
  Spec s = gen_code(R, mmax); if (R.p(0.3)) give_perms(R, s, R.in(1, 5));
  if (s.kind == GLP && R.p(0.3)) { int n = R.in(1, 4); std::string e = "use_variable_list\1on\1distance_threshold\1{"; for (int i = 0; i < n; i++) { char b[80]; snprintf(b, sizeof b, "\1%d\1%.3g", R.in(1, 12), s.n() * (0.5 + R.u())); e += b; } s.extra = e + "\1}"; }
  return s;
}
static void c37(Rng &R) {
  fresh_files(); live.clear(); tracking = true; std::string trace; int kinds[] = {F_ACCES, F_MFILE, F_IO, F_BADREAD, F_FULL, F_TRUNC}; uint64_t calls = 0, saves = 0, bad = 0;
  if (R.p(0.3)) { Content m; bool st = true; preset(R, m, st, R.p(0.2)); for (auto &q : m) if (q.second.trn > 2000000000) { q.second = Pt(); q.second.trn = 7; } spit("r.srf", srf_text(m, 16, 5)); trace += " old results;"; }
  struct One { std::unique_ptr<Sim> s; size_t np; uint64_t n = 0; }; std::vector<One> a; int left = R.in(1, 4), alive = R.p(0.4) ? 2 : 1; size_t peak = 0, maxlive = 0; uint64_t grown = 0, points = 0;
  auto done = [&]() { tracking = false; live.clear(); };
  while (left > 0 || !a.empty()) {
    if (left > 0 && (int)a.size() < alive) {
      left--; CfgGen g; g.trn = 30; Cfg c = gen_cfg(R, g); if (R.p(0.6)) { c.spec = codec_spec(R, R.p(0.1) ? 8 : 5); } c.min_en = std::min(c.min_en, 6); if (c.snr.size() > 8 && R.p(0.7)) { c.snr.resize(4); c.trn.resize(4); } for (auto &v : c.snr) v = std::min(v, 4.0) - 3; distinct_snr(c); c.ret_int = R.p(0.6) ? -1 : R.in(0, 10); set_time(R, c.ret_int < 0 ? 0 : 6 * R.u());
      One o; o.s = std::make_unique<Sim>(); o.s->mon.p_real = R.p(0.5) ? 1 : 0.3; o.s->mon.p_err = 0.6; o.s->mon.p_era = R.p(0.5) ? 0 : R.u(); o.np = c.snr.size(); if (!o.s->start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); done(); return; }
      trace += " start(" + c.desc() + ")"; points += o.np; a.push_back(std::move(o)); rep.count("simulations"); peak = std::max(peak, live.size()); maxlive = std::max(maxlive, live.size()); continue;
    }
    int i = R.in(0, (int)a.size() - 1); Sim &s = *a[i].s; int n = R.in(1, 25), rc = NOT_COMPLETED;
    for (int j = 0; j < n && rc == NOT_COMPLETED; j++) {
      rc = s.run(); calls++; a[i].n++; if (rc < 0) { FAIL("run", "sim_run failed: %s", trace.c_str()); done(); return; }
      if (rc == NOT_COMPLETED && R.p(0.3)) { std::string t = s.state(); if (R.p(0.5)) { t = s.results(); rep.maxi("longest results string", t.size()); } if (R.p(0.03)) s.control(R.in(1, 3)); }
      if (live.size() > maxlive) { maxlive = live.size(); grown++; }
    }
    if (a[i].n > 3000 && rc == NOT_COMPLETED) rc = -2; // long enough
    if (rc != NOT_COMPLETED || R.p(0.25)) {
      bool fault = R.p(0.4); double p = R.u() * 0.4; if (fault) op_hook = [&](Op o, const char *x, const char *) -> int { if (o == O_WAIT || o == O_ACCESS) return 0; if (o == O_REMOVE && strlen(x) > 4 && !strcmp(x + strlen(x) - 4, ".bsy")) return 0; return R.p(p) ? kinds[R.in(0, 5)] : 0; };
      int r = s.save(); op_hook = nullptr; saves++; if (r) bad++; trace += r ? " save!" : " save"; if (live.size() > maxlive) { maxlive = live.size(); grown++; }
      if (rc == 0) { s.results(); }
      if (!open_files.empty()) { FAIL("files", "%s: file %s left open after saving (result %d)", trace.c_str(), open_files.begin()->second.first.c_str(), r); done(); return; }
    }
    if (rc != NOT_COMPLETED || R.p(0.01)) { trace += rc == 0 ? " end" : " abandoned"; s.fin(); a.erase(a.begin() + i); if (a.empty()) { rep.count("times all simulations were closed"); if (!live.empty()) { FAIL("leak", "%s: not released after closing: %s", trace.c_str(), live_str().c_str()); done(); return; } maxlive = std::max(maxlive, peak); } }
    if (grown > 30 + points + 2 * saves && grown > calls / 4) { FAIL("growth", "%s: memory grows while the simulation runs: %s", trace.c_str(), live_str().c_str()); done(); return; }
  }
  rep.count("calls of the simulation loop", calls); rep.count("saves", saves); rep.count("failed saves", bad); rep.maxi("max blocks allocated", maxlive); if (calls > 3) rep.nontrivial(hstr(trace) ^ calls); rep.sample(trace); done();
}

// ----- C38: lack of memory; a sanitizer build.
static void c38_codec(Rng &R) {
  Spec sp = codec_spec(R, R.p(0.2) ? 8 : 5); std::string d = sp.desc(), in = sp.str(); int n = sp.n(), k = sp.k(); live.clear(); tracking = true; int no = 0, fail = -1; bool many = false, hit = false;
  auto hook = [&]() { no = 0; hit = false; op_hook = [&](Op o, const char *, const char *) -> int { if (o != O_MALLOC) return 0; int i = no++; if (fail >= 0 && (i == fail || (many && i > fail))) { hit = true; rep.count("allocations refused"); return 1; } return 0; }; };
  auto init = [&](void **h) { std::vector<char> b(in.begin(), in.end()); b.push_back(0); *h = nullptr; hook(); armed = true; int rc = __real_cdc_init(b.data(), h); armed = false; op_hook = nullptr; return rc; };
  auto bad = [&](const char *key, const std::string &w) { char b[100]; snprintf(b, sizeof b, " (allocation #%d%s refused)", fail + 1, many ? " and all following" : ""); FAIL(key, "%s: %s%s", d.c_str(), w.c_str(), b); tracking = false; live.clear(); };
  auto enc = [&](void *h, const VI &x, VD &y) { VI t = x; y.assign(n, 9e9); hook(); armed = true; int rc = __real_enc_bpsk(h, t.data(), y.data()); armed = false; op_hook = nullptr; return rc; };
  auto dec = [&](void *h, const VD &c, VI &x) { VD t = c; x.assign(k, -7); hook(); armed = true; int rc = __real_dec_bpsk(h, t.data(), x.data()); armed = false; op_hook = nullptr; return rc; };
  void *h; if (init(&h)) { bad("init", "rejected"); return; } if (__real_cdc_set_sg) __real_cdc_set_sg(h, 0.8); size_t base = live.size(); rep.count("codecs");
  Rx q = gen_rx(R, sp, 0.5, 1.2); VD y0, y; VI x0, x; int re = enc(h, q.x, y0), rd = dec(h, q.y, x0); if (rd < 0) { bad("dec", "decoding fails"); return; }
  for (int m = 0; m < 2; m++) {
    many = m;
    for (fail = 0; fail < 60; fail++) {
      int rc = enc(h, q.x, y); if (!hit) break; rep.count("encodings short of memory");
      if (!(rc == re && y == y0) && (rc == re || rc == 0)) { bad("encoding", "encoding is reported as done (" + std::to_string(rc) + "), but it is not"); return; }
      if (live.size() != base) { bad("leak", "encoding: not released: " + live_str()); return; }
    }
    for (int v = sp.extra.size() ? 12 : 2; v-- > 0;) for (fail = 0; fail < 60; fail++) {
      if (fail == 0) { int f = fail; fail = -1; if (v) q = gen_rx(R, sp, 0.5, 1.2); rd = dec(h, q.y, x0); re = enc(h, q.x, y0); fail = f; if (rd < 0) { bad("dec", "decoding fails"); return; } }
      int rc = dec(h, q.y, x); if (!hit) break; rep.count("decodings short of memory");
      if (rc >= 0 && !(rc == rd && x == x0)) { bad("decoding", "decoding is reported as done (" + std::to_string(rc) + " instead of " + std::to_string(rd) + "), but the result is " + (x == x0 ? "" : "not ") + "the one with enough memory"); return; }
      if (live.size() != base) { bad("leak", "decoding: not released: " + live_str()); return; }
    }
    fail = -1; int rc = enc(h, q.x, y), r2 = dec(h, q.y, x); if (rc != re || r2 != rd || x != x0 || y != y0) { bad("afterwards", "results differ after failures"); return; }
    for (fail = 0; fail < 60; fail++) {
      void *g; rc = init(&g); if (!hit) { if (rc == 0) __real_cdc_close(g); break; } rep.count("creations short of memory"); int f = fail;
      if (rc == 0) { fail = -1; if (__real_cdc_set_sg) __real_cdc_set_sg(g, 0.8); int r1 = enc(g, q.x, y), r2 = dec(g, q.y, x); fail = f; if (r1 != re || r2 != rd || x != x0 || y != y0) { bad("creation", "creation is reported as successful, but the codec does not work"); return; } __real_cdc_close(g); rep.count("creations that did without"); }
      if (live.size() != base) { bad("leak", "creation: not released: " + live_str()); return; }
    }
    fail = -1;
  }
  __real_cdc_close(h); if (!live.empty()) { bad("leak", "not released after closing: " + live_str()); return; }
  rep.nontrivial(hstr(d) ^ fnv(q.y.data(), n * sizeof(double))); rep.sample(d); tracking = false;
}
static void c38_sim(Rng &R) {
  fresh_files(); set_time(R, 0); CfgGen g; g.trn = 25; Cfg c = gen_cfg(R, g); c.spec = codec_spec(R, 4); c.min_en = std::min(c.min_en, 4); c.min_trn = std::max(c.min_trn, 10); if (c.snr.size() > 3) { c.snr.resize(3); c.trn.resize(3); } for (auto &v : c.snr) v = std::min(v, 4.0) - 3; distinct_snr(c); c.ret_int = R.p(0.5) ? -1 : 10;
  int no = 0, fail = -1; bool hit = false; std::string trace; auto hook = [&]() { no = 0; hit = false; op_hook = [&](Op o, const char *, const char *) -> int { if (o != O_MALLOC) return 0; if (no++ == fail) { hit = true; rep.count("allocations refused"); return 1; } return 0; }; };
  // Creation.
  spit("p.spf", c.text()); for (fail = 0; fail < 60; fail++) { Sim s; s.mon.start(c, 1); hook(); bool ok = s.init("p.spf"); op_hook = nullptr; if (!hit) break; rep.count("simulations not created for lack of memory"); if (!ok) continue;
    rep.count("simulations created all the same"); char b[80]; snprintf(b, sizeof b, ": allocation #%d refused: ", fail + 1); if (!s.h) { FAIL("creation", "%s%screation is reported as successful, but there is no simulation", c.desc().c_str(), b); return; }
    s.mon.p_real = 0.5; s.mon.p_err = 0.6; s.mon.p_era = 0.1; int rc = NOT_COMPLETED; for (int i = 0; i < 2000 && rc == NOT_COMPLETED; i++) rc = s.run(); if (rc == NOT_COMPLETED) continue;
    if (rc || s.save()) { FAIL("creation", "%s%sthe simulation created with success does not work", c.desc().c_str(), b); return; }
    Srf f; f.load("r.srf"); std::string e = cmp_sim(f, s.mon, false), e2 = cmp_sim(f, s.mon, true); if (!e.empty() && (s.mon.ambiguous || !e2.empty())) { FAIL("creation", "%s%s%s", c.desc().c_str(), b, e.c_str()); return; } unlink("r.srf");
  }
  Sim s; s.mon.p_real = R.p(0.7) ? 1 : 0.5; s.mon.p_err = 0.6; s.mon.p_era = 0.1; if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; } int errors = 0; live.clear(); tracking = true; struct Off { ~Off() { tracking = false; live.clear(); } } off;
  auto count = [&](const char *when) { Srf f; f.load("r.srf"); std::string e = cmp_sim(f, s.mon, false), e2 = cmp_sim(f, s.mon, true); if (e.empty() && s.mon.ambiguous == false) e = e2; if (e.empty()) return true;
    if (s.mon.prev.size()) { std::vector<Pt> t = s.mon.pt; s.mon.pt = s.mon.prev; e2 = cmp_sim(f, s.mon, false); if (e2.empty() && !s.mon.ambiguous) e2 = cmp_sim(f, s.mon, true); if (e2.empty()) return true; s.mon.pt = t; }
    FAIL("counts", "%s%s, %s: %s", c.desc().c_str(), trace.c_str(), when, e.c_str()); return false; };
  for (int it = 0; it < 4000; it++) {
    fail = R.p(0.3) ? (R.p(0.3) ? R.in(0, 3) : R.in(0, 60)) : -1; hook(); s.mon.prev.clear(); int rc = s.run(); op_hook = nullptr;
    if (rc < 0) {
      if (!hit) { FAIL("run", "%s%s: sim_run failed", c.desc().c_str(), trace.c_str()); return; } errors++; rep.count("runs ended for lack of memory"); if (!live.empty()) { FAIL("leak", "%s%s: not released by sim_run after its failure: %s", c.desc().c_str(), trace.c_str(), live_str().c_str()); return; } char b[60]; snprintf(b, sizeof b, " refused #%d", fail + 1); if (trace.size() < 600) trace += b;
      if (s.save()) { FAIL("save", "%s%s: saving failed", c.desc().c_str(), trace.c_str()); return; }
      bool any = false; for (auto &p : s.mon.pt) if (p.trn) any = true; if (any || exists("r.srf")) { Srf f; f.load("r.srf"); if (any || f.ok) { bool one = false; for (auto &p : s.mon.prev) if (p.trn) one = true; if (f.snr.size() || one) { if (!count("after the failure")) return; } else if (any) s.mon.pt = s.mon.prev; } rep.count("results compared after failures"); }
    } else if (hit) rep.count("runs that did without");
    if (rc == 0) break;
  }
  if (!s.done) { rep.count("abandoned: too long"); return; } s.mon.prev.clear();
  if (s.save()) { FAIL("save", "%s%s: saving failed", c.desc().c_str(), trace.c_str()); return; } if (!count("at the end")) return;
  if (errors) rep.nontrivial(hstr(c.desc()) ^ s.mon.hash); rep.count("simulations completed"); rep.sample(c.desc() + trace);
}
static void c38(Rng &R) { if (R.p(0.6)) c38_codec(R); else c38_sim(R); }
