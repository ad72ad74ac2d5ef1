// Parameter files, concurrent saves, results files, strings.

extern "C" int spf_read_preparse(char name[], char **out) __attribute__((weak));

// ----- Parameter files.
typedef std::vector<std::string> VS;
static std::string rnd_word_txt(Rng &R) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-+/:;!?*()[]<>=&#'\"@$^~|\\`";
  std::string s; int n = R.p(0.05) ? R.in(20, 300) : R.in(1, 10); for (int i = 0; i < n; i++) s += R.p(0.01) ? (char)R.in(128, 255) : cs[R.in(0, (int)sizeof cs - 2)];
  if (s == "include") s = "x"; return s;
}
struct Par { VS v; bool group = false; }; // v[0] is the key
static VS par_tokens(const std::vector<Par> &p) { VS t; for (auto &q : p) { t.push_back(q.v[0]); if (q.group) t.push_back("{"); for (size_t i = 1; i < q.v.size(); i++) t.push_back(q.v[i]); if (q.group) t.push_back("}"); } return t; }
static std::vector<Par> parse_pars(const std::string &txt) { // our own simple files only
  std::vector<Par> r; VS t; std::string w; for (char c : txt + "\n") if (isspace((unsigned char)c)) { if (!w.empty()) t.push_back(w); w.clear(); } else w += c;
  for (size_t i = 0; i < t.size();) { Par p; p.v.push_back(t[i++]); if (i < t.size() && t[i] == "{") { p.group = true; i++; while (t[i] != "}") p.v.push_back(t[i++]); i++; } else if (i < t.size()) p.v.push_back(t[i++]); r.push_back(p); }
  return r;
}
struct Fmt {
  Rng &R; int nfile = 0; VS files, decoys; int maxdepth = 3; bool dirs = false; std::string top = "p.spf"; uint64_t includes = 0, comments = 0, glued = 0; long pad = 0; bool plain = false;
  // Names of include files are relative to the current directory, not to the file which includes them.
  void use_dirs() { if (R.p(0.5)) return; dirs = true; mkdir("d1", 0777); mkdir("d1/d1", 0777); if (R.p(0.7)) top = R.p(0.5) ? "d1/p.spf" : "./d1/p.spf"; }
  void decoy(const std::string &nm) { decoys.push_back(nm); spit(nm, R.p(0.5) ? "decoy 1\n" : "{"); }
  std::string comment() { comments++; std::string s = "%"; int n = R.p(0.1) ? 0 : R.p(0.05) ? R.in(100, 3000) : R.in(1, 30); static const char cs[] = "abc {}%,\t\r include on off 0123"; for (int i = 0; i < n; i++) s += cs[R.in(0, (int)sizeof cs - 2)]; return s; }
  std::string sep(bool lf = false) {
    if (plain) return "\n"; std::string s; int n = R.p(0.6) ? 1 : R.in(2, 5); static const char *const q[] = {" ", "\t", "\n", "\r\n", ",", ", ", "\r", "\n\n"};
    for (int i = 0; i < n; i++) s += R.p(0.08) ? comment() + "\n" : q[R.in(0, 7)];
    if (pad > 0 && R.p(0.2)) { long z = std::min<long>(pad, R.in(1, 20000)); pad -= z; s += R.p(0.5) ? std::string(z, ' ') : "%" + std::string(z, 'z') + "\n"; }
    if (lf) s += "\n"; return s;
  }
  // The tokens in a random form; parts may go to include files.
  std::string write(const VS &t, size_t a, size_t b, int depth) {
    std::string o; if (R.p(0.3) && !plain) o += sep();
    size_t i = a;
    while (i < b) {
      if (depth < maxdepth && !plain && R.p(b - a > 12 ? 0.03 : 0.06)) {
        size_t e = i + R.in(1, (int)std::min<size_t>(b - i, 25)); std::string nm = (R.p(0.5) ? "inc" : "./inc") + std::to_string(nfile++) + (R.p(0.5) ? ".txt" : ""); if (dirs) { std::string b = nm.substr(nm.rfind('/') + 1); if (R.p(0.4)) { nm = "d1/" + b; if (R.p(0.7)) decoy(b); if (R.p(0.7)) decoy("d1/d1/" + b); } else if (R.p(0.7)) decoy("d1/" + b); } files.push_back(nm); includes++;
        std::string body = write(t, i, e, depth + 1); if (body.empty()) body = " "; spit(nm, body); o += "include" + sep() + nm + sep(); i = e; continue;
      }
      bool brace = t[i] == "{" || t[i] == "}";
      std::string w = t[i++];
      if (w == "{" && i < b && R.p(0.5) && !plain) { glued++; w += t[i]; brace = t[i] == "}"; i++; if (brace) { o += w + sep(); continue; } }
      if (w != "{" && i < b && t[i] == "}" && R.p(0.5) && !plain && w.back() != '}') { glued++; w += "}"; i++; }
      o += w; if (i < b || R.p(0.5)) o += R.p(0.1) && !plain ? comment() + "\n" : sep();
    }
    if (!plain && R.p(0.2)) o += comment(); // the last line may be a comment without line feed
    return o;
  }
  ~Fmt() { for (auto &f : files) __real_unlink(f.c_str()); for (auto &f : decoys) __real_unlink(f.c_str()); if (dirs) { __real_unlink("d1/p.spf"); rmdir("d1/d1"); rmdir("d1"); } }
};
// What the preparser made of a file: "" if it was refused.
static bool preparse(const std::string &file, VS &t) {
  std::string nm = file; char *o = nullptr; armed = true; int rc = spf_read_preparse(&nm[0], &o); armed = false; if (rc || !o) return false;
  t.clear(); std::string w; for (char *c = o; *c; c++) if (*c == 1) { if (!w.empty()) t.push_back(w); w.clear(); } else w += *c; if (!w.empty()) t.push_back(w); ::free(o); return true;
}
static std::string join(const VS &t, size_t mx = 60) { std::string s; for (size_t i = 0; i < t.size() && i < mx; i++) s += (i ? " " : "") + t[i].substr(0, 40); return s; }
static std::string first_diff(const VS &a, const VS &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return "item " + std::to_string(i) + " is '" + (i < a.size() ? a[i].substr(0, 60) : "(end)") + "', expected '" + (i < b.size() ? b[i].substr(0, 60) : "(end)") + "' (" + std::to_string(a.size()) + "/" + std::to_string(b.size()) + " items)"; }

static void c15(Rng &R) {
  fresh_files();
  if (R.p(0.5) && spf_read_preparse) { // any key/value pairs
    std::vector<Par> ps; int n = R.p(0.1) ? R.in(50, 400) : R.in(1, 15);
    for (int i = 0; i < n; i++) { Par p; p.v.push_back(rnd_word_txt(R)); p.group = R.p(0.4); int k = p.group ? (R.p(0.1) ? R.in(20, 200) : R.in(0, 8)) : 1; for (int j = 0; j < k; j++) p.v.push_back(rnd_word_txt(R)); ps.push_back(p); }
    bool large = R.p(0.02); if (large) { long left = 138500 - R.p(0.5) * R.in(0, 60000); for (auto &q : ps) for (auto &w : q.v) left -= w.size() + 4; while (left > 30) { Par p; p.v.push_back(rnd_word_txt(R)); p.group = R.p(0.5); int k = p.group ? R.in(1, 300) : 1; long mx = std::min<long>(left - 30, R.p(0.5) ? 130000 : R.in(1, 3000)); left -= p.v[0].size() + 8; for (int j = 0; j < k && left > 20; j++) { std::string w = rnd_word_txt(R); if (j == 0) w += std::string(R.in(0, (int)std::max(0L, std::min(mx, left - 400))), 'm'); left -= w.size() + 2; p.v.push_back(w); } if (p.v.size() > 1) ps.push_back(p); else break; } }
    VS t = par_tokens(ps), u; size_t tot = 0; for (auto &w : t) tot += w.size() + 1; if (tot > (large ? 139000 : 90000)) return; if (large) rep.count("large files");
    Fmt f{R}; f.plain = large; if (!large && R.p(0.3)) f.pad = R.in(1000, 70000); f.use_dirs(); std::string s = f.write(t, 0, t.size(), 0); spit(f.top, s);
    long all = (long)s.size(); for (auto &q : f.files) { struct stat st; if (!stat(q.c_str(), &st)) all += st.st_size; } if (all > 139500) { rep.count("too large"); return; }
    if (!preparse(f.top, u)) { FAIL("refused", "file of %zu bytes with %llu includes refused: %s", s.size(), (unsigned long long)f.includes, s.substr(0, 1500).c_str()); return; }
    if (u != t) { FAIL("tokens", "%s in: %s", first_diff(u, t).c_str(), s.substr(0, 2500).c_str()); return; }
    rep.count("files parsed"); if (f.dirs) rep.count("files in directories"), rep.count("files of the same name elsewhere", f.decoys.size()); rep.count("items compared", t.size()); rep.count("includes", f.includes); rep.count("comments", f.comments); rep.count("glued braces", f.glued); rep.maxi("max size", all); rep.nontrivial(hstr(s)); return;
  }
  // A simulation described in two forms.
  CfgGen g; g.trn = 25; Cfg c = gen_cfg(R, g); c.nr = true; c.ret_int = 1000; c.min_en = std::min(c.min_en, 5); double pr = R.p(0.5); if (pr == 1) { for (auto &v : c.snr) v = std::min(v, 4.0) - 2; distinct_snr(c); }
  std::vector<Par> ps = parse_pars(c.text()); uint64_t ms = R.u64(); std::string what, top = "p.spf";
  auto outcome = [&](std::string &o) { __real_unlink("r.srf"); srand(1); set_time(R, 0); Sim s; s.mon.p_real = pr; s.mon.p_err = 0.5; s.mon.p_era = 0.1; s.mon.start(c, ms); s.saved.assign(c.snr.size(), Pt()); if (!s.init(top.c_str())) { o = "refused"; return true; } if (!drive(s, R, nullptr, 50000)) return false; std::string e = s.results(); if (s.save()) { o = "not saved"; return true; } char b[60]; snprintf(b, sizeof b, "%016llx %llu %llu %ld %ld\n", (unsigned long long)s.mon.hash, (unsigned long long)s.mon.decs, (unsigned long long)s.mon.encs, s.mon.bad_sigma, s.mon.bad_order); o = b + e + "\n" + slurp("r.srf"); return true; };
  spit("p.spf", c.text()); std::string a, b; if (!outcome(a)) return; rep.count("simulations");
  if (a == "refused" || a == "not saved") { FAIL("init", "valid parameters: %s: %s", a.c_str(), c.text().c_str()); return; }
  std::vector<Par> q = ps;
  // Order: only 'permutations' depends on what precedes it.
  if (R.p(0.7)) { for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[R.in(0, (int)i - 1)]); what += " reordered"; size_t pm = q.size(), rm = q.size(); for (size_t i = 0; i < q.size(); i++) { if (q[i].v[0] == "permutations") pm = i; if (q[i].v[0] == "RM_m") rm = i; } if (pm < rm && rm < q.size()) std::swap(q[pm], q[rm]); }
  // Switches that are off.
  if (R.p(0.7)) { static const char *const ks[] = {"ml_lb", "ml_lb_hard", "random_codeword"}; bool on[] = {c.ml, c.mlh, c.rcw}; static const char *const offs[] = {"off", "On", "ON", "no", "0", "1", "yes", "onn", "o", "true", "-on", "on."}; for (int i = 0; i < 3; i++) if (!on[i] && R.p(0.7)) { Par p; p.v = {ks[i], offs[R.in(0, 11)]}; what += " " + p.v[0] + "=" + p.v[1]; q.insert(q.begin() + R.in(0, (int)q.size()), p); rep.count("switches not on"); } }
  // Repeated parameters: the last one counts.
  if (R.p(0.5)) { static const char *const ks[] = {"ml_lb", "ml_lb_hard", "random_codeword", "min_trials_per_snr", "min_errors_per_snr", "res_file", "fixed_R"}; for (int i = 0; i < 7; i++) { if (R.p(0.5)) continue; size_t at = q.size(); for (size_t j = 0; j < q.size(); j++) if (q[j].v[0] == ks[i]) { at = j; break; } if (at == q.size()) continue; Par p; p.v = {ks[i], i < 3 ? (R.p(0.8) ? "on" : "off") : i == 5 ? "other.srf" : i == 6 ? "0.25" : std::to_string(R.in(1, 60))}; what += " " + p.v[0] + " before"; q.insert(q.begin() + R.in(0, (int)at), p); rep.count("repeated parameters"); } }
  // Unknown parameters.
  if (R.p(0.7)) { int k = R.in(1, 6); for (int i = 0; i < k; i++) {
    static const char *const ks[] = {"RM_mm", "RM_", "ml_l", "ml_lb_", "res_file2", "res_fil", "snr_val_trn", "SNR", "EbNo_value", "EbNo_values2", "min_trials", "min_errors_per_snr_", "fixed_r", "fixed_R2", "random", "on", "off", "list", "c_n", "code_n", "info_bits", "permutation", "Include", "includes", "MIN_TRIALS_PER_SNR", "tr_num"};
    static const char *const vs[] = {"RM_m", "RM_r", "res_file", "ml_lb", "on", "fixed_R", "c_m", "permutations", "SNR_val_trn", "7", "random_codeword"};
    Par p; p.v.push_back(R.p(0.7) ? ks[R.in(0, 25)] : "zz" + rnd_word_txt(R)); p.group = R.p(0.4); int n = p.group ? R.in(0, 5) : 1; for (int j = 0; j < n; j++) p.v.push_back(R.p(0.5) ? std::string(vs[R.in(0, 10)]) : rnd_word_txt(R)); what += " unknown " + p.v[0] + (p.group ? " group" : ""); q.insert(q.begin() + R.in(0, (int)q.size()), p); rep.count(p.group ? "unknown groups" : "unknown parameters"); } }
  VS t = par_tokens(q); Fmt f{R}; if (R.p(0.2)) f.pad = R.in(1000, 40000); f.use_dirs(); std::string s = f.write(t, 0, t.size(), 0); spit(f.top, s); top = f.top; long all = (long)s.size(); for (auto &w : f.files) { struct stat st; if (!stat(w.c_str(), &st)) all += st.st_size; } if (all > 130000) return;
  if (!outcome(b)) { FAIL("meaning", "simulation does not end in the other form (%s): %s", what.c_str(), s.substr(0, 2500).c_str()); return; }
  rep.count("forms compared"); rep.count("includes", f.includes); rep.count("comments", f.comments); rep.count("glued braces", f.glued);
  if (a != b) { FAIL("meaning", "%s: another form (%s) gives '%s' instead of '%s': %s", c.desc().c_str(), what.c_str(), b.substr(0, 500).c_str(), a.substr(0, 500).c_str(), s.substr(0, 2500).c_str()); return; }
  rep.nontrivial(hstr(s)); rep.sample(c.desc() + " |" + what);
}

// ----- C16: hostile files.  A sanitizer build.
// Reference reading of a file; false if we do not say what it means.
static bool ref_tokens(const std::string &file, VS &out, long &size) {
  std::deque<std::string> q; size = 0; bool ok;
  auto load = [&](const std::string &nm, VS &t) {
    struct stat st; if (stat(nm.c_str(), &st) || !S_ISREG(st.st_mode)) return false; std::string s = slurp(nm, &ok); if (!ok || s.empty()) return false; size += (long)s.size(); if (size > 200000) return false; std::string w; bool com = false;
    for (char c : s + "\n") { if (c == 0 || c == 1) return false; if (com) { if (c == '\n') com = false; else continue; } if (c == '%') { com = true; continue; } if (strchr(" ,\t\n\r", c)) { if (!w.empty()) t.push_back(w); w.clear(); } else w += c; }
    return true; };
  VS t; if (!load(file, t)) return false; q.assign(t.begin(), t.end()); int guard = 0;
  while (!q.empty()) {
    std::string w = q.front(); q.pop_front();
    if (w == "include") { if (q.empty() || ++guard > 200) return false; std::string nm = q.front(); q.pop_front(); VS u; if (!load(nm, u)) return false; q.insert(q.begin(), u.begin(), u.end()); continue; }
    std::string mid = w; if (mid[0] == '{') mid.erase(0, 1); if (!mid.empty() && mid.back() == '}') mid.pop_back(); if (mid.find_first_of("{}") != std::string::npos) return false;
    if (w[0] == '{') { out.push_back("{"); w.erase(0, 1); } bool e = !w.empty() && w.back() == '}'; if (e) w.pop_back(); if (!w.empty()) out.push_back(w); if (e) out.push_back("}");
  }
  return true;
}
static void *mex_h = nullptr; static int (*mex_load)(const char *, void **, char **); static double *(*mex_field)(void *, const char *, int *); static void (*mex_free)(void *); static int (*mex_left)();
static void mex_open() {
  if (mex_h || arg.empty()) return; mex_h = dlopen(arg.c_str(), RTLD_NOW | RTLD_LOCAL); if (!mex_h) Lib::die(std::string("dlopen ") + dlerror());
  mex_load = (decltype(mex_load))dlsym(mex_h, "mock_load"); mex_field = (decltype(mex_field))dlsym(mex_h, "mock_field"); mex_free = (decltype(mex_free))dlsym(mex_h, "mock_free"); mex_left = (decltype(mex_left))dlsym(mex_h, "mock_left"); if (!mex_load || !mex_field || !mex_free || !mex_left) Lib::die("mex symbols");
}
static std::string mutate(Rng &R, std::string s, const VS &dict) {
  int n = R.p(0.3) ? R.in(5, 60) : R.in(1, 6);
  for (int i = 0; i < n; i++) {
    size_t p = s.empty() ? 0 : R.u64() % s.size(), l = s.empty() ? 0 : std::min<size_t>(s.size() - p, R.p(0.2) ? R.in(1, 200) : R.in(1, 6));
    switch (R.in(0, 10)) {
      case 0: if (l) s.erase(p, l); break;
      case 1: s.insert(p, 1, (char)R.in(0, 255)); break;
      case 2: if (!s.empty()) s[p] = (char)R.in(0, 255); break;
      case 3: { static const char q[] = "{}%,\1 \n\r\t-"; s.insert(p, 1, q[R.in(0, 9)]); break; }
      case 4: s.insert(p, " " + dict[R.in(0, (int)dict.size() - 1)] + " "); break;
      case 5: s.insert(p, dict[R.in(0, (int)dict.size() - 1)]); break;
      case 6: if (l) s.insert(p, s.substr(p, l)); break;
      case 7: if (R.p(0.3)) s.resize(p); break;
      case 8: { static const char *const v[] = {"99999999999999999999", "-1", "1e400", "-2147483648", "2147483647", "nan", "inf", "0", "1000000", "0x10", "1e-400", "501", "51"}; s.insert(p, std::string(" ") + v[R.in(0, 12)] + " "); break; }
      case 9: { size_t a = s.find_first_of("0123456789", p); if (a != std::string::npos) { size_t b = s.find_first_not_of("0123456789", a); static const char *const v[] = {"0", "-1", "3", "7", "12", "25", "31", "32", "33", "1000", "2147483647", "4294967296", "99999999999999999999"}; s.replace(a, b == std::string::npos ? std::string::npos : b - a, v[R.in(0, 12)]); } break; }
      default: if (R.p(0.05)) { long z = R.p(0.5) ? R.in(139900, 140100) - (long)s.size() : R.in(1000, 300000); if (z > 0) s.insert(p, std::string(z, R.p(0.3) ? 'x' : R.p(0.5) ? ' ' : R.p(0.5) ? '{' : '%')); } else if (R.p(0.3)) { std::string w; int k = R.in(1, 600); for (int j = 0; j < k; j++) w += " " + std::to_string(R.in(-5, 100)); s.insert(p, " { " + w + " } "); }
    }
  }
  return s;
}
static const VS &dictionary() { static const VS d = {"include", "p.spf", "inc1", "inc2", "inc3", "{", "}", "on", "off", "res_file", "SNR_val_trn", "EbNo_values", "min_trials_per_snr", "min_errors_per_snr", "ml_lb", "ml_lb_hard", "random_codeword", "fixed_R", "RM_m", "RM_r", "border_node_mask", "border_node_lsize", "permutations", "use_variable_list", "distance_threshold", "c_m", "info_bits_mask", "ca_polar_crc", "list_size", "code_n", "code_k", "SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl", "1", "0", "-3", "%"}; return d; }
static void c16(Rng &R) {
  fresh_files(); mex_open(); for (const char *f : {"inc1", "inc2", "inc3"}) { struct stat st; if (!lstat(f, &st)) { if (S_ISDIR(st.st_mode)) rmdir(f); else __real_unlink(f); } }
  std::set<std::string> made; open_files.clear(); vt = VTime(); vt.t = 1e9;
  // Files are written only inside the scratch folder, memory is limited.
  op_hook = [&](Op o, const char *a, const char *b) -> int { if (o == O_FOPEN || o == O_RENAME || o == O_REMOVE) { bool wr = o != O_FOPEN || b[0] != 'r'; if (strchr(a, '/') || (o == O_RENAME && strchr(b, '/'))) return F_ACCES; if (!strcmp(a, "..") || !strcmp(a, ".")) return wr ? F_ACCES : 0; if (wr) { made.insert(a); if (o == O_RENAME) made.insert(b); } } return 0; };
  malloc_limit = 600000; skip_dec = true; const VS &D = dictionary();
  int mode = R.in(0, 9);
  Cfg c = [&] { CfgGen g; g.trn = 5; g.mmax = 5; g.npt = 4; return gen_cfg(R, g); }();
  auto many = [&](int i) { std::string s = R.p(0.3) ? "" : "% c\n"; int n = R.in(0, 8); for (int j = 0; j < n; j++) s += D[R.in(0, (int)D.size() - 1)] + (R.p(0.7) ? " " : "\n"); if (R.p(0.2)) s += "include inc" + std::to_string(R.in(1, 3)); if (R.p(0.1)) s.clear(); if (R.p(0.06)) s += std::string(R.in(1, 145000), R.p(0.5) ? 'y' : ' '); return s; };
  if (mode <= 5) { // parameter files
    std::string s = c.text(); if (mode == 5) { s.clear(); int n = R.in(0, 400); for (int i = 0; i < n; i++) s += (char)R.in(0, 255); } else if (mode == 4) { s.clear(); int n = R.in(0, 40); for (int i = 0; i < n; i++) s += D[R.in(0, (int)D.size() - 1)] + " "; } else if (R.p(0.95)) s = mutate(R, s, D);
    for (int i = 1; i <= 3; i++) { std::string nm = "inc" + std::to_string(i); if (R.p(0.8)) spit(nm, R.p(0.5) ? many(i) : mutate(R, c.code_txt(), D)); else if (R.p(0.3)) mkdir(nm.c_str(), 0700); }
    if (R.p(0.02)) { mkdir("p.spf", 0700); } else if (R.p(0.98)) spit("p.spf", s);
    rep.count("parameter files");
    if (spf_read_preparse) { VS t, u; long size = 0; bool ref = ref_tokens("p.spf", t, size); live.clear(); tracking = true; bool acc = preparse("p.spf", u); tracking = false; if (!live.empty()) { FAIL("leak", "reading leaves %zu blocks allocated (%s): %s", live.size(), acc ? "accepted" : "refused", s.substr(0, 1500).c_str()); goto end; } if (!open_files.empty()) { FAIL("open", "reading leaves %s open (%s): %s", open_files.begin()->second.first.c_str(), acc ? "accepted" : "refused", s.substr(0, 1500).c_str()); goto end; } rep.count(acc ? "read" : "not read"); if (size > 140000) rep.count("files above the limit");
      if (ref && acc) { rep.count("readings compared"); if (t != u) { FAIL("cut", "accepted, but %s (%ld bytes): %s", first_diff(u, t).c_str(), size, s.substr(0, 1500).c_str()); goto end; } } }
    Sim sim; sim.mon.cfg = c; std::string nm = "p.spf"; sim_init_params sp{&nm[0], -1, 0}; pending = nullptr; armed = true; int rc = sim_init(&sp, &sim.h); armed = false; if (rc) sim.h = nullptr; rep.count(rc ? "refused" : "accepted");
    if (sim.h) { for (int i = 0; i < 6; i++) { int q = sim.run(); if (q != NOT_COMPLETED) break; sim.state(); sim.results(); } sim.save(); }
    sim.fin(); rep.nontrivial(hstr(s));
  } else if (mode <= 7) { // old results
    Content m; bool so = true; preset(R, m, so, R.p(0.05)); std::string s = srf_text(m, c.spec.n(), c.spec.k()); s = R.p(0.1) ? many(0) : mutate(R, s, D); spit("r.srf", s); c.res = "r.srf"; c.ret_int = -1; c.trn_list = false; c.min_trn = 4; Sim sim; sim.mon.p_real = 0; sim.mon.p_err = 0.5; rep.count("results files");
    if (!sim.start(c, R.u64())) { FAIL("init", "valid parameters rejected"); goto end; }
    for (int i = 0; i < 5; i++) if (sim.run() != NOT_COMPLETED) break;
    std::string before = slurp("r.srf"); int rc = sim.save(); std::string after = slurp("r.srf"); rep.count(rc ? "refused" : "accepted"); if (rc && after != before) FAIL("changed", "refused old results file was changed: %s", s.substr(0, 1500).c_str()); if (exists("r.srf.bsy")) FAIL("flag", "busy flag left: %s", s.substr(0, 1500).c_str());
    sim.fin(); rep.nontrivial(hstr(s));
  } else if (mex_h) {
    Content m; bool so = true; preset(R, m, so, R.p(0.05)); std::string s = srf_text(m, c.spec.n(), c.spec.k()); s = R.p(0.1) ? many(0) : mutate(R, s, D); spit("r.srf", s); void *res; char *msg; int rc = mex_load(R.p(0.02) ? "none" : R.p(0.01) ? nullptr : "r.srf", &res, &msg); rep.count("files loaded to Octave"); rep.count(rc ? "refused" : "accepted");
    if (rc > 1) FAIL("mex", "%s: %s", rc == 2 ? "neither a structure nor an error" : rc == 3 ? "called without arguments loadsrf does not tell its usage" : "no readable error message", s.substr(0, 1500).c_str()); if (mex_left()) FAIL("leak", "loadsrf leaves memory allocated or files open: %s", s.substr(0, 1500).c_str()); if (rc == 0) mex_free(res); rep.nontrivial(hstr(s));
  }
end:
  armed = false; op_hook = nullptr; malloc_limit = 0; skip_dec = false; for (auto &f : made) if (f.find('/') == std::string::npos) __real_remove(f.c_str());
}

// ----- C23: interleaved saves.
struct Msg { int kind = 0, op = 0, rc = 0; int waits = 0; double waited = 0; char path[120] = "", mode[40] = ""; }; // kind: 0 - at an operation, 1 - end of an attempt, 2 - finished
struct Child { pid_t pid = 0; int fd = -1; Msg m; bool fin = false, yielding = false; int okn = 0, failn = 0; };
struct World {
  std::vector<std::unique_ptr<Sim>> sims; std::vector<Content> deltas; Content base; bool base_there = false, base_empty = false; std::string base_text; int n = 0, attempts = 2; bool kill_mode = false; bool sorted = true; std::map<std::string, std::vector<unsigned>> memo;
};
static bool rd(int fd, Msg &m) { char *p = (char *)&m; size_t n = 0; while (n < sizeof m) { ssize_t z = read(fd, p + n, sizeof m - n); if (z <= 0) return false; n += z; } return true; }
static void child_main(Sim &s, int fd, int attempts) {
  auto talk = [&](Msg &m) { char c; if (write(fd, &m, sizeof m) != (ssize_t)sizeof m || read(fd, &c, 1) != 1) _exit(3); };
  int waits = 0; double w0 = 0;
  for (int i = 0; i < attempts; i++) {
    w0 = vt.waited; waits = 0;
    op_hook = [&](Op o, const char *a, const char *b) -> int { if (o == O_MALLOC) return 0; if (o == O_WAIT) { waits++; return 0; } Msg m; m.op = o; m.waits = waits; waits = 0; m.waited = vt.waited - w0; snprintf(m.path, sizeof m.path, "%s", a); snprintf(m.mode, sizeof m.mode, "%s", b); talk(m); return 0; };
    int rc = s.save(); op_hook = nullptr; Msg m; m.kind = 1; m.rc = rc; m.waited = vt.waited - w0; talk(m); if (rc == 0) break;
  }
  Msg m; m.kind = 2; if (write(fd, &m, sizeof m)) {} _exit(0);
}
// Contents allowed now: base + the saves of 'done' + any of 'open'.
static bool allowed(World &w, const std::string &t, unsigned done, unsigned open, unsigned &which) {
  auto it = w.memo.find(t);
  if (it == w.memo.end()) {
    Srf f; f.parse(t); std::vector<unsigned> v;
    for (unsigned s = 0; s < (1u << w.n); s++) {
      if (s == 0) { if (w.base_there && t == w.base_text) v.push_back(0); else if ((!w.base_there || w.base_empty) && t.empty()) v.push_back(0); if (!v.empty() || !w.base_there || w.base_empty) continue; }
      Content c = w.base; for (int i = 0; i < w.n; i++) if (s >> i & 1) for (auto &p : w.deltas[i]) model_add(c, p.first, p.second); if (f.ok && cmp_content(f, c, w.sorted).empty()) v.push_back(s);
    }
    it = w.memo.emplace(t, v).first;
  }
  for (unsigned s : it->second) if ((s & done) == done && !(s & ~(done | open))) { which = s; return true; }
  return false;
}
struct Exec { bool bad = false; std::string why, trace; std::vector<int> opts; std::vector<int> taken; int switches = 0; bool starved = false; uint64_t steps = 0, retries = 0, snaps = 0, ok = 0, failed = 0; uint64_t h = 0; };
// Runs one schedule.  choice(point, costs of the options) -> index; cost 1: an involuntary switch, 2: a process that waits goes on although others could.
static Exec run_schedule(World &w, const std::function<int(int, const VI &)> &choice) {
  Exec e; for (const char *f : {"r.srf", "r.srf.bsy", "r.srf.tmp"}) __real_unlink(f); if (w.base_there) spit("r.srf", w.base_text);
  std::vector<Child> ch(w.n); fflush(rep.f);
  for (int i = 0; i < w.n; i++) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) Lib::die("socketpair"); pid_t p = fork(); if (p < 0) Lib::die("fork"); if (!p) { close(sv[0]); for (int j = 0; j < i; j++) close(ch[j].fd); signal(SIGPIPE, SIG_DFL); alarm(60); child_main(*w.sims[i], sv[1], w.attempts); } close(sv[1]); ch[i].pid = p; ch[i].fd = sv[0]; if (!rd(ch[i].fd, ch[i].m)) { e.bad = true; e.why = "process ended while saving"; } }
  unsigned done = 0, open = 0, seen = 0; int owner = -1, cur = -1, point = 0; bool flag = exists("r.srf.bsy"); auto fail = [&](const std::string &s) { if (!e.bad) { e.bad = true; e.why = s; } };
  while (!e.bad) {
    VI opt, cost; bool cany = cur >= 0 && !ch[cur].fin, run = cany && !ch[cur].yielding; if (run) { opt.push_back(cur); cost.push_back(0); }
    for (int y = 0; y < 2; y++) for (int d = 0; d < w.n; d++) { int i = (cur < 0 ? d : (cur + 1 + d) % w.n); if (ch[i].fin || (run && i == cur) || (int)ch[i].yielding != y) continue; cost.push_back(y && !opt.empty() && !cost[0] && !ch[opt[0]].yielding ? 2 : run ? 1 : 0); opt.push_back(i); }
    if (opt.empty()) break; int pick = choice(point, cost); int i = opt[pick]; e.opts.push_back((int)opt.size()); e.taken.push_back(pick); point++; bool macro = cost[pick] == 2; if (macro) e.starved = true;
    if (i != cur) { e.switches++; } cur = i;
    do { // one operation; a starved process goes on until it stops waiting
      Child &c = ch[i]; char tr[220]; if (c.m.kind == 0) snprintf(tr, sizeof tr, " %d:%s(%s%s%s)", i, op_names[c.m.op], c.m.path, c.m.mode[0] ? "," : "", c.m.mode); else snprintf(tr, sizeof tr, " %d:returns %d", i, c.m.rc);
      if (e.trace.size() < 4000 && !(macro && c.yielding && c.m.kind == 0)) e.trace += tr; e.h = hstr(tr) ^ (e.h * 31 + 7); e.steps++;
      if (c.m.kind == 1) { if (c.m.rc == 0) { done |= 1u << i; e.ok++; c.okn++; } else { e.failed++; c.failn++; } }
      open |= 1u << i; char go = 1; if (write(c.fd, &go, 1) != 1) {} if (!rd(c.fd, c.m)) { fail("process " + std::to_string(i) + " ended while saving"); break; }
      if (c.m.kind == 2) { c.fin = true; int st; waitpid(c.pid, &st, 0); c.pid = 0; }
      if (c.m.kind != 0 || c.m.waits > 0) { c.yielding = c.m.kind == 0 && c.m.waits > 0; if (c.yielding) e.retries++; } else c.yielding = false;
      bool nf = exists("r.srf.bsy"); if (!flag && nf) owner = i; if (flag && !nf) { for (auto &q : ch) q.yielding = false; if (owner != i) fail("busy flag of process " + std::to_string(owner) + " removed by process " + std::to_string(i)); owner = -1; } flag = nf;
      // What a reader would see now.  A process that is finished or was refused is not in the middle of anything.
      unsigned mid = 0; for (int j = 0; j < w.n; j++) if (!(done >> j & 1) && (open >> j & 1) && !ch[j].fin) mid |= 1u << j;
      for (int j = 0; j < w.n; j++) if (ch[j].m.kind == 1 && ch[j].m.rc != 0) mid &= ~(1u << j); for (int j = 0; j < w.n; j++) if (seen >> j & 1) { } 
      bool there; std::string t = slurp("r.srf", &there); e.snaps++; unsigned which = 0;
      if (!there) { if (w.base_there || done) fail("results file disappeared"); }
      else if (t.empty() && (!w.base_there || w.base_empty) && !done) {}
      else if ((w.base_empty || !w.base_there) && w.base_empty && !done && !allowed(w, t, done, mid, which)) { } // an empty file is written in place
      else if (!allowed(w, t, done, mid, which)) fail("a reader sees neither complete old nor complete new results: " + t.substr(0, 900));
      else { if ((seen & ~which) != 0 && !e.bad) fail("counts that were in the file are lost"); seen |= which; }
    } while (macro && !ch[i].fin && ch[i].yielding && !e.bad);
    if (point > 20000) fail("does not end");
  }
  for (auto &c : ch) { if (c.pid) { kill(c.pid, SIGKILL); int st; waitpid(c.pid, &st, 0); } if (c.fd >= 0) close(c.fd); }
  if (!e.bad) {
    bool there; std::string t = slurp("r.srf", &there); unsigned which; if (done && (!there || !allowed(w, t, done, 0, which))) { fail("final results are not the sum of the saved ones: " + t.substr(0, 900)); }
    if (!done && !e.starved) fail("nobody could save"); if (exists("r.srf.bsy")) fail("busy flag left");
  }
  return e;
}
static void make_world(Rng &R, World &w, int n) {
  w.n = n; Spec sp = gen_code(R, 3); bool same = R.p(0.5); std::vector<double> v0; 
  int b = R.in(0, 4); w.base_there = b > 0; w.base_empty = b == 1; if (b > 1) { preset(R, w.base, w.sorted, R.p(0.1)); if (w.base.size() > 40) w.base.resize(40); for (auto &p : w.base) if (p.second.trn > 2000000000 || p.second.bit > 2000000000) { p.second = Pt(); p.second.trn = 3; } w.base_text = srf_text(w.base, sp.n(), sp.k()); }
  for (int i = 0; i < n; i++) {
    Cfg c = c22_cfg(R); c.spec = sp; if (c.snr.size() > 3) c.snr.resize(3); if (same && i) c.snr = v0; v0 = c.snr; c.trn.assign(c.snr.size(), 100000); c.min_trn = 100000; auto s = std::make_unique<Sim>(); s->mon.p_real = 0; s->mon.p_err = 0.5; s->mon.p_era = 0.2; if (!s->start(c, R.u64())) Lib::die("init " + c.desc());
    for (size_t p = 0; p < c.snr.size(); p++) { int k = (1 << i) + (R.p(0.3) ? 16 * R.in(0, 3) : 0); for (int j = 0; j < k; j++) s->run(); if (R.p(0.3)) break; if (p + 1 < c.snr.size()) { s->control(NEXT); } }
    Content d; s->saved_ok(d); s->saved.assign(c.snr.size(), Pt()); w.deltas.push_back(d); w.sims.push_back(std::move(s));
  }
}
static bool world_ok(World &w) { for (auto &s : w.sims) if (s->mon.bad_sigma) return false; return true; }
static std::string world_desc(const World &w) { std::string s = std::to_string(w.n) + " processes, " + (!w.base_there ? "no file" : w.base_empty ? "empty file" : "file of " + std::to_string(w.base.size()) + " values") + ";"; for (auto &d : w.deltas) { s += " ("; for (auto &p : d) s += " " + Cfg::num(p.first) + ":" + std::to_string(p.second.trn); s += " )"; } return s; }
static void account(const Exec &e) { rep.count("schedules"); rep.count("file operations scheduled", e.steps); rep.count("states of the file read", e.snaps); rep.count("waits for a busy file", e.retries); rep.count("context switches", e.switches); rep.count("successful saves", e.ok); rep.count("saves refused: busy too long", e.failed); if (e.starved) rep.count("schedules with a starved process"); rep.nontrivial(e.h); }
static void c23(Rng &R) {
  fresh_files(); set_time(R, 0); World w; make_world(R, w, R.p(0.6) ? 2 : R.p(0.6) ? 3 : 4); if (!world_ok(w)) { rep.count("skipped"); return; } std::string d = world_desc(w); rep.sample(d);
  // Systematic: at most so many involuntary switches.
  int bound = w.n == 2 ? (thorough ? 3 : 2) : w.n == 3 ? (thorough ? 2 : 1) : 1; long cap = thorough ? 6000 : 260; std::vector<int> prefix; long cnt = 0; bool complete = false;
  for (;;) {
    std::vector<int> cost; int used = 0; std::vector<int> alts;
    Exec e = run_schedule(w, [&](int p, const VI &o) { int c = p < (int)prefix.size() ? prefix[p] : 0; if (c >= (int)o.size()) c = 0; auto price = [&](int k) { return o[k] ? 1 : 0; }; int mx = c; for (int k = c + 1; k < (int)o.size(); k++) if (used + price(k) <= bound) mx = k; used += price(c); alts.push_back(mx); return c; });
    e.h ^= hstr(d); account(e); cnt++; if (e.bad) { FAIL("interleaving", "%s: %s; schedule:%s", d.c_str(), e.why.c_str(), e.trace.c_str()); return; }
    int p = (int)e.taken.size() - 1; while (p >= 0 && alts[p] <= e.taken[p]) p--; if (p < 0) { complete = true; break; } prefix.assign(e.taken.begin(), e.taken.begin() + p + 1); prefix[p]++; if (cnt >= cap) break;
  }
  rep.count(complete ? "worlds with all schedules within the bound" : "worlds cut at the limit of schedules");
  int rn = thorough ? 600 : 60; for (int i = 0; i < rn; i++) { double ps = 0.05 + 0.6 * R.u(), pv = 0.02; Exec e = run_schedule(w, [&](int, const VI &o) { int m = 0; while (m < (int)o.size() && o[m] < 2) m++; if (m < (int)o.size() && R.p(pv)) return R.in(m, (int)o.size() - 1); return R.p(ps) ? R.in(0, m - 1) : 0; }); e.h ^= hstr(d); account(e); rep.count("random schedules"); if (e.bad) { FAIL("interleaving", "%s: %s; schedule:%s", d.c_str(), e.why.c_str(), e.trace.c_str()); return; } }
}
// A process killed at any operation of a save (part of C24).
static void c23k(Rng &R) {
  fresh_files(); set_time(R, 0); World w; make_world(R, w, 1); if (!world_ok(w) || w.base_empty || !w.base_there) { rep.count("skipped"); return; } std::string d = world_desc(w);
  for (int k = 0; k < 60; k++) {
    for (const char *f : {"r.srf", "r.srf.bsy", "r.srf.tmp"}) __real_unlink(f); spit("r.srf", w.base_text); fflush(rep.f); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) Lib::die("socketpair"); pid_t p = fork(); if (p < 0) Lib::die("fork"); if (!p) { close(sv[0]); alarm(60); child_main(*w.sims[0], sv[1], 1); } close(sv[1]); Msg m; bool ended = false; std::string tr; int no = 0;
    while (rd(sv[0], m)) { if (m.kind == 2) { ended = true; break; } char b[200]; snprintf(b, sizeof b, " %s(%s)", m.kind ? "return" : op_names[m.op], m.path); tr += b; if (no++ == k) break; char go = 1; if (write(sv[0], &go, 1) != 1) break; }
    kill(p, SIGKILL); int st; waitpid(p, &st, 0); close(sv[0]); bool there; std::string t = slurp("r.srf", &there); unsigned which; rep.count("processes killed while saving"); rep.nontrivial(hstr(d + tr));
    if (!there || !allowed(w, t, 0, 1, which)) { FAIL("killed", "%s: process killed at the last of%s: results file is neither complete old nor complete new: %s", d.c_str(), tr.c_str(), t.substr(0, 900).c_str()); return; }
    rep.count(which ? "killed after the replacement" : "killed before the replacement"); if (ended) break;
  }
}

// ----- C25: contents of the results files, and loadsrf.
static bool close_to(double v, double x) { return x == 0 ? v == 0 : std::fabs(v - x) <= 5.1e-4 * std::fabs(x); }
static std::string check_file(const Srf &f, const Cfg &c, uint64_t &cells) {
  if (!f.ok) return f.why; if (f.n != c.spec.n() || f.k != c.spec.k()) return "code_n " + std::to_string(f.n) + ", code_k " + std::to_string(f.k) + " instead of " + std::to_string(c.spec.n()) + ", " + std::to_string(c.spec.k());
  std::vector<VD> rows; for (auto &l : f.table) { VD v; const char *p = l.c_str(); bool other = false; while (*p) { if (*p == '%' || isspace((unsigned char)*p)) { p++; continue; } char *e; double x = strtod(p, &e); if (e == p) { other = true; break; } v.push_back(x); p = e; } if (!other && !v.empty()) rows.push_back(v); }
  if (rows.size() != f.snr.size()) return "table has " + std::to_string(rows.size()) + " rows";
  for (size_t i = 0; i < f.snr.size(); i++) {
    const Pt &p = f.pt[i]; double t = (double)p.trn, wer = p.bl / t, err = p.er / t, ml = p.mltrn ? (double)p.ml / p.mltrn : 0, ber = p.bit / (t * f.k); std::string s = "SNR " + Cfg::num(f.snr[i]) + " (" + p.str() + "): ";
    auto lst = [&](const char *q, double x) { const char *w = f.kv.at(q)[i].c_str(); char *e; double v = strtod(w, &e); cells++; return *e == 0 && close_to(v, x); };
    if (!lst("WER", wer)) return s + "WER " + f.kv.at("WER")[i]; if (!lst("ERR", err)) return s + "ERR " + f.kv.at("ERR")[i]; if (!lst("MLER", ml)) return s + "MLER " + f.kv.at("MLER")[i];
    const VD &r = rows[i]; if (r.size() != 5) return s + "table row of " + std::to_string(r.size()) + " items"; cells += 5;
    if (std::fabs(r[0] - f.snr[i]) > 0.00501 || !close_to(r[1], ber) || !close_to(r[2], wer) || !close_to(r[3], err) || !close_to(r[4], ml)) { char b[200]; snprintf(b, sizeof b, "table row %.4g %.4g %.4g %.4g %.4g, should be %.4g %.4g %.4g %.4g %.4g", r[0], r[1], r[2], r[3], r[4], f.snr[i], ber, wer, err, ml); return s + b; }
  }
  return "";
}
static std::string check_mex(const std::string &path, const Content &m, int n, int k, bool erasures, uint64_t &cells) {
  void *r; char *msg; int rc = mex_load(path.c_str(), &r, &msg); if (rc) return std::string("loadsrf refuses it: ") + msg; if (mex_left()) return "loadsrf leaves memory allocated or files open"; std::string bad; int l;
  auto vec = [&](const char *f, const std::function<double(const std::pair<double, Pt> &)> &g) { double *d = mex_field(r, f, &l); if (!d || l != (int)m.size()) { bad = std::string("loadsrf: length of ") + f; return; } for (size_t i = 0; i < m.size(); i++) { double x = g(m[i]); cells++; if (!(std::fabs(d[i] - x) <= 1e-15 * std::fabs(x) * 4) && bad.empty()) { char b[200]; snprintf(b, sizeof b, "loadsrf: %s of SNR %.10g is %.17g, should be %.17g", f, m[i].first, d[i], x); bad = b; } } };
  double *d = mex_field(r, "n", &l); if (!d || l != 1 || *d != n) bad = "loadsrf: n"; d = mex_field(r, "k", &l); if (!d || l != 1 || *d != k) bad = "loadsrf: k";
  vec("EbNo", [](auto &p) { return p.first; }); vec("BER", [&](auto &p) { return p.second.bit / ((double)p.second.trn * k); }); vec("WER", [](auto &p) { return (double)p.second.bl / p.second.trn; }); vec("ERR", [&](auto &p) { return erasures ? (double)p.second.er / p.second.trn : 0; }); vec("MLER", [](auto &p) { return p.second.mltrn ? (double)p.second.ml / p.second.mltrn : 0; });
  mex_free(r); return bad;
}
static void c25(Rng &R) {
  fresh_files(); mex_open(); set_time(R, 0); Cfg c = c22_cfg(R); if (R.p(0.3)) c.spec = gen_code(R, 7); Content m; bool sorted = true; if (R.p(0.75)) { preset(R, m, sorted, R.p(0.05)); if (m.size() > 480) m.resize(480); for (auto &p : m) if (R.p(0.3)) { auto &q = p.second; q.trn = R.p(0.3) ? 2147480000 : (long long)std::exp(21.4 * R.u()) + 1; q.bl = (long long)(q.trn * (R.p(0.3) ? 1.0 : R.p(0.3) ? std::exp(-20 * R.u()) : R.u())); q.bit = R.p(0.3) ? 2147480000 : std::min<long long>(2147480000, q.bl * R.in(1, 50)); q.er = (long long)(q.trn * R.u()); q.mltrn = q.trn - q.er; q.ml = (long long)(q.mltrn * (R.p(0.5) ? std::exp(-20 * R.u()) : R.u())); } spit("r.srf", srf_text(m, c.spec.n(), c.spec.k())); }
  Sim s; s.mon.p_real = 0; s.mon.p_err = R.p(0.2) ? 1 : R.u(); s.mon.p_era = R.p(0.3) ? 0 : R.u(); s.mon.p_err = std::max(s.mon.p_err, 0.1); if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; } uint64_t cells = 0;
  bool fin = drive(s, R, [&](int rc) { if (rc != NOT_COMPLETED || !R.p(0.1)) return true; if (s.save()) { FAIL("save", "saving failed: %s", c.desc().c_str()); return false; } s.saved_ok(m); Srf f; f.load("r.srf"); std::string e = check_file(f, c, cells); rep.count("files checked"); if (!e.empty()) { FAIL("file", "%s: %s", c.desc().c_str(), e.c_str()); return false; } return true; }, 20000); if (!fin) return;
  if (s.save()) { FAIL("save", "saving failed: %s", c.desc().c_str()); return; } s.saved_ok(m); Srf f; f.load("r.srf"); std::string e = check_file(f, c, cells); rep.count("files checked"); if (!e.empty()) { FAIL("file", "%s: %s", c.desc().c_str(), e.c_str()); return; }
  rep.count("cells of files", cells); rep.nontrivial(hstr(f.text)); for (auto &p : m) { rep.maxi("max trials", p.second.trn); rep.maxi("max bit errors", p.second.bit); }
  if (s.mon.bad_sigma) { rep.count("points unknown"); m.clear(); for (size_t i = 0; i < f.snr.size(); i++) m.push_back({f.snr[i], f.pt[i]}); } else if (!sorted) { Content o; for (double v : f.snr) for (auto &p : m) if (p.first == v) o.push_back(p); m = o; }
  if (!mex_h) return; cells = 0; e = check_mex("r.srf", m, c.spec.n(), c.spec.k(), true, cells); rep.count("files loaded"); rep.count("values loaded", cells); if (!e.empty()) { FAIL("loadsrf", "%s; %s", e.c_str(), f.text.substr(0, 900).c_str()); return; }
  // The same data in other forms, and inconsistent data.
  VS keys = {"code_n", "code_k", "SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
  for (int it = 0; it < 6; it++) {
    auto kv = f.kv; VS ks = keys; int w = R.in(0, 8); std::string nobeg, noend; bool bad = true, er = true; std::string what; static const char *const gs[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"}; std::string g = gs[R.in(0, 6)];
    if (w == 0) { bad = false; what = "other order"; for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[R.in(0, (int)i - 1)]); }
    else if (w == 1) { bad = false; er = false; what = "no erasures_num"; kv.erase("erasures_num"); }
    else if (w == 2) { what = "shorter " + g; kv[g].pop_back(); if (g == "erasures_num" && kv[g].empty()) { bad = false; er = false; } }
    else if (w == 3) { what = "longer " + g; kv[g].push_back("1"); }
    else if (w == 4) { if (g == "erasures_num") g = "en_bl"; what = "no " + g; kv.erase(g); }
    else if (w == 5) { g = R.p(0.5) ? "code_n" : "code_k"; what = "no " + g; kv.erase(g); }
    else if (w == 6) { what = "no opening brace in " + g; nobeg = g; if (R.p(0.7)) kv[g].insert(kv[g].begin(), "0"); }
    else if (w == 7) { what = "an unclosed group"; noend = ks.back(); }
    else { what = "more than 500 values"; for (auto &q : gs) while (kv[q].size() < 501 + (size_t)it * 7) kv[q].push_back(std::to_string(kv[q].size())); }
    std::string t; for (auto &q : ks) { if (!kv.count(q)) continue; if (q == "code_n" || q == "code_k") t += q + " " + kv[q][0] + "\n"; else { t += q + (q == nobeg ? " " : R.p(0.5) ? " { " : "\n{"); for (size_t i = 0; i < kv[q].size(); i++) t += kv[q][i] + (i + 1 < kv[q].size() ? " " : ""); if (q != noend) t += R.p(0.5) ? "}\n" : " }\n"; } }
    spit("r2.srf", t);
    if (bad) { void *r; char *msg; int rc = mex_load("r2.srf", &r, &msg); rep.count("inconsistent files"); if (rc != 1) { FAIL("inconsistent", "loadsrf answers %d to a file with %s: %s", rc, what.c_str(), t.substr(0, 900).c_str()); return; } }
    else { cells = 0; e = check_mex("r2.srf", m, c.spec.n(), c.spec.k(), er, cells); rep.count("other forms loaded"); if (!e.empty()) { FAIL("loadsrf", "%s (%s): %s", e.c_str(), what.c_str(), t.substr(0, 900).c_str()); return; } }
  }
  rep.sample(c.desc() + " | file of " + std::to_string(m.size()) + " values");
}

// ----- C27: strings.
static std::vector<VD> num_rows(const std::string &t) { std::vector<VD> r; size_t a = 0; while (a <= t.size()) { size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size(); std::string l = t.substr(a, b - a); a = b + 1; VD v; const char *p = l.c_str(); bool other = false; while (*p) { if (isspace((unsigned char)*p)) { p++; continue; } char *e; double x = strtod(p, &e); if (e == p || (*e && !isspace((unsigned char)*e))) { other = true; break; } v.push_back(x); p = e; } if (!other && !v.empty()) r.push_back(v); } return r; }
static void c27(Rng &R) {
  fresh_files(); CfgGen g; g.npt = 5; g.trn = R.p(0.2) ? 300 : 60; bool big = target == D0 && rep.idx == 0; Cfg c = gen_cfg(R, g); c.ret_int = R.p(0.5) ? -1 : R.in(0, 10); c.min_en = std::min(c.min_en, 30);
  if (big) { c.spec.m = 20; c.spec.r = 20; c.spec.build(); c.snr = {1.5}; c.trn = {0}; c.trn_list = false; c.min_trn = 2060; c.min_en = 1; c.rcw = false; c.ml = c.mlh = false; c.fixedR = 0; c.ret_int = -1; }
  fast_rand = big; Sim s; s.mon.nohash = big; s.mon.p_real = !big && R.p(0.2) ? 0.3 : 0; s.mon.p_err = big ? 0.05 : R.p(0.3) ? 0.9 : 0.4; s.mon.p_era = R.p(0.4) ? 0 : R.u(); set_time(R, c.ret_int < 0 ? 0 : 12 * R.u() + 1); if (c.nr) srand((unsigned)R.u64());
  if (!s.start(c, R.u64())) { FAIL("init", "valid parameters rejected: %s", c.desc().c_str()); return; } int np = (int)c.snr.size(); bool mlon = c.ml || c.mlh; double pr = R.p(0.5) ? 1 : 0.3;
  auto rows = [&](int upto) {
    std::string t = s.results(); if (s.mon.ambiguous) return true; auto v = num_rows(t); rep.count("result strings"); if ((int)v.size() != upto) { FAIL("results", "%s: %zu lines for %d started SNR points: %s", c.desc().c_str(), v.size(), upto, t.substr(0, 900).c_str()); return false; }
    for (int i = 0; i < upto; i++) { const Pt &p = s.mon.pt[i]; if (!p.trn) continue; double x[] = {0, p.bit / ((double)p.trn * c.spec.k()), (double)p.bl / p.trn, p.mltrn ? (double)p.ml / p.mltrn : 0}; size_t n = mlon ? 4 : 3; rep.count("result lines"); bool ok = v[i].size() == n && std::fabs(v[i][0] - c.snr[i]) <= 0.00501; for (size_t j = 1; ok && j < n; j++) ok = close_to(v[i][j], x[j]); if (!ok) { FAIL("results", "%s: line %d of '%s' should be %.2f %.3e %.3e %.3e; observed %s", c.desc().c_str(), i + 1, t.substr(0, 900).c_str(), c.snr[i], x[1], x[2], x[3], p.str().c_str()); return false; } }
    return true; };
  int lastreq = -1, lastnum = -1; bool ok = drive(s, R, [&](int rc) {
    if (big) rep.beat();
    if (s.mon.bad_sigma) { rep.count("skipped: points unknown"); return false; }
    if (rc == 0) return rows(np);
    if (!R.p(pr)) return true; std::string t = s.state(); StateStr q = parse_state(t); rep.count("state strings"); int i = s.mon.cur; const Pt &p = s.mon.pt[i];
    bool good = q.ok && std::fabs(q.snr - c.snr[i]) <= 0.00501 && q.num == i + 1 && q.of == np && q.trn == p.trn && q.en == p.bl && (mlon ? (s.mon.ambiguous || q.ml == p.ml) : q.ml == -1) && q.req >= c.min_trials(i);
    if (!good) { FAIL("state", "%s: '%s' at SNR %.2f (#%d of %d), required at least %d; observed %s", c.desc().c_str(), t.substr(0, 300).c_str(), c.snr[i], i + 1, np, c.min_trials(i), p.str().c_str()); return false; }
    if (s.state() != t) { FAIL("state", "%s: state string differs when taken again", c.desc().c_str()); return false; } if (q.num == lastnum && lastreq > 0 && p.trn > lastreq && q.req < p.trn) { FAIL("state", "%s: '%s' goes on after its requirement", c.desc().c_str(), t.c_str()); return false; } lastreq = q.req; lastnum = q.num; if (big && p.trn < 2040 && p.trn % 500) return true;
    if (R.p(0.7)) { if (!rows(i + 1)) return false; if (s.state() != t) { FAIL("state", "%s: results string changed the state string", c.desc().c_str()); return false; } }
    return true; }, 400000);
  if (!ok) return; Pt t; for (auto &p : s.mon.pt) t += p; rep.count("trials", t.trn); if (big) rep.count("simulations of long codes"); rep.maxi("max transmitted information bits", (uint64_t)t.trn * c.spec.k()); rep.nontrivial(hstr(c.desc()) ^ s.mon.hash); rep.sample(c.desc() + " -> " + t.str());
}
