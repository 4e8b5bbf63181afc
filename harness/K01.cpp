// K01: configuration files and the components they select.
#include "vf.h"
#include "scorer.h"
#include "robots.h"
#include "slams/gmapping/init_gmapping.h"
#include <glob.h>
#include <sys/stat.h>
#include <sys/wait.h>

// ---------------------------------------------------------------- files
struct Dir { // a scratch directory of a case
  std::string path; Dir() { char b[4096]; if (!getcwd(b, sizeof b)) VF_FAIL("no scratch"); path = std::string(b) + "/k" + std::to_string(getpid()); clean(); mkdir(path.c_str(), 0700); }
  void clean() { if (path.find("/vf.") == std::string::npos) return; for (auto it = files.rbegin(); it != files.rend(); ++it) unlink(it->c_str()); for (auto it = dirs.rbegin(); it != dirs.rend(); ++it) rmdir(it->c_str()); rmdir(path.c_str()); }
  void dir(const std::string &d) { dirs.push_back(path + "/" + d); mkdir(dirs.back().c_str(), 0700); }
  void file(const std::string &f, const std::string &text) { files.push_back(path + "/" + f); std::ofstream o(files.back(), std::ios::binary); o << text; }
  ~Dir() { clean(); }
  std::vector<std::string> dirs, files;
};
static std::string word(Ctx &c, const std::string &alphabet, long lo, long hi) { std::string s; for (long n = c.len(lo, hi); n > 0; --n) s += alphabet[c.draw(alphabet.size() - 1)]; return s; }

VF_TEST(files, "three files or more, one included from another directory, and 5 properties or more", 6000, 90000) {
  static const char *places[] = {"", "a/", "a/b/", "c/", "a/b/d/"};
  auto up = [](int p) { return p == 0 ? "./" : p == 1 || p == 3 ? "../" : p == 2 ? "../../" : "../../../"; };
  Dir d; for (auto p : {"a", "a/b", "c", "a/b/d"}) d.dir(p);
  long n = c.len(1, 7), deep = 0, props = 0; std::vector<int> where(n); std::vector<std::string> name(n);
  for (long i = 0; i < n; ++i) { where[i] = int(c.i(0, 4)); name[i] = word(c, "abXY09_-. ", 0, 6) + "f" + std::to_string(i) + (c.flag() ? ".properties" : ""); }
  const std::string key_chars = "abcXYZ019_/-. :[]<>#\t", val_chars = "abcXYZ019_/-. :=<>#\t\"';";
  std::vector<std::map<std::string, std::string>> own(n); std::vector<std::set<long>> inc(n);
  for (long i = n - 1; i >= 0; --i) { // later files don't include earlier ones
    std::string text; long lines = c.len(0, 10);
    for (long k = 0; k < lines; ++k) {
      std::string l;
      switch (c.i(0, 8)) {
      case 0: break;
      case 1: l = "#" + word(c, val_chars, 0, 12); break;
      case 2: case 3: case 4: { std::string key = "k" + std::to_string(i) + word(c, key_chars, 0, 5), v = word(c, val_chars, 0, 10); if (!own[i].empty() && c.flag(1, 6)) key = own[i].begin()->first; own[i][key] = v; l = key + "=" + v; ++props; break; }
      case 5: l = word(c, "abc 12/.\t", 1, 8); break;                         // no property at all
      case 6: case 7: if (i + 1 < n) { long j = c.i(i + 1, n - 1); // by a relative path
          std::string rel = c.flag(1, 3) ? "./" : ""; if (where[j] == where[i] && c.flag()) rel += name[j]; else rel += std::string(up(where[i])) + places[where[j]] + name[j];
          if (where[j] != where[i]) ++deep; inc[i].insert(j); l = "<" + rel + ">"; } break;
      default: l = c.flag() ? "<no such file" + word(c, "abc", 0, 2) + ">" : "<" + word(c, "abc/", 0, 4); break; // can't be included
      }
      text += l; if (k + 1 < lines || c.flag()) text += "\n";
    }
    d.file(places[where[i]] + name[i], text); VF_LOG(c, "== " << places[where[i]] << name[i] << "\n" << text << "\n");
  }
  std::set<long> seen; std::function<void(long)> visit = [&](long i) { seen.insert(i); for (long j : inc[i]) visit(j); };
  FilePropertiesProvider p; long tops = c.i(1, 2);
  { QuietOut q; for (long t = 0; t < tops; ++t) { long top = t ? c.i(0, n - 1) : 0; visit(top); std::string f = d.path + "/" + (c.flag(1, 4) ? "c/../" : "") + places[where[top]] + name[top]; VF_LOG(c, "read " << f.substr(d.path.size()) << "\n"); p.append_file_content(f); } }
  std::map<std::string, std::string> exp; for (long i : seen) for (auto &kv : own[i]) exp[kv.first] = kv.second;
  auto got = p.available_properties(); std::set<std::string> keys(got.begin(), got.end());
  for (auto &kv : exp) { VF_CHECK(keys.count(kv.first), "property '" << kv.first << "' is lost"); VF_CHECK(p.get_str(kv.first, "-default-") == kv.second, "property '" << kv.first << "' is '" << p.get_str(kv.first, "-default-") << "', expected '" << kv.second << "'"); }
  for (auto &k : keys) VF_CHECK(exp.count(k), "property '" << k << "' comes from nowhere");
  for (long i = 0; i < n; ++i) if (!seen.count(i)) for (auto &kv : own[i]) VF_CHECK(p.get_str(kv.first, "-default-") == "-default-" && p.get_int(kv.first, 42) == 42, "a property of a file that isn't read");
  if (!exp.empty()) { auto k = exp.begin()->first; p.set_property(k, "77"); VF_CHECK(p.get_int(k, 0) == 77 && p.get_str(k, "") == "77", "a set property"); }
  c.nontrivial(n >= 3 && deep && props >= 5);
}

VF_TEST(large_files, "more than 40 properties and 3 files", 200, 3000) { // a chain of files
  Dir d; d.dir("s"); long n = c.i(1, 40), total = 0; std::mt19937 e(c.i(0, 1 << 30)); auto letters = [&](long n) { static const char a[] = "abcXYZ019_/-. :"; std::string s; for (; n > 0; --n) s += a[e() % (sizeof a - 1)]; return s; }; std::map<std::string, std::string> exp;
  auto name = [](long i) { return (i % 2 ? "s/f" : "f") + std::to_string(i); }; long most = c.pick({10, 100, 600});
  for (long i = 0; i < n; ++i) {
    std::string text; long lines = c.i(0, most), at = c.i(0, lines);
    for (long k = 0; k <= lines; ++k) {
      if (k == at && i + 1 < n) text += std::string("<") + (i % 2 ? "../" : "./") + name(i + 1) + ">\n";
      if (k == lines) break;
      switch (e() % 5) { case 0: text += "# " + letters(e() % 400) + "\n"; break; case 1: text += "\n"; break; default: { std::string key = "f" + std::to_string(i) + "/k" + std::to_string(k) + letters(e() % 3 ? 4 : e() % 300), v = letters(e() % 3 ? 6 : e() % 2000); exp[key] = v; text += key + "=" + v + "\n"; ++total; } }
    }
    d.file(name(i), text);
  }
  VF_LOG(c, n << " files, " << total << " properties\n"); FilePropertiesProvider p; { QuietOut q; p.append_file_content(d.path + "/f0"); }
  for (auto &kv : exp) VF_CHECK(p.get_str(kv.first, "-default-") == kv.second, "property '" << kv.first << "' is '" << p.get_str(kv.first, "-default-") << "', expected '" << kv.second << "'");
  VF_CHECK(p.available_properties().size() == exp.size(), p.available_properties().size() << " properties instead of " << exp.size()); c.nontrivial(total > 40 && n >= 3);
}

VF_TEST(values, "a value of every type", 8000, 100000) {
  MapPropertiesProvider m; std::map<std::string, std::string> exp; long n = c.len(1, 12), types = 0;
  for (long k = 0; k < n; ++k) {
    std::string id = "p" + std::to_string(k); int type = int(c.i(0, 4)); bool set = c.flag(3, 4); types |= 1 << type;
    if (type == 0) { int v = int(c.flag() ? c.i(-100, 100) : c.i(-2147483647LL - 1, 2147483647LL)), def = int(c.i(-9, 9)); if (set) m.set_property(id, std::to_string(v)); VF_CHECK(m.get_int(id, def) == (set ? v : def), id << "=" << v << " as an integer is " << m.get_int(id, def)); }
    if (type == 1) { double v = c.flag() ? c.i(-1000, 1000) / 64. : c.real(-1e6, 1e6), def = c.i(-9, 9) / 4.; std::string s = str(v); if (c.flag(1, 4)) { std::ostringstream os; os << std::scientific << std::setprecision(17) << v; s = os.str(); } if (set) m.set_property(id, s); VF_CHECK(m.get_dbl(id, def) == (set ? v : def), id << "=" << s << " as a number is " << m.get_dbl(id, def)); }
    if (type == 2) { std::string v = word(c, "abc 123=", 0, 6), def = word(c, "xyz", 0, 3); if (set) m.set_property(id, v); VF_CHECK(m.get_str(id, def) == (set ? v : def), id << "=" << v); }
    if (type == 3) { unsigned v = unsigned(c.flag() ? c.i(0, 100) : c.i(0, 4294967295LL)), def = unsigned(c.i(0, 9)); if (set) m.set_property(id, std::to_string(v)); VF_CHECK(m.get_uint(id, def) == (set ? v : def), id << "=" << v << " as an unsigned is " << m.get_uint(id, def)); }
    if (type == 4) { bool v = c.flag(), def = c.flag(), w = c.flag(); if (set) m.set_property(id, w ? v ? "true" : "false" : v ? "1" : "0"); VF_CHECK(m.get_bool(id, def) == (set ? v : def), id << "=" << v << " as a flag is " << m.get_bool(id, def)); }
    VF_CHECK(m.has_property(id) == set, id << " is " << (set ? "lost" : "invented"));
  }
  c.nontrivial(types == 31);
}

// ---------------------------------------------------------------- selectors
// runs f in a process of its own: 77 if it came to its end, otherwise the exit code or -signal
static int in_child(const std::function<void()> &f) {
  std::cout.flush(); std::cerr.flush(); pid_t p = fork();
  if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); int rc = 77; try { f(); } catch (...) { rc = 3; } _exit(rc); }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
template <class T, class P> static bool is_a(const P &p) { return p && typeid(*p) == typeid(T); }

VF_TEST(selectors, "a component was selected", 1600, 16000) {
  static const std::vector<std::vector<std::string>> names = {
    {"discrepancy", "occupancy"}, {"obstacle", "max", "mean", "overlap"}, {"even", "viny", "ahr"}, {"wmpp"}, {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"}, {"const", "area"}, {"idle", "ahr"},
    {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"}, {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"}};
  static const std::vector<std::string> keys = {"slam/scmtch/oie/type", "slam/scmtch/oope/type", "slam/scmtch/spe/wmpp/weighting/type", "slam/scmtch/spe/type", "slam/scmtch/type", "slam/occupancy_estimator/type",
    "slam/mapping/observation_quality_estimator/type", "slam/mapping/grid/area/type", "slam/mapping/grid/type"};
  static const std::vector<std::string> dflt = {"discrepancy", "obstacle", "", "", "", "const", "idle", "", ""};
  MapPropertiesProvider base; std::vector<std::string> v(9);
  for (size_t i = 0; i < 9; ++i) { v[i] = names[i][c.draw(names[i].size() - 1)]; base.set_property(keys[i], v[i]); }
  if (v[4] == "BF_M3RSM" && c.flag()) ; // (the choice of the agreement stays as it is)
  size_t what = c.draw(8); bool set = true; std::string name = v[what], from = name;
  switch (c.i(0, 7)) {
  case 0: name = ""; break;
  case 1: if (!name.empty()) name.pop_back(); break;
  case 2: name += c.pick({"x", " ", "_", "2"}); break;
  case 3: for (auto &x : name) x = std::isupper(x) ? std::tolower(x) : std::toupper(x); break;
  case 4: name = " " + name; break;
  case 5: { auto &o = names[c.draw(8)]; name = o[c.draw(o.size() - 1)]; break; }
  case 6: set = false; name = dflt[what]; break;
  default: break;
  }
  MapPropertiesProvider p; for (size_t i = 0; i < 9; ++i) if (i != what || set) p.set_property(keys[i], i == what ? name : v[i]);
  p.set_property("slam/map/width_in_meters", "2"); p.set_property("slam/map/height_in_meters", "2");
  v[what] = name; bool known = std::count(names[what].begin(), names[what].end(), name) > 0;
  VF_LOG(c, keys[what] << "=" << (set ? name : "(default)") << "\n");
  bool drift = c.flag(1, 4); if (drift) p.set_property("slam/scmtch/use_amb_drift_detector", c.flag() ? "true" : "1");
  auto make = [&](size_t w) { // true if it's the named one
    QuietOut q; const auto &n = v[w];
    switch (w) {
    case 0: { auto o = init_oie(p, c.flag()); return n == "discrepancy" ? is_a<DiscrepancyOIE>(o) : is_a<OccupancyOIE>(o); }
    case 1: { auto o = init_oope(p); return n == "obstacle" ? is_a<ObstacleBasedOccupancyObservationPE>(o) : n == "max" ? is_a<MaxOccupancyObservationPE>(o) : n == "mean" ? is_a<MeanOccupancyObservationPE>(o) : is_a<OverlapWeightedOccupancyObservationPE>(o); }
    case 2: { auto o = init_swp(p); return n == "even" ? is_a<EvenSPW>(o) : n == "viny" ? is_a<VinySlamSPW>(o) : is_a<AngleHistogramReciprocalSPW>(o); }
    case 3: { auto o = init_spe(p); return is_a<WeightedMeanPointProbabilitySPE>(o); }
    case 4: { auto o = init_scan_matcher(p); if (drift) return is_a<ConnectTheDotsAmbiguousDriftDetector>(o);
      return n == "MC" ? is_a<MonteCarloScanMatcher>(o) : n == "HC" ? is_a<HillClimbingScanMatcher>(o) : n == "BF" ? is_a<BruteForceScanMatcher>(o) : n == "BF_M3RSM" ? is_a<BruteForceMultiResolutionScanMatcher>(o) : n == "idle" ? is_a<NoActionScanMatcher>(o) : is_a<HillClimbingSMFixed>(o); }
    case 5: { auto o = init_occ_estimator(p); return n == "const" ? is_a<ConstOccupancyEstimator>(o) : is_a<AreaOccupancyEstimator>(o); }
    case 6: { auto o = init_omqe(p); return n == "idle" ? is_a<IdleOMQE>(o) : is_a<AngleHistogramResiprocalOMQE>(o); }
    case 7: { auto o = init_occupied_area_model(p); return n == "tbm_consistent" ? is_a<TbmOccConsistentCell>(o) : n == "tbm_unknown_even_occ" ? is_a<TbmUnknownEvenOccCell>(o) : n == "affine_quality_merge" ? is_a<AffineQualityMergeCell>(o) : is_a<MeanProbabilityCell>(o); }
    default: { auto o = init_grid_map(p); bool m = v[4] == "BF_M3RSM";
      auto cell = o->new_cell(); const auto &a = v[7]; bool ok = a == "tbm_consistent" ? is_a<TbmOccConsistentCell>(cell) : a == "tbm_unknown_even_occ" ? is_a<TbmUnknownEvenOccCell>(cell) : a == "affine_quality_merge" ? is_a<AffineQualityMergeCell>(cell) : is_a<MeanProbabilityCell>(cell);
      if (!ok) return false;
      return n == "plain" ? (m ? is_a<M3RSMRescalableGridMap<PlainGridMap>>(o) : is_a<PlainGridMap>(o)) : n == "unbounded_plain" ? (m ? is_a<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(o) : is_a<UnboundedPlainGridMap>(o))
        : n == "lazy_tiled" ? (m ? is_a<M3RSMRescalableGridMap<LazyTiledGridMap>>(o) : is_a<LazyTiledGridMap>(o)) : m ? is_a<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(o) : is_a<UnboundedLazyTiledGridMap>(o); }
    }
  };
  if (known) { VF_CHECK(make(what), "another component is selected"); c.nontrivial(true); c.label(set ? "known" : "default"); return; }
  c.label("unknown");
  int rc = in_child([&] { make(what); });
  VF_CHECK(rc != 77, "an unknown name is accepted"); VF_CHECK(rc > 0, "an unknown name ends with signal " << -rc);
}

// ---------------------------------------------------------------- parameters of components
struct Set { // a parameter that may be absent
  Ctx &c; MapPropertiesProvider &p;
  double operator()(const std::string &k, double v, double dflt) { if (c.flag(1, 3)) return dflt; p.set_property(k, str(v)); VF_LOG(c, k << "=" << v << "\n"); return v; }
};
static std::vector<Ev> run_sm(GridScanMatcher &sm, const RobotPose &p, const GridMap &m, RobotPoseDelta &d, double &score) {
  auto o = std::make_shared<RecObs>(); sm.subscribe(o); TransformedLaserScan s; s.scan.points().push_back(ScanPoint2D::make_polar(2.3, 0.4, true)); s.scan.points().push_back(ScanPoint2D::make_polar(3.1, -1.4, true));
  sm.reset_state(); score = sm.process_scan(s, p, m, d); sm.unsubscribe(o); return o->ev;
}

VF_TEST(matchers, "ten poses were tested", 2500, 40000) {
  MapPropertiesProvider p; Set set{c, p}; const std::string NS = "slam/scmtch/"; auto pose = gen_pose(c); auto land = gen_landscape(c, pose, false);
  auto sa = std::make_shared<ScriptSPE>(), sb = std::make_shared<ScriptSPE>(); sa->f = sb->f = land; std::shared_ptr<GridScanMatcher> a, b; std::shared_ptr<GridMap> map = std::make_shared<UnboundedPlainGridMap>(make_cell(CK_Affine), GridMapParams{20, 20, 1});
  std::string kind; VF_LOG(c, land << "\n");
  switch (c.i(0, 2)) {
  case 0: { kind = "MC"; int seed = int(c.i(-9999, 9999)); p.set_property(NS + "MC/seed", std::to_string(seed));
    double t = set(NS + "MC/dispersion/translation", c.i(1, 100) / 100., 0.2), r = set(NS + "MC/dispersion/rotation", c.i(1, 100) / 100., 0.1); unsigned f = unsigned(set(NS + "MC/dispersion/failed_attempts_limit", c.i(1, 40), 20)), n = unsigned(set(NS + "MC/attempts_limit", c.i(0, 150), 100));
    QuietOut q; a = init_monte_carlo_sm(p, sa); b = std::make_shared<MonteCarloScanMatcher>(sb, seed, t, r, f, n); break; }
  case 1: { kind = "HC"; double t = set(NS + "HC/distortion/translation", c.i(1, 100) / 100., 0.1), r = set(NS + "HC/distortion/rotation", c.i(1, 100) / 100., 0.1); unsigned f = unsigned(set(NS + "HC/distortion/failed_attempts_limit", c.i(0, 9), 6));
    bool fa = set(NS + "HC/use_frame_alignement", c.i(0, 1), 0); a = init_hill_climbing_sm(p, sa); b = std::make_shared<HillClimbingScanMatcher>(sb, f, t, r, fa); break; }
  default: { kind = "BF"; double v[3][3]; const char *d[] = {"x", "y", "t"}; for (int i = 0; i < 3; ++i) { double u = i == 2 ? M_PI / 180 : 0.1, l = 5 * u; // "-5..5 degrees by 1" and so on
      std::string k = NS + "BF/" + d[i]; v[i][0] = set(k + "/from", -u * c.i(0, 30) / 10, -l); v[i][1] = set(k + "/to", u * c.i(0, 30) / 10, l); v[i][2] = set(k + "/step", u * c.i(5, 20) / 10, u); }
    a = init_brute_force_sm(p, sa); b = std::make_shared<BruteForceScanMatcher>(sb, v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2]); break; }
  }
  RobotPoseDelta da{0, 0, 0}, db{0, 0, 0}; double va, vb; auto ea = run_sm(*a, pose, *map, da, va), eb = run_sm(*b, pose, *map, db, vb);
  VF_CHECK(ea.size() == eb.size(), "the configured matcher " << kind << " makes " << ea.size() << " steps, one with the same parameters makes " << eb.size());
  for (size_t i = 0; i < ea.size(); ++i) VF_CHECK(ea[i].kind == eb[i].kind && near_pose(ea[i].pose, eb[i].pose, 1e-9), "step " << i << " of the configured matcher " << kind << " is " << ea[i].pose << ", one with the same parameters tests " << eb[i].pose);
  VF_CHECK(same_num(va, vb) && near_pose(da, db, 1e-9), "other results");
  c.nontrivial(ea.size() > 12); c.label(kind.c_str());
}

VF_TEST(multi_resolution, "ten poses were tested", 1200, 15000) {
  MapPropertiesProvider p; Set set{c, p}; const std::string NS = "slam/scmtch/BF_M3RSM/"; p.set_property("slam/scmtch/type", "BF_M3RSM"); p.set_property("slam/mapping/grid/type", c.flag() ? "plain" : "unbounded_plain"); p.set_property("slam/mapping/grid/area/type", "mean_probability");
  double scale = 0.1; p.set_property("slam/map/width_in_meters", "8"); p.set_property("slam/map/height_in_meters", "8"); std::string oie = c.flag() ? "discrepancy" : "occupancy"; p.set_property("slam/scmtch/oie/type", oie); p.set_property("slam/scmtch/oope/type", "max");
  p.set_property("slam/scmtch/spe/type", "wmpp"); p.set_property("slam/scmtch/spe/wmpp/weighting/type", "even"); if (c.flag()) p.set_property("slam/map/meters_per_cell", "0.1");
  double rot = set(NS + "accuracy/rotation", c.i(1, 40) / 1000., 0.1 * M_PI / 180), tr = set(NS + "accuracy/translation", c.i(3, 20) / 100., 0.05), lx = set(NS + "limits/x_translation", c.i(0, 10) / 10., 1), ly = set(NS + "limits/y_translation", c.i(0, 10) / 10., 1), lt = set(NS + "limits/rotation", c.i(0, 10) / 100., 5 * M_PI / 180);
  if (lt / rot > 60 || (tr < 0.1 && lx + ly > 1.4)) { return; } // takes long
  std::shared_ptr<GridMap> ma, mb; std::shared_ptr<GridScanMatcher> a, b; std::shared_ptr<ObservationImpactEstimator> o; if (oie == "discrepancy") o = std::make_shared<DiscrepancyOIE>(); else o = std::make_shared<OccupancyOIE>();
  { QuietOut q; ma = init_grid_map(p); a = init_scan_matcher(p); }
  mb = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(o, make_cell(CK_Mean), GridMapParams{80, 80, scale});
  b = std::make_shared<BruteForceMultiResolutionScanMatcher>(std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(o), std::make_shared<EvenSPW>()), lx, ly, lt, rot, tr);
  VF_CHECK(ma->width() == mb->width() && ma->height() == mb->height() && std::abs(ma->scale() - mb->scale()) < 1e-12, "the map is " << ma->width() << "x" << ma->height());
  for (long n = c.len(0, 60); n > 0; --n) { Coord k{int(c.i(-30, 29)), int(c.i(-30, 29))}; AreaOccupancyObservation ob{true, {c.i(50, 100) / 100., 1}, mb->cell_to_world(k), 1}; ma->update(k, ob); mb->update(k, ob); }
  auto pose = RobotPose{c.i(-10, 10) / 32., c.i(-10, 10) / 32., c.i(-100, 100) / 32.}; LaserScan2D sc; TransformedLaserScan s; for (long n = c.i(1, 5); n > 0; --n) s.scan.points().push_back(ScanPoint2D::make_polar(c.i(1, 20) / 10., c.i(-180, 179) * M_PI / 180, true));
  auto oa = std::make_shared<RecObs>(), ob = std::make_shared<RecObs>(); a->subscribe(oa); b->subscribe(ob); RobotPoseDelta da{0, 0, 0}, db{0, 0, 0}; a->reset_state(); b->reset_state(); double va = a->process_scan(s, pose, *ma, da), vb = b->process_scan(s, pose, *mb, db);
  VF_CHECK(same_num(va, vb) && near_pose(da, db, 1e-9), "the configured matcher finds " << da << " of " << va << ", one with the same parameters " << db << " of " << vb);
  VF_CHECK(oa->ev.size() == ob->ev.size(), "the configured matcher makes " << oa->ev.size() << " steps, one with the same parameters " << ob->ev.size());
  for (size_t i = 0; i < oa->ev.size(); ++i) VF_CHECK(oa->ev[i].kind == ob->ev[i].kind && near_pose(oa->ev[i].pose, ob->ev[i].pose, 1e-9), "step " << i << " is at " << oa->ev[i].pose << " instead of " << ob->ev[i].pose);
  c.nontrivial(oa->ev.size() > 12);
}

// ---------------------------------------------------------------- maps, scorers and adders
VF_TEST(maps, "width and height differ", 4000, 40000) {
  MapPropertiesProvider p; Set set{c, p}; double scale = set("slam/map/meters_per_cell", c.pick({0.05, 0.1, 0.25, 0.5, 1.}), 0.1);
  double w = set("slam/map/width_in_meters", c.i(1, 200) / 10., 10), h = set("slam/map/height_in_meters", c.i(1, 200) / 10., 10);
  p.set_property("slam/mapping/grid/type", c.flag() ? "unbounded_plain" : "unbounded_lazy_tiled"); p.set_property("slam/mapping/grid/area/type", "mean_probability");
  auto m = init_grid_map(p); VF_LOG(c, w << " x " << h << " m by " << scale << ": " << m->width() << " x " << m->height() << "\n");
  VF_CHECK(m->scale() == scale, "scale " << m->scale());
  VF_CHECK(m->width() >= w / scale - 1e-6 && m->width() <= w / scale + 1 + 1e-6, "width of " << m->width() << " cells for " << w << " m by " << scale);
  VF_CHECK(m->height() >= h / scale - 1e-6 && m->height() <= h / scale + 1 + 1e-6, "height of " << m->height() << " cells for " << h << " m by " << scale);
  double lo, raw; std::tie(lo, raw) = init_pose_quality_estimators(p); VF_CHECK(lo == 1.0 && raw == 0.5, "default qualities " << lo << " " << raw);
  double a = set("slam/mapping/corrected_pose_quality", c.i(0, 100) / 100., 1), b = set("slam/mapping/raw_pose_quality", c.i(0, 100) / 100., 0.5); std::tie(lo, raw) = init_pose_quality_estimators(p);
  VF_CHECK(lo == a && raw == b, "qualities " << lo << " " << raw << " instead of " << a << " " << b);
  c.nontrivial(std::abs(w - h) > 1);
}

VF_TEST(scorers, "a score between 0 and 1", 5000, 80000) {
  auto g = gen_cfg(c); if (g.oie == 2) g.oie = 0; if (g.bounded) { g.map_kind -= 3; g.bounded = false; } if (g.map_kind == 2) g.map_kind = 0;
  MapPropertiesProvider p; const std::string NS = "slam/scmtch/"; const char *oies[] = {"discrepancy", "occupancy"}, *oopes[] = {"obstacle", "max", "mean", "overlap"}, *spws[] = {"even", "viny", "ahr"};
  if (g.oie || c.flag()) p.set_property(NS + "oie/type", oies[g.oie]); if (g.oope || c.flag()) p.set_property(NS + "oope/type", oopes[g.oope]); p.set_property(NS + "spe/wmpp/weighting/type", spws[g.spw]); p.set_property(NS + "spe/type", "wmpp");
  if (g.skip || c.flag()) p.set_property(NS + "spe/wmpp/sp_skip_rate", std::to_string(g.skip)); if (g.max_range != -1 || c.flag()) p.set_property(NS + "spe/wmpp/sp_max_usable_range", str(g.max_range));
  std::shared_ptr<ScanProbabilityEstimator> a, b = g.make_spe(); { QuietOut q; a = init_spe(p); } auto m = g.make_map();
  for (long n = c.len(1, 40); n > 0; --n) { Coord k{int(c.i(-9, 9)), int(c.i(-9, 9))}; bool occ = c.flag(3, 4); Point2D at = m->cell_to_world(k); m->update(k, {occ, {occ ? c.i(50, 100) / 100. : c.i(0, 50) / 100., c.i(1, 100) / 100.}, at, 1}); }
  LaserScan2D s; for (long n = c.len(0, 14); n > 0; --n) s.points().push_back(ScanPoint2D::make_polar(g.scale * c.i(1, 100) / 10., c.i(-180, 179) * M_PI / 180, c.flag(4, 5)));
  RobotPose pose{g.scale * c.i(-30, 30) / 10., g.scale * c.i(-30, 30) / 10., c.i(-100, 100) / 32.}; VF_LOG(c, g << " scan of " << s.points().size() << " points\n");
  auto fa = a->filter_scan(s, pose, *m), fb = b->filter_scan(s, pose, *m); VF_CHECK(fa.points().size() == fb.points().size(), "the configured scorer uses " << fa.points().size() << " points, one with the same parameters " << fb.points().size());
  double va = a->estimate_scan_probability(fa, pose, *m), vb = b->estimate_scan_probability(fb, pose, *m); VF_CHECK(same_num(va, vb) || std::abs(va - vb) < 1e-12, "the configured scorer says " << va << ", one with the same parameters " << vb);
  c.nontrivial(va > 0 && va < 1);
}

VF_TEST(adders, "a hit was integrated with two cells before it", 4000, 60000) {
  MapPropertiesProvider p; Set set{c, p}; double inf = std::numeric_limits<double>::infinity(); const std::string ON = "slam/occupancy_estimator/";
  bool area = c.flag(); if (area || c.flag()) p.set_property(ON + "type", area ? "area" : "const"); bool ahr = c.flag(1, 3); if (ahr || c.flag()) p.set_property("slam/mapping/observation_quality_estimator/type", ahr ? "ahr" : "idle");
  Occupancy occ{set(ON + "base_occupied/prob", c.i(50, 100) / 100., 0.95), set(ON + "base_occupied/qual", c.i(1, 100) / 100., 1)}, emp{set(ON + "base_empty/prob", c.i(0, 50) / 100., 0.01), set(ON + "base_empty/qual", c.i(1, 100) / 100., 1)};
  double scale = c.pick({0.1, 0.25, 1.}), blur = set("slam/mapping/blur", scale * c.i(-10, 40) / 10., 0), range = set("slam/mapping/max_range", scale * (c.i(10, 100) / 10. + 0.0371), inf);
  std::shared_ptr<CellOccupancyEstimator> e; if (area) e = std::make_shared<AreaOccupancyEstimator>(occ, emp); else e = std::make_shared<ConstOccupancyEstimator>(occ, emp);
  { std::shared_ptr<CellOccupancyEstimator> f; { QuietOut qo; f = init_occ_estimator(p); } Segment2D beam{{0.05, c.i(0, 95) / 100. + 0.01}, {c.i(60, 140) / 100., c.i(0, 95) / 100. + 0.01}}; Rectangle cell{0, 1, 0, 1}; // by the estimators themselves
    for (bool o : {false, true}) { auto u = f->estimate_occupancy(beam, cell, o), v = e->estimate_occupancy(beam, cell, o); VF_CHECK(same_num(u.prob_occ, v.prob_occ) && same_num(u.estimation_quality, v.estimation_quality), "a configured estimator says " << u << ", one with the same parameters " << v); } }
  std::shared_ptr<ObservationMappingQualityEstimator> q; if (ahr) q = std::make_shared<AngleHistogramResiprocalOMQE>(); else q = std::make_shared<IdleOMQE>();
  std::shared_ptr<GridMapScanAdder> a, b; { QuietOut qo; a = init_scan_adder(p); } b = WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(e).set_observation_quality_estimator(q).set_blur_distance(blur).set_max_usable_range(range).build();
  int ck = int(c.pick({CK_Affine, CK_Mean, CK_Tbm, CK_TbmEven})); UnboundedPlainGridMap ma{make_cell(ck), {40, 40, scale}}, mb{make_cell(ck), {40, 40, scale}}; bool good = false;
  for (long scans = c.len(1, 2); scans > 0; --scans) { LaserScan2D s; for (long n = c.len(1, 6); n > 0; --n) { double r = scale * c.i(1, 150) / 10.; bool o = c.flag(3, 4); s.points().push_back(ScanPoint2D::make_polar(r, c.i(-180, 179) * M_PI / 180 + 1e-4, o)); good |= o && r > 2.5 * scale && r < range; VF_LOG(c, "point " << r << (o ? "\n" : " (free)\n")); }
    RobotPose pose{scale * c.i(-30, 30) / 10. + 1e-4, scale * c.i(-30, 30) / 10. + 1e-4, c.i(-100, 100) / 32.}; double quality = c.i(1, 10) / 10.; a->append_scan(ma, pose, s, quality, 0); b->append_scan(mb, pose, s, quality, 0); }
  VF_CHECK(ma.width() == mb.width() && ma.height() == mb.height(), "maps of different sizes");
  auto lo = ma.internal2external({0, 0}); for (int x = 0; x < ma.width(); ++x) for (int y = 0; y < ma.height(); ++y) { Coord k{lo.x + x, lo.y + y}; auto &u = ma[k], &v = mb[k]; VF_CHECK(u.is_unknown() == v.is_unknown() && same_num(u.occupancy().prob_occ, v.occupancy().prob_occ) && same_num(u.occupancy().estimation_quality, v.occupancy().estimation_quality), "cell " << k << " is " << u.occupancy() << ", by the same parameters " << v.occupancy()); }
  c.nontrivial(good);
}

// ---------------------------------------------------------------- grid mapping
VF_TEST(gmapping, "two particles or more, two scans or more", 900, 12000) {
  MapPropertiesProvider p; Set set{c, p}; const std::string PN = "slam/particles/", ON = "slam/scmtch/oope/";
  double mx = set(PN + "sample/xy/mean", c.i(-10, 10) / 32., 0), sx = set(PN + "sample/xy/sigma", c.i(0, 10) / 32., 0.1), mt = set(PN + "sample/theta/mean", c.i(-10, 10) / 32., 0), st = set(PN + "sample/theta/sigma", c.i(0, 10) / 64., 0.03);
  double lxa = set(PN + "sm_delta_lim/xy/min", c.i(0, 20) / 32., 0.6), lxb = set(PN + "sm_delta_lim/xy/max", 0.625 + c.i(0, 20) / 32., 0.8), lta = set(PN + "sm_delta_lim/theta/min", c.i(0, 9) / 32., 0.3), ltb = set(PN + "sm_delta_lim/theta/max", 0.3125 + c.i(0, 20) / 32., 0.4);
  long n = c.flag(1, 12) ? 30 : c.i(1, 4); if (n != 30) p.set_property(PN + "number", std::to_string(n)); double th = set(ON + "custom/fullness_threshold", c.i(0, 9) / 10., 0.1); unsigned win = unsigned(set(ON + "custom/window_size", c.i(0, 3), 1));
  if (c.flag()) p.set_property(ON + "type", "custom"); p.set_property("slam/scmtch/spe/type", "wmpp"); std::string w = c.pick({0, 1}) ? "even" : "viny"; p.set_property("slam/scmtch/spe/wmpp/weighting/type", w);
  unsigned skip = unsigned(set("slam/scmtch/spe/wmpp/sp_skip_rate", c.i(0, 3), 0)); double mr = set("slam/scmtch/spe/wmpp/sp_max_usable_range", c.i(30, 100) / 10., -1);
  double scale = set("slam/map/meters_per_cell", c.pick({0.1, 0.25}), 0.1), blur = set("slam/mapping/blur", c.i(0, 3) / 10., 0), range = set("slam/mapping/max_range", c.i(30, 100) / 10., std::numeric_limits<double>::infinity()); int cells = int(std::ceil(10 / scale));
  VF_CHECK(init_particles_nm(p) == unsigned(n), init_particles_nm(p) << " particles instead of " << n);
  auto seed = vf::random_device_state(); std::shared_ptr<LaserScanGridWorld> a, b; { QuietOut q; a = init_gmapping(p); }
  vf::random_device_state() = seed; std::shared_ptr<ScanPointWeighting> spw; if (w == "even") spw = std::make_shared<EvenSPW>(); else spw = std::make_shared<VinySlamSPW>();
  auto builder = WallDistanceBlurringScanAdder::builder(); auto adder = builder.set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1}, Occupancy{0.01, 1})).set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(blur).set_max_usable_range(range).build();
  SingleStateHypothesisLSGWProperties sp{1, 1, 0, std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{cells, cells, scale}),
    std::make_shared<HillClimbingScanMatcher>(std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<GmappingOccupancyObservationPE>(th, win), spw, skip, mr), 6, 0.1, 0.1), adder};
  b = std::make_shared<GmappingParticleFilter>(sp, GMappingParams{mx, sx, mt, st, lxa, lxb, lta, ltb}, unsigned(n));
  auto room = gen_room(c, 0.4); auto sensor = gen_sensor(c, 0.4); RobotPose truth; long scans = c.i(1, 4);
  auto ra = std::make_shared<RecObs>(), rb = std::make_shared<RecObs>(); dynamic_cast<const GmappingWorld &>(a->world()); const_cast<GmappingWorld &>(dynamic_cast<const GmappingWorld &>(a->world())).add_sm_observer(ra); const_cast<GmappingWorld &>(dynamic_cast<const GmappingWorld &>(b->world())).add_sm_observer(rb);
  auto sa = vf::random_device_state(); (void)sa; vf::u64 state_a = vf::random_device_state(), state_b = state_a;
  for (long i = 0; i < scans; ++i) {
    TransformedLaserScan s; s.quality = 1; s.pose_delta = {0, 0, 0}; if (i) s.pose_delta = {c.i(-32, 32) / 32., c.i(-32, 32) / 32., c.i(-32, 32) / 64.}; truth = {truth.x + s.pose_delta.x, truth.y + s.pose_delta.y, truth.theta + s.pose_delta.theta}; if (std::abs(truth.x) > 2) truth.x = 0; if (std::abs(truth.y) > 2) truth.y = 0;
    s.scan = take_scan(room, sensor, truth); auto s2 = s; VF_LOG(c, "scan after " << s.pose_delta << "\n");
    vf::random_device_state() = state_a; a->handle_sensor_data(s); state_a = vf::random_device_state(); vf::random_device_state() = state_b; b->handle_sensor_data(s2); state_b = vf::random_device_state();
    VF_CHECK(near_pose(a->pose(), b->pose(), 1e-9), "the configured robot is at " << a->pose() << ", one with the same parameters at " << b->pose());
    VF_CHECK(ra->ev.size() == rb->ev.size(), "the configured robot matches in " << ra->ev.size() << " steps, one with the same parameters in " << rb->ev.size());
    VF_CHECK(a->map().width() == b->map().width() && a->map().scale() == b->map().scale(), "maps of different sizes");
  }
  c.nontrivial(n >= 2 && scans >= 2);
}

// ---------------------------------------------------------------- what comes with the repository
struct Asked : PropertiesProvider { // notes what it's asked for
  FilePropertiesProvider f; MapPropertiesProvider base; mutable std::set<std::string> ids;
  bool in(const std::string &id) const { for (auto &k : f.available_properties()) if (k == id) return true; return false; }
  int get_int(const std::string &id, int d) const override { ids.insert(id); return in(id) ? f.get_int(id, d) : base.get_int(id, d); }
  double get_dbl(const std::string &id, double d) const override { ids.insert(id); return in(id) ? f.get_dbl(id, d) : base.get_dbl(id, d); }
  std::string get_str(const std::string &id, const std::string &d) const override { ids.insert(id); return in(id) ? f.get_str(id, d) : base.get_str(id, d); }
  unsigned get_uint(const std::string &id, unsigned d) const override { ids.insert(id); return in(id) ? f.get_uint(id, d) : base.get_uint(id, d); }
  bool get_bool(const std::string &id, bool d) const override { ids.insert(id); return in(id) ? f.get_bool(id, d) : base.get_bool(id, d); }
  void set_property(const std::string &id, const std::string &v) override { base.set_property(id, v); }
};
static std::vector<std::string> shipped(const char *pattern) { glob_t g; std::vector<std::string> r; if (!glob((std::string(VF_REPO) + "/config/" + pattern).c_str(), 0, nullptr, &g)) for (size_t i = 0; i < g.gl_pathc; ++i) r.push_back(g.gl_pathv[i]); globfree(&g); return r; }

VF_TEST(shipped_settings, "all files of the repository", 1, 1) {
  auto fs = shipped("*/*.properties"); VF_CHECK(!fs.empty(), "no shipped configurations");
  for (auto &f : fs) {
    Asked p; QuietOut q; p.f.append_file_content(f); VF_LOG(c, f << "\n");
    for (auto kv : {std::make_pair("slam/mapping/grid/area/type", "mean_probability"), {"slam/mapping/grid/type", "unbounded_lazy_tiled"}, {"slam/scmtch/spe/type", "wmpp"}, {"slam/scmtch/spe/wmpp/weighting/type", "even"}, {"slam/scmtch/type", "idle"}}) p.set_property(kv.first, kv.second);
    init_credibilist_slam(p); init_1h_slam(p); if (!p.in("slam/scmtch/oope/type")) init_gmapping(p);
    for (auto &k : p.f.available_properties()) if (k.compare(0, 5, "slam/") == 0) VF_CHECK(p.ids.count(k), f << " sets " << k << " which no component asks for");
  }
  c.nontrivial(true);
}
VF_TEST(shipped_robots, "all robots of the repository", 1, 1) {
  auto fs = shipped("bag_runner/*.properties"); VF_CHECK(!fs.empty(), "no shipped robots");
  for (auto &f : fs) {
    VF_LOG(c, f << "\n"); bool gm = f.find("gmapping") != std::string::npos; // the algorithm is an argument of the runner
    int rc = in_child([&] { FilePropertiesProvider p; p.append_file_content(f); std::shared_ptr<LaserScanGridWorld> w; if (gm) w = init_gmapping(p); else w = init_1h_slam(p);
      TransformedLaserScan s; s.quality = 1; s.pose_delta = {0, 0, 0}; for (int i = 0; i < 100; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(2 + i % 7 / 10., -1.5 + i * 0.03, true)); w->handle_sensor_data(s); s.pose_delta = {0.7, 0.7, 0.2}; w->handle_sensor_data(s);
      if (!std::isfinite(w->pose().x)) throw 1; });
    VF_CHECK(rc == 77, "the robot of " << f << " ends with " << rc);
  }
  c.nontrivial(true);
}
