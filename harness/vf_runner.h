// Runner of the engine: workers, shrinking, replay, evidence.
#ifndef VF_RUNNER_H
#define VF_RUNNER_H

namespace vf {

constexpr int Exit_Pass = 0, Exit_Fail = 3, Exit_Discard = 4;
constexpr int Case_Cpu_Limit_S = 60;
constexpr long Rss_Limit_Mb = 3500;

struct Options {
  std::string property = "X00", tier = "quick", evidence, replays = ".",
              known, only, replay, scratch;
  u64 seed = 1;
  int jobs = 8;
  double mult = 1;
  bool keep_going = false, list = false;
  long only_index = -1;
};

inline void arm_cpu_limit(int s) {
  struct itimerval t; std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
}

struct Result { int code; std::string msg; };

inline Result run_one(const Test &t, Ctx &c) {
  random_device_state() = 1;
  try {
    t.fn(c);
    return {Exit_Pass, ""};
  } catch (const Failure &f) {
    return {Exit_Fail, f.what()};
  } catch (const Discard &) {
    return {Exit_Discard, ""};
  } catch (const std::exception &e) {
    return {Exit_Fail, std::string("unexpected exception: ") + e.what()};
  }
}

inline u64 case_seed(const Options &o, const Test &t, u64 index) {
  u64 s = o.seed * 0x9e3779b97f4a7c15ULL ^ hash_str(t.name) ^ (index * 0xd6e8feb86659fd93ULL);
  splitmix(s); splitmix(s);
  return s;
}

inline void redirect(const std::string &out, const std::string &err) {
  int fo = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int fe = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(fo, 1); dup2(fe, 2); close(fo); close(fe);
}

inline std::string file_tail(const std::string &path, size_t n = 1500) {
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  // the head of the report is what matters (assert text, ASan summary)
  if (s.size() > n) { s = s.substr(0, n) + "..."; }
  return s;
}

struct Stats {
  u64 evaluations = 0, discards = 0, from_corpus = 0;
  std::vector<u64> nontrivial;
  std::map<std::string, u64> labels;
  std::vector<u64> sample_idx;
};

// the last cases of a worker, in memory shared with the parent: a failure may need what ran before it
struct History {
  static constexpr size_t Slots = 64, Most = 1 << 14;
  volatile u64 count;
  struct Slot { u64 nm, ch[Most]; } slots[Slots];
  void add(const SharedCase &sc) {
    u64 n = sc.nm; if (n > Most) { return; }
    auto &s = slots[count % Slots]; s.nm = n;
    std::memcpy(s.ch, sc.choices, n * sizeof(u64)); count = count + 1;
  }
  // the last n cases, the oldest one first
  std::vector<std::vector<u64>> last(size_t n) const {
    std::vector<std::vector<u64>> r; u64 have = count; have = std::min(have, u64(Slots));
    for (u64 k = std::min<u64>(n, have); k > 0; --k) {
      auto &s = slots[(count - k) % Slots]; r.emplace_back(s.ch, s.ch + s.nm);
    }
    return r;
  }
};

inline void put(std::ofstream &f, const std::string &s) {
  u64 n = s.size(); f.write((char*)&n, 8); f.write(s.data(), n);
}
inline void put(std::ofstream &f, u64 v) { f.write((char*)&v, 8); }
inline u64 get(std::ifstream &f) { u64 v = 0; f.read((char*)&v, 8); return v; }
inline std::string gets(std::ifstream &f) {
  u64 n = get(f); std::string s(n, 0); f.read(&s[0], n); return s;
}

inline std::vector<u64> mutate(const std::vector<std::vector<u64>> &corpus, u64 &rs) {
  auto r = [&](u64 m) { return splitmix(rs) % m; };
  std::vector<u64> v = corpus[r(corpus.size())];
  u64 k = 1 + r(4);
  for (u64 n = 0; n < k && !v.empty(); ++n) {
    size_t p = r(v.size());
    switch (r(7)) {
    case 0: v[p] = splitmix(rs); break;
    case 1: v[p] = r(16); break;
    case 2: v[p] += 1; break;
    case 3: if (v[p]) v[p] -= 1; break;
    case 4: { size_t l = std::min<size_t>(v.size() - p, 1 + r(8));
      v.erase(v.begin() + p, v.begin() + p + l); break; }
    case 5: { // duplicate a block
      size_t l = std::min<size_t>(v.size() - p, 1 + r(16));
      std::vector<u64> b(v.begin() + p, v.begin() + p + l);
      if (v.size() < 4096) { v.insert(v.begin() + p, b.begin(), b.end()); } break; }
    case 6: { // splice
      auto &o = corpus[r(corpus.size())];
      if (o.empty()) break;
      size_t q = r(o.size());
      v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); break; }
    }
  }
  return v;
}

// returns only through _exit
[[noreturn]] inline void worker(const Options &o, size_t ti, int w, long cases,
                                SharedCase *sc, const std::string &stat_path,
                                History *hist, long from) {
  const Test &t = tests()[ti];
  hist->count = 0;
  redirect("/dev/null", stat_path + ".err");
  std::string own = o.scratch + "/d" + std::to_string(w); // files of a case are its worker's
  if (mkdir(own.c_str(), 0700) && errno != EEXIST) { _exit(9); }
  if (chdir(own.c_str())) { _exit(9); }
  Stats st;
  std::vector<std::vector<u64>> corpus;
#ifdef VF_COVERAGE
  std::vector<unsigned char> seen(Cov::Size, 0);
#endif
  u64 mut_s = case_seed(o, t, 0xABCDEF00ULL + from);
  for (long idx = from; idx < cases; idx += o.jobs) {
    sc->test = ti; sc->index = idx;
    std::vector<u64> prefix;
    bool mutated = false;
    if (!corpus.empty() && (idx / o.jobs) % 2 == 1) {
      prefix = mutate(corpus, mut_s); mutated = true;
    }
    u64 seed = case_seed(o, t, idx);
    Source s = mutated ? Source(prefix, true, seed, sc) : Source(seed, sc);
    Ctx c(s, false);
#ifdef VF_COVERAGE
    std::memset(cov().map, 0, Cov::Size); cov().on = true;
#endif
    arm_cpu_limit(Case_Cpu_Limit_S);
    sc->busy = 1;
    Result r = run_one(t, c);
    sc->busy = 0;
    arm_cpu_limit(0);
#ifdef VF_COVERAGE
    cov().on = false;
#endif
    if (r.code == Exit_Fail) {
      std::snprintf(sc->message, sizeof sc->message, "%s", r.msg.c_str());
      _exit(Exit_Fail);
    }
    hist->add(*sc);
    if (r.code == Exit_Discard) { ++st.discards; continue; }
#ifdef VF_COVERAGE
    {
      bool fresh = false;
      auto a = reinterpret_cast<u64*>(cov().map);
      auto b = reinterpret_cast<u64*>(seen.data());
      for (size_t k = 0; k < Cov::Size / 8; ++k) {
        if (a[k] & ~b[k]) { fresh = true; b[k] |= a[k]; }
      }
      if (fresh && sc->nm < 4096 && corpus.size() < 512) {
        corpus.emplace_back(sc->choices, sc->choices + sc->nm);
      }
    }
#endif
    ++st.evaluations;
    if (mutated) ++st.from_corpus;
    for (auto &l : c.labels()) { ++st.labels[l]; }
    if (c.is_nontrivial()) {
      st.nontrivial.push_back(hash_bytes(sc->choices, sc->nm * 8));
      if (!mutated && st.sample_idx.size() < 2) { st.sample_idx.push_back(idx); }
    }
  }
  std::ofstream f(stat_path, std::ios::binary);
  put(f, st.evaluations); put(f, st.discards); put(f, st.from_corpus);
  put(f, st.nontrivial.size());
  for (u64 h : st.nontrivial) put(f, h);
  put(f, st.sample_idx.size());
  for (u64 h : st.sample_idx) put(f, h);
  put(f, st.labels.size());
  for (auto &l : st.labels) { put(f, l.first); put(f, l.second); }
  f.close();
  _exit(Exit_Pass);
}

inline long rss_mb(pid_t p) {
  std::ifstream f("/proc/" + std::to_string(p) + "/statm");
  long a = 0, b = 0; f >> a >> b;
  return b * 4096 / (1 << 20);
}

// waits for one child with a memory limit
inline int wait_child(pid_t p) {
  int st = 0, ticks = 0;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) { return st; }
    usleep(ticks < 50 ? 200 : 5000);
    if (++ticks % 100 == 0 && rss_mb(p) > Rss_Limit_Mb) { kill(p, SIGKILL); }
  }
}

struct Fault { bool failed = false, hang = false; std::string msg; std::vector<u64> used; };

using Before = std::vector<std::vector<u64>>;

// runs one explicit choice sequence in a child, after the given ones
inline Fault exec(const Options &o, const Test &t, const std::vector<u64> &ch,
                  SharedCase *sc, int cpu = Case_Cpu_Limit_S,
                  const std::string &text_out = "", const Before &before = {}) {
  std::string err = o.scratch + "/exec.err";
  sc->nm = 0; sc->message[0] = 0;
  std::cout.flush(); std::cerr.flush();
  pid_t p = fork();
  if (!p) {
    redirect("/dev/null", err);
    if (!before.empty()) {
      auto own = std::unique_ptr<SharedCase>(new SharedCase);
      for (auto &b : before) {
        arm_cpu_limit(cpu);
        Source s(b, false, 0, own.get()); Ctx c(s, false); run_one(t, c);
      }
    }
    Source s(ch, false, 0, sc);
    Ctx c(s, !text_out.empty());
    if (!text_out.empty()) { c.log_to(text_out); }
    arm_cpu_limit(cpu);
      Result r = run_one(t, c);
    std::snprintf(sc->message, sizeof sc->message, "%s", r.msg.c_str());
    _exit(r.code);
  }
  int st = wait_child(p);
  Fault f;
  f.used.assign(sc->choices, sc->choices + sc->nm);
  if (WIFEXITED(st) && WEXITSTATUS(st) == Exit_Pass) { return f; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == Exit_Discard) { return f; }
  f.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == Exit_Fail) {
    f.msg = sc->message;
  } else if (WIFSIGNALED(st)) {
    f.hang = WTERMSIG(st) == SIGPROF;
    f.msg = f.hang ? "the case does not terminate (CPU time limit)" :
      std::string("crash: ") + strsignal(WTERMSIG(st)) + "\n" + file_tail(err);
  } else {
    f.msg = "crash: exit code " + std::to_string(WEXITSTATUS(st)) + "\n" + file_tail(err);
  }
  return f;
}

inline bool simpler(const std::vector<u64> &a, const std::vector<u64> &b) {
  if (a.size() != b.size()) { return a.size() < b.size(); }
  return a < b;
}

inline std::vector<u64> shrink(const Options &o, const Test &t, std::vector<u64> best,
                               SharedCase *sc, std::string &msg, const Before &before = {}) {
  auto start = std::chrono::steady_clock::now();
  long budget = 2500;
  auto over = [&]() {
    return budget <= 0 || std::chrono::duration<double>(
      std::chrono::steady_clock::now() - start).count() > 60;
  };
  auto attempt = [&](const std::vector<u64> &cand) {
    if (over()) return false;
    --budget;
    Fault f = exec(o, t, cand, sc, 10, "", before);
    if (!f.failed || f.hang) return false;
    if (!simpler(f.used, best)) return false;
    best = f.used; msg = f.msg;
    return true;
  };
  { Fault f = exec(o, t, best, sc, Case_Cpu_Limit_S, "", before); if (f.failed && f.used.size() <= best.size()) best = f.used; }
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t n = std::max<size_t>(1, best.size() / 2); n >= 1 && !over(); n /= 2) {
      for (long p = long(best.size()) - long(n); p >= 0 && !over(); p -= n) {
        if (size_t(p) + n > best.size()) continue;
        auto c = best; c.erase(c.begin() + p, c.begin() + p + n);
        if (attempt(c)) { progress = true; }
      }
      if (n == 1) break;
    }
    for (size_t n = 16; n >= 1 && !over(); n /= 2) {
      for (size_t p = 0; p + n <= best.size() && !over(); p += n) {
        auto c = best; bool any = false;
        for (size_t k = p; k < p + n; ++k) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) { progress = true; }
      }
      if (n == 1) break;
    }
    for (size_t p = 0; p < best.size() && !over(); ++p) {
      u64 lo = 0;
      while (p < best.size() && best[p] > lo && !over()) { // bisection
        auto c = best; u64 mid = lo + (best[p] - lo) / 2; c[p] = mid;
        if (attempt(c)) { progress = true; } else { lo = mid + 1; }
      }
    }
  }
  return best;
}

// the shortest tail of a worker's history after which a case fails, without what is not needed of it
inline bool find_history(const Options &o, const Test &t, const std::vector<u64> &ch, SharedCase *sc,
                         const History &hist, Before &before, std::string &msg) {
  auto start = std::chrono::steady_clock::now();
  auto over = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > 60; };
  auto fails = [&](const Before &b) {
    Fault f = exec(o, t, ch, sc, 20, "", b);
    if (f.failed && !f.hang) { msg = f.msg; return true; }
    return false;
  };
  size_t have = hist.last(size_t(History::Slots)).size(); bool found = false;
  for (size_t n = 1; !found && have && !over(); n *= 2) {
    before = hist.last(n); found = fails(before) && fails(before);
    if (n >= have) { break; }
  }
  if (!found) { return false; }
  for (size_t n = before.size(); n >= 1; n /= 2) {
    for (size_t p = 0; p + n <= before.size() && !over(); ) {
      auto b = before; b.erase(b.begin() + p, b.begin() + p + n);
      if (!b.empty() && fails(b)) { before = b; } else { p += n; }
    }
  }
  return true;
}

inline std::string json_str(const std::string &s) {
  std::ostringstream o; o << '"';
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o << '\\' << ch; }
    else if (ch == '\n') { o << "\\n"; }
    else if (ch < 0x20 || ch > 0x7e) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); o << b; }
    else { o << ch; }
  }
  o << '"'; return o.str();
}

inline bool is_known(const Options &o, const std::string &probe) {
  std::ifstream f(o.known);
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 6, "known:") == 0 &&
        line.find("property=" + o.property + " ") != std::string::npos &&
        line.find("probe=" + probe + " ") != std::string::npos) { return true; }
  }
  return false;
}

inline std::string write_replay(const Options &o, const Test &t, const std::vector<u64> &ch,
                                const std::string &msg, const std::string &text,
                                const Before &before = {}) {
  mkdir(o.replays.c_str(), 0755);
  std::ostringstream name;
  name << o.replays << "/" << o.property << "-" << t.name << "-" << std::hex
       << (hash_bytes(ch.data(), ch.size() * 8) & 0xffffffff) << ".replay";
  std::ofstream f(name.str());
  f << "test " << t.name << "\nchoices " << ch.size();
  for (u64 v : ch) f << ' ' << v;
  f << "\nbefore " << before.size();
  for (auto &b : before) { f << "\n" << b.size(); for (u64 v : b) f << ' ' << v; }
  f << "\n\n--- failure\n" << msg << "\n--- case\n" << text << "\n";
  return name.str();
}

inline int run_main(int argc, char **argv) {
  Options o;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto nx = [&]() { return std::string(argv[++k]); };
    if (a == "--property") o.property = nx();
    else if (a == "--tier") o.tier = nx();
    else if (a == "--seed") o.seed = std::stoull(nx());
    else if (a == "--evidence") o.evidence = nx();
    else if (a == "--replays") o.replays = nx();
    else if (a == "--known") o.known = nx();
    else if (a == "--test") o.only = nx();
    else if (a == "--replay") o.replay = nx();
    else if (a == "--jobs") o.jobs = std::stoi(nx());
    else if (a == "--mult") o.mult = std::stod(nx());
    else if (a == "--keep-going") o.keep_going = true;
    else if (a == "--list") o.list = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  auto t0 = std::chrono::steady_clock::now();
  char tmpl[] = "/tmp/vf.XXXXXX";
  o.scratch = mkdtemp(tmpl);
  if (chdir(o.scratch.c_str())) { return 2; }
  struct Cleaner { std::string d; pid_t me;
    ~Cleaner() { if (getpid() == me && d.compare(0, 8, "/tmp/vf.") == 0) {
      std::string cmd = "rm -rf '" + d + "'"; if (std::system(cmd.c_str())) {} } }
  } cleaner{o.scratch, getpid()};

  std::vector<SharedCase*> scs;
  for (int w = 0; w <= o.jobs; ++w) {
    void *m = mmap(nullptr, sizeof(SharedCase), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    scs.push_back(static_cast<SharedCase*>(m));
  }
  SharedCase *psc = scs[o.jobs];
  std::vector<History*> hists;
  for (int w = 0; w < o.jobs; ++w) {
    hists.push_back(static_cast<History*>(mmap(nullptr, sizeof(History), PROT_READ | PROT_WRITE,
                                               MAP_SHARED | MAP_ANONYMOUS, -1, 0)));
  }

  if (o.list) {
    for (auto &t : tests()) std::cout << t.name << " " << t.quick << " " << t.thorough << "\n";
    return 0;
  }
  if (!o.replay.empty()) {
    std::ifstream f(o.replay); std::string w, name; size_t n = 0;
    f >> w >> name >> w >> n; std::vector<u64> ch(n);
    for (auto &v : ch) f >> v;
    Before before; if (f >> w >> n && w == "before") { before.resize(n); for (auto &b : before) { f >> n; b.resize(n); for (auto &v : b) f >> v; } }
    for (auto &t : tests()) if (t.name == name) {
      Fault r = exec(o, t, ch, psc, Case_Cpu_Limit_S, o.scratch + "/text", before);
      std::cout << file_tail(o.scratch + "/text", 100000) << "\n"
                << (r.failed ? "FAILS: " + r.msg : std::string("passes")) << "\n";
      return r.failed ? 1 : 0;
    }
    std::cerr << "no such test: " << name << "\n"; return 2;
  }

  u64 evals = 0, discards = 0, unrepro = 0, from_corpus = 0;
  std::set<std::pair<size_t, u64>> distinct;
  std::ostringstream per_test, samples, rules;
  bool first_test = true, first_sample = true;
  int violations = 0;
  for (size_t ti = 0; ti < tests().size(); ++ti) {
    const Test &t = tests()[ti];
    if (!o.only.empty() && t.name != o.only) continue;
    auto tt0 = std::chrono::steady_clock::now();
    long cases = o.tier == "thorough" ? t.thorough : t.quick;
    if (cases > 1) { cases = std::max(1L, long(cases * o.mult)); }
    std::vector<long> from(o.jobs); // where workers start
    for (int w = 0; w < o.jobs; ++w) { from[w] = w; }
    Stats total;
    // a worker that met a failure which does not reproduce goes on behind it
    for (int round = 0; round < 8; ++round) {
    std::vector<pid_t> pids(o.jobs, 0);
    std::vector<int> sts(o.jobs, 0);
    for (int w = 0; w < o.jobs; ++w) {
      std::string sp = o.scratch + "/w" + std::to_string(w);
      unlink(sp.c_str());
      scs[w]->busy = 0;
      if (from[w] < 0) { pids[w] = -1; continue; }
      std::cout.flush(); std::cerr.flush();
      pids[w] = fork();
      if (!pids[w]) { worker(o, ti, w, cases, scs[w], sp, hists[w], from[w]); }
    }
    int alive = 0, ticks = 0;
    for (int w = 0; w < o.jobs; ++w) { alive += pids[w] > 0; }
    while (alive) {
      int st; pid_t p;
      while (alive && (p = waitpid(-1, &st, WNOHANG)) > 0) {
        for (int w = 0; w < o.jobs; ++w) if (pids[w] == p) { sts[w] = st; pids[w] = -1; --alive; }
      }
      if (!alive) break;
      usleep(2000);
      if (++ticks % 50 == 0) {
        for (int w = 0; w < o.jobs; ++w) {
          if (pids[w] > 0 && rss_mb(pids[w]) > Rss_Limit_Mb) { kill(pids[w], SIGKILL); }
        }
      }
    }
    // collect
    std::vector<int> failed;
    for (int w = 0; w < o.jobs; ++w) {
      if (from[w] < 0) { continue; }
      if (!(WIFEXITED(sts[w]) && WEXITSTATUS(sts[w]) == 0)) { failed.push_back(w); continue; }
      from[w] = -1;
      std::ifstream f(o.scratch + "/w" + std::to_string(w), std::ios::binary);
      total.evaluations += get(f); total.discards += get(f); total.from_corpus += get(f);
      u64 n = get(f);
      for (u64 k = 0; k < n; ++k) { distinct.insert({ti, get(f)}); }
      n = get(f);
      for (u64 k = 0; k < n; ++k) { total.sample_idx.push_back(get(f)); }
      n = get(f);
      for (u64 k = 0; k < n; ++k) { auto l = gets(f); total.labels[l] += get(f); }
    }
    if (failed.empty()) { break; }
    std::sort(failed.begin(), failed.end(), [&](int a, int b) {
      return scs[a]->index < scs[b]->index; });
    bool reported = false;
    for (int w : failed) {
      std::vector<u64> ch(scs[w]->choices, scs[w]->choices + scs[w]->nm);
      Before before; std::string msg;
      Fault f0 = exec(o, t, ch, psc);
      msg = f0.msg;
      if (!f0.failed && !find_history(o, t, ch, psc, *hists[w], before, msg)) {
        ++unrepro; from[w] = scs[w]->index + o.jobs; continue;
      }
      auto small = (f0.hang) ? ch : shrink(o, t, ch, psc, msg, before);
      auto confirmed = [&](const std::vector<u64> &x) {
        for (int k = 0; k < 3; ++k) {
          Fault f = exec(o, t, x, psc, Case_Cpu_Limit_S, o.scratch + "/text", before);
          if (!f.failed) return false;
          msg = f.msg;
        }
        return true;
      };
      if (!confirmed(small)) {
        if (!confirmed(ch)) { ++unrepro; from[w] = scs[w]->index + o.jobs; continue; }
        small = ch;
      }
      if (t.probe && is_known(o, t.name)) {
        std::cout << "KNOWN-FINDING: property=" << o.property << " probe=" << t.name
                  << " " << msg.substr(0, msg.find('\n')) << "\n";
        reported = true; break;
      }
      std::string text = file_tail(o.scratch + "/text", 100000);
      std::string path = write_replay(o, t, small, msg, text, before);
      std::cout << "test " << t.name << " fails (case " << scs[w]->index << "):\n"
                << text << "\n" << msg << "\n";
      if (!before.empty()) std::cout << "(after " << before.size() << " other cases in the same process, see the replay)\n";
      std::cout << "VIOLATION property=" << o.property << " replay=" << path << std::endl;
      ++violations; reported = true;
      break;
    }
    if (reported) { break; }
    std::cerr << "note: a failure in " << t.name << " did not reproduce\n";
    }
    evals += total.evaluations; discards += total.discards; from_corpus += total.from_corpus;
    double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - tt0).count();
    per_test << (first_test ? "" : ",\n    ") << json_str(t.name) << ": {\"cases\": "
             << total.evaluations << ", \"seconds\": " << std::fixed << std::setprecision(2) << sec
             << ", \"mutated_from_corpus\": " << total.from_corpus << ", \"labels\": {";
    rules << (first_test ? "" : " | ") << t.name << ": " << t.rule;
    first_test = false;
    bool fl = true;
    for (auto &l : total.labels) {
      per_test << (fl ? "" : ", ") << json_str(l.first) << ": " << l.second; fl = false;
    }
    per_test << "}}";
    std::sort(total.sample_idx.begin(), total.sample_idx.end());
    for (size_t k = 0; k < total.sample_idx.size() && k < 2; ++k) {
      // regenerate the choices of the sample, then describe the case
      std::string text = o.scratch + "/text"; unlink(text.c_str());
      pid_t p = fork();
      if (!p) {
        redirect("/dev/null", "/dev/null");
        Source s(case_seed(o, t, total.sample_idx[k]), psc);
        Ctx c(s, true); arm_cpu_limit(Case_Cpu_Limit_S);
        run_one(t, c);
        std::ofstream(text) << c.text(); _exit(0);
      }
      wait_child(p);
      std::string s = file_tail(text, 700);
      samples << (first_sample ? "" : ",\n    ") << json_str(t.name + ": " + s);
      first_sample = false;
    }
    std::cerr << "  " << t.name << ": " << total.evaluations << " cases, " << sec << " s";
    for (auto &l : total.labels) { std::cerr << " " << l.first << "=" << l.second; }
    if (total.discards) std::cerr << " discards=" << total.discards;
    std::cerr << "\n";
    if (violations && !o.keep_going) break;
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!o.evidence.empty()) {
    std::ofstream f(o.evidence);
    f << "{\n \"property\": " << json_str(o.property) << ",\n \"tier\": " << json_str(o.tier)
      << ",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
      << ",\n  \"discarded\": " << discards << ",\n  \"unreproduced_failures\": " << unrepro
      << ",\n  \"rule\": " << json_str("cases are generated from seeded choice sequences "
         "(half of them mutants of sequences that reached new code); non-trivial: " + rules.str())
      << ",\n  \"samples\": [\n    " << samples.str() << "],\n  \"per_test\": {\n    "
      << per_test.str() << "}\n },\n \"violations\": " << violations
      << ",\n \"wall_s\": " << std::fixed << std::setprecision(2) << wall << "\n}\n";
  }
  return violations ? 1 : 0;
}

} // namespace vf

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:"
         "max_allocation_size_mb=3000:detect_stack_use_after_return=0:"
         "quarantine_size_mb=16:print_legend=0";
}
extern "C" const char *__ubsan_default_options() {
  return "abort_on_error=1:print_stacktrace=0:halt_on_error=1";
}

#ifndef VF_NO_MAIN
int main(int argc, char **argv) {
  // a fixed address layout is not needed: nothing observable depends on it
  return vf::run_main(argc, argv);
}
#endif

#endif
