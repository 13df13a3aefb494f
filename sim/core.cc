#include "core.h"
#include "model.h"

#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>

std::string g_moddir;

std::string hex(const u8 *p, size_t n, size_t max) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  if (n > max) s += "..";
  return s;
}

std::string Plan::str() const {
  std::ostringstream o;
  o << "prop " << prop << "\n";
  for (auto &k : cfg) o << "cfg " << k.first << " " << k.second << "\n";
  for (auto &s : steps) {
    o << "step " << s.op;
    for (i64 v : s.a) o << " " << v;
    o << "\n";
  }
  return o.str();
}

bool Plan::parse(const std::string &text, Plan &p) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "prop") l >> p.prop;
    else if (w == "cfg") { std::string k; i64 v; l >> k >> v; p.cfg[k] = v; }
    else if (w == "step") {
      Step s;
      i64 v;
      l >> s.op;
      while (l >> v) s.a.push_back(v);
      p.steps.push_back(s);
    }
  }
  return !p.prop.empty();
}

void Ctx::ev(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  h(buf, n);
  if (verbose) printf("  %s\n", buf);
}

void Ctx::fail(const std::string &k, const char *fmt, ...) {
  if (failed) return;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  failed = true;
  kind = k;
  detail = buf;
  h(k.data(), k.size());
  if (verbose) printf("  !! %s: %s\n", k.c_str(), buf);
}

// ---------------------------------------------------------------- fatal signals

thread_local void *g_guard_jmp = nullptr;
static thread_local volatile int g_guard_sig = 0;

static void on_fatal(int sig) {
  if (g_guard_jmp) {
    g_guard_sig = sig == SIGPROF ? -1 : sig;
    siglongjmp(*(sigjmp_buf *)g_guard_jmp, 1);
  }
  if (sig == SIGPROF) return;  // another thread than the guarded one: give it the next tick
  signal(sig, SIG_DFL);
  raise(sig);
}

void guard_thread_init() {
  static thread_local char *alt = nullptr;
  if (alt) return;
  alt = (char *)malloc(1 << 16);
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
}

static void guard_signals() {
  static bool done = false;
  if (done) return;
  done = true;
  struct sigaction sa = {};
  sa.sa_handler = on_fatal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
}

int guarded(const std::function<void()> &f, unsigned cpu_seconds) {
  guard_signals();
  guard_thread_init();
  sigjmp_buf jb;
  void *old = g_guard_jmp;
  g_guard_sig = 0;
  struct itimerval it = {{0, 300000}, {(time_t)cpu_seconds, 0}}, outer = {};
  if (sigsetjmp(jb, 1) == 0) {
    g_guard_jmp = &jb;
    setitimer(ITIMER_PROF, &it, &outer);
    f();
  }
  setitimer(ITIMER_PROF, &outer, nullptr);
  g_guard_jmp = old;
  int sig = g_guard_sig;
  g_guard_sig = 0;
  return sig;
}

// ---------------------------------------------------------------- running plans

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void run_plan(Scenario *s, const Plan &p, Ctx &c) {
  unsigned limit = 30;  // histories that are long on purpose get more
  for (auto &x : p.steps) if (x.op == "flood" || x.op == "history" || x.op == "many" || x.op == "long" || x.op == "skip") limit = 150;
  int sig = guarded([&] { s->execute(p, c); }, limit);
  if (sig == -1) c.fail("hang", "the operation used more than %u s of processor time", limit);
  else if (sig) c.fail("crash", "fatal signal %d (%s) while the plan ran", sig, strsignal(sig));
}

struct Outcome { bool ok = false, failed = false; u64 hash = 0; std::string kind, detail; };

// Runs a plan in a child process, which starts from this process's pristine state.
static Outcome run_child(Scenario *s, const Plan &p, bool verbose) {
  int fd[2];
  Outcome o;
  if (pipe(fd)) return o;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    Stats st;
    Ctx c(&st);
    c.verbose = verbose;
    run_plan(s, p, c);
    fflush(nullptr);
    std::ostringstream o2;
    o2 << (c.failed ? 1 : 0) << "\n" << c.hash << "\n" << c.kind << "\n" << c.detail << "\n";
    std::string t = o2.str();
    ssize_t r = write(fd[1], t.data(), t.size());
    (void)r;
    _exit(0);
  }
  close(fd[1]);
  std::string t;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, n);
  close(fd[0]);
  int ws;
  waitpid(pid, &ws, 0);
  std::istringstream in(t);
  std::string l;
  if (std::getline(in, l)) {
    o.ok = true;
    o.failed = l == "1";
    std::getline(in, l);
    o.hash = strtoull(l.c_str(), nullptr, 10);
    std::getline(in, o.kind);
    std::getline(in, o.detail);
  } else if (WIFSIGNALED(ws) || WIFEXITED(ws)) {
    o.ok = o.failed = true;
    o.kind = "crash";
    o.detail = WIFSIGNALED(ws) ? "process ended by signal " + std::to_string(WTERMSIG(ws))
                               : "process exited with status " + std::to_string(WEXITSTATUS(ws));
    o.hash = fnv(o.detail.data(), o.detail.size());
  }
  return o;
}

static Plan minimise(Scenario *s, Plan p, const std::string &kind, double budget, int &tries) {
  double end = now() + budget;
  auto fails = [&](const Plan &q) {
    tries++;
    Outcome o = run_child(s, q, false);
    return o.ok && o.failed && o.kind == kind;
  };
  for (bool progress = true; progress && now() < end;) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2);; chunk = chunk / 2) {
      for (size_t i = 0; i < p.steps.size() && now() < end;) {
        Plan q = p;
        q.steps.erase(q.steps.begin() + i, q.steps.begin() + std::min(i + chunk, q.steps.size()));
        if (q.steps.size() < p.steps.size() && fails(q)) { p = q; progress = true; }
        else i += chunk;
      }
      if (chunk <= 1) break;
    }
    for (int round = 0; now() < end; round++) {
      Plan q;
      if (!s->simplify(p, round, q)) break;
      if (fails(q)) { p = q; progress = true; }
    }
  }
  return p;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((u8)ch < 32 || (u8)ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

static std::string jmap(const std::map<std::string, u64> &m) {
  std::string o = "{";
  for (auto &k : m) o += (o.size() > 1 ? "," : "") + jstr(k.first) + ":" + std::to_string(k.second);
  return o + "}";
}

static std::string slurp(const char *f) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; i++; }
    else pos.push_back(argv[i]);
  }
  if (pos.empty()) { fprintf(stderr, "sim run|replay|minimise ...\n"); return 2; }
  g_moddir = o.count("mods") ? o["mods"] : ".";
  std::string cmd = pos[0];
  Plan file;
  if (cmd == "selftest") {  // the model of the specification against test vectors
    std::string e = model_selftest(pos.size() > 1 ? pos[1] : "", 10);
    printf("%s\n", e.empty() ? "the model agrees with the test vectors" : e.c_str());
    return e.empty() ? 0 : 2;
  }
  if (cmd != "run") {
    if (pos.size() < 2 || !Plan::parse(slurp(pos[1].c_str()), file)) { fprintf(stderr, "cannot read the plan\n"); return 2; }
    o["prop"] = file.prop;
  }
  Scenario *s = make_scenario(o["prop"]);
  if (!s) { fprintf(stderr, "no such scenario %s\n", o["prop"].c_str()); return 2; }
  std::string err;
  if (!s->setup(err)) { fprintf(stderr, "setup: %s\n", err.c_str()); return 2; }

  if (cmd == "replay") {
    Outcome r = run_child(s, file, o.count("verbose"));
    if (!r.ok) return 2;
    printf("REPLAY failed=%d hash=%016llx kind=%s\ndetail=%s\n", r.failed, (unsigned long long)r.hash, r.kind.c_str(), r.detail.c_str());
    return r.failed ? 1 : 0;
  }
  if (cmd == "minimise") {
    Outcome r = run_child(s, file, false);
    if (!r.ok || !r.failed) { fprintf(stderr, "the plan does not fail\n"); return 2; }
    int tries = 0;
    Plan m = minimise(s, file, r.kind, atof(o["budget"].c_str()), tries);
    Outcome r2 = run_child(s, m, false);
    std::ofstream out(o["out"]);
    out << "# kind " << r2.kind << "\n# detail " << r2.detail << "\n# hash " << std::hex << r2.hash << std::dec
        << "\n# steps " << m.steps.size() << " of " << file.steps.size() << ", " << tries << " executions\n" << m.str();
    return r2.failed ? 0 : 2;
  }
  if (cmd == "info") return 0;
  // run: seeds first, first+stride, ... below count
  u64 seed = strtoull(o["seed"].c_str(), nullptr, 10), first = atoll(o["first"].c_str()), stride = atoll(o["stride"].c_str());
  bool thorough = o["tier"] == "thorough";
  double budget = atof(o["budget"].c_str()), t0 = now();
  u64 count = o.count("count") ? strtoull(o["count"].c_str(), nullptr, 10) : 0;
  if (!count) count = thorough ? ~0ull : s->quick_runs();
  unsigned twice = o.count("twice") ? atoi(o["twice"].c_str()) : 16;
  Stats st;
  u64 allhash = 0, nondet = 0, checked_twice = 0;
  bool capped = false;
  std::string fkind, fdetail, fplan, nplan;
  u64 findex = 0;
  u64 pseed = mix64(seed, fnv(o["prop"].data(), o["prop"].size()));
  for (u64 i = first; i < count; i += stride) {
    if (now() - t0 > budget) { capped = true; break; }
    Plan p;
    p.prop = o["prop"];
    Rng r(mix64(pseed, i));
    s->generate(r, i, thorough, p);
    if (o.count("current")) {  // so that the driver can tell which plan was running if this process dies
      FILE *f = fopen(o["current"].c_str(), "w");
      if (f) { std::string t = p.str(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
    }
    Ctx c(&st);
    run_plan(s, p, c);
    st.runs++;
    if (!c.failed && twice && mix64(pseed ^ i) % twice == 0) {
      Stats dummy;
      Ctx c2(&dummy);
      run_plan(s, p, c2);
      checked_twice++;
      if (c2.hash != c.hash) { nondet++; nplan = p.str(); }
    }
    allhash = mix64(allhash, c.hash);
    if (st.samples.size() < 3 && (i / stride) % 37 == 0) {
      std::string t = p.str();
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      st.samples.push_back(t);
    }
    if (c.failed) { fkind = c.kind; fdetail = c.detail; fplan = p.str(); findex = i; break; }
  }
  std::ostringstream j;
  j << "{\"runs\":" << st.runs << ",\"sim_time\":" << st.sim_time << ",\"hash\":\"" << std::hex << allhash << std::dec
    << "\",\"capped\":" << (capped ? "true" : "false") << ",\"twice\":" << checked_twice << ",\"nondet\":" << nondet
    << ",\"nondet_plan\":" << jstr(nplan) << ",\"wall\":" << now() - t0 << ",\"faults\":" << jmap(st.faults)
    << ",\"ops\":" << jmap(st.ops) << ",\"probes\":" << jmap(st.probes) << ",\"rule\":" << jstr(s->rule()) << ",\"samples\":[";
  for (size_t i = 0; i < st.samples.size(); i++) j << (i ? "," : "") << jstr(st.samples[i]);
  j << "]";
  if (!fkind.empty())
    j << ",\"fail\":{\"kind\":" << jstr(fkind) << ",\"detail\":" << jstr(fdetail) << ",\"index\":" << findex << ",\"plan\":" << jstr(fplan) << "}";
  j << "}\n";
  std::ofstream out(o["out"]);
  out << j.str();
  out.close();
  if (o.count("distinct")) {
    FILE *f = fopen(o["distinct"].c_str(), "wb");
    if (f) { for (u64 v : st.distinct) fwrite(&v, 8, 1, f); fclose(f); }
  }
  fflush(nullptr);
  _exit(0);  // no destructors: the code under test may have damaged the heap
}
