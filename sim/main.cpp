// Batch runner: seeds, forked batches, replay, minimisation.
#include "rt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {
constexpr std::size_t TAPE_MAX = 400000;
constexpr u64 BITS = 1ull << 27;

constexpr u64 ITEMS_MAX = 8192;
constexpr u64 STATS_MAX = 400;

// What a child is to run: either seeds, one after the other, or one tape.
struct Job {
  u64 n, seed[ITEMS_MAX], focus[ITEMS_MAX];
  bool by_tape;
  u64 tape_n, tape[TAPE_MAX];
  bool trace, whole;                 // whole: stop at the first failure and count everything (a batch)
  unsigned limit_s;
};
// A child reports here. Nothing on the way to a child, or between children,
// touches the heap, so that one list of seeds always meets the same heap: a
// batch of the search, a replay within it and one from a file are alike.
struct Lane {
  Job job;
  u64 at;                            // item the child is in
  char tag[64];
  char text[4096];
  char log[1u << 20];
  u64 tape_n, tape[TAPE_MAX];        // choices of the last item
  u64 runs, choices, overflows;
  u64 stats_n;
  struct { char k[56]; u64 v; } stats[STATS_MAX], total[STATS_MAX];
  u64 total_n;
  int status;
  bool failed;
  u64 fail_batch, fail_run;
};
struct Shared {
  u64 next, stop_at;
};

template <typename T> T* shm(std::size_t n = sizeof(T)) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
  return static_cast<T*>(p);
}

Shared* sh;
Lane* lanes;
u64* distinct_bits;
const char* scratch = "";

u64 seed_of(u64 base, const std::string& prop, u64 variant, u64 i) {
  u64 h = hash_bytes(prop.data(), prop.size());
  h = Tape::mix(h ^ Tape::mix(base));
  h = Tape::mix(h ^ variant * 0x51ed27f1u);
  return Tape::mix(h + i);
}

struct Outcome {
  bool bad = false;
  std::string tag, text;
  bool overflow = false;
};

// One simulated run in this process.
Outcome one_run(const Prop& p, Tape& t, Stats& st, bool trace, std::string* log) {
  Outcome o;
  World w(t, st);
  world = &w;
  w.trace = trace;
  TaskCtx main_ctx;
  cur = &main_ctx;
  const i64 before = live_tagged;
  p.run(w);
  cur = nullptr;
  if(live_tagged != before && w.viols.empty()) {
    // Something outlived the run. A cache settles; a leak grows every time.
    i64 last = live_tagged, grew = 0;
    for(int k = 0; k < 3; ++k) {
      Stats s2;
      Tape t2;
      t2.v = t.v;
      World w2(t2, s2);
      world = &w2;
      cur = &main_ctx;
      p.run(w2);
      cur = nullptr;
      grew += live_tagged > last;
      last = live_tagged;
    }
    world = &w;
    if(grew == 3) w.fail("R.leak", "the same casts, repeated, leave more and more of the library's allocations behind (%lld now)", live_tagged);
  }
  st.add("sim.us", w.now);
  st.add("sched.switches", w.switches);
  if(w.nontrivial) {
    st.add("nontrivial");
    const u64 b = Tape::mix(w.state_hash) % BITS;
    __atomic_or_fetch(&distinct_bits[b / 64], 1ull << (b % 64), __ATOMIC_RELAXED);
  }
  for(const auto& v : w.viols) {
    if(p.ignore.count(v.tag)) continue;
    o.bad = true;
    o.tag = v.tag;
    o.text = v.text;
    break;
  }
  if(log) *log = w.log;
  o.overflow = t.overflow;
  world = nullptr;
  return o;
}

std::string slurp(const std::string& f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

std::string crash_tag(int status, const std::string& err) {
  const auto p = err.find("ERROR: AddressSanitizer: ");
  if(p != std::string::npos) {
    std::string k = err.substr(p + 25);
    k = k.substr(0, k.find_first_of(" \n"));
    return "crash:" + k;
  }
  if(err.find("runtime error:") != std::string::npos) return "crash:undefined-behaviour";
  if(WIFEXITED(status) && WEXITSTATUS(status) == 78) return "crash:runaway";
  if(WIFSIGNALED(status)) {
    if(WTERMSIG(status) == SIGALRM) return "crash:hang";
    return std::string("crash:signal-") + std::to_string(WTERMSIG(status));
  }
  return "crash:exit-" + std::to_string(WEXITSTATUS(status));
}

void err_file(char (&name)[512], u64 lane) { std::snprintf(name, sizeof name, "%s/err.%llu", scratch, lane); }

// Body of a child.
[[noreturn]] void child(const Prop& p, u64 lane) {
  Lane& L = lanes[lane];
  const Job& J = L.job;
  char err[512];
  err_file(err, lane);
  const int fd = open(err, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 2);
  close(fd);
  alarm(J.limit_s);
  Stats st;
  for(u64 i = 0; i < J.n; ++i) {
    const bool last = i + 1 == J.n;
    L.at = i;
    Tape t;
    if(J.by_tape) t.v.assign(J.tape, J.tape + J.tape_n);
    else t = Tape::from_seed(J.seed[i], J.focus[i]);
    t.mirror = last && !J.by_tape && !J.whole ? L.tape : nullptr;
    t.mirror_n = &L.tape_n;
    t.cap = TAPE_MAX;
    std::string log;
    const Outcome o = one_run(p, t, st, J.trace && last, J.trace && last ? &log : nullptr);
    ++L.runs;
    L.choices += t.v.size();
    L.overflows += o.overflow;
    if(J.trace && last) std::strncpy(L.log, log.c_str(), sizeof L.log - 1);
    if(o.bad && (last || J.whole)) {
      std::strncpy(L.tag, o.tag.c_str(), sizeof L.tag - 1);
      std::strncpy(L.text, o.text.c_str(), sizeof L.text - 1);
      _exit(10);
    }
  }
  for(const auto& [k, v] : st.n) {
    if(L.stats_n == STATS_MAX) break;
    std::strncpy(L.stats[L.stats_n].k, k.c_str(), sizeof L.stats[0].k - 1);
    L.stats[L.stats_n++].v = v;
  }
  _exit(0);
}

// Forks the child for the lane's job and waits for it. No heap.
void launch(const Prop& p, u64 lane) {
  Lane& L = lanes[lane];
  L.tag[0] = L.text[0] = L.log[0] = 0;
  L.tape_n = L.stats_n = L.at = L.runs = L.choices = L.overflows = 0;
  const pid_t pid = fork();
  if(pid == 0) child(p, lane);
  waitpid(pid, &L.status, 0);
}

// The replayer waits in the state the lanes were forked in.
int to_replayer[2], from_replayer[2];
u64 replay_lane;

struct Item { bool by_seed; u64 seed, focus; std::vector<u64> tape; };
Outcome isolated(const std::vector<Item>& items, bool trace) {
  Lane& L = lanes[replay_lane];
  Job& J = L.job;
  J.by_tape = items.size() == 1 && !items[0].by_seed;
  J.whole = false;
  J.trace = trace;
  J.n = items.size();
  J.limit_s = items.size() > 1 ? 300 : 60;
  if(J.by_tape) {
    J.tape_n = std::min<u64>(items[0].tape.size(), TAPE_MAX);
    std::copy_n(items[0].tape.begin(), J.tape_n, J.tape);
  } else {
    for(u64 i = 0; i < J.n; ++i) { J.seed[i] = items[i].seed; J.focus[i] = items[i].focus; }
  }
  char c = 1;
  if(write(to_replayer[1], &c, 1) != 1 || read(from_replayer[0], &c, 1) != 1) { std::fprintf(stderr, "the replayer is gone\n"); std::exit(3); }
  Outcome o;
  if(WIFEXITED(L.status) && WEXITSTATUS(L.status) == 0) return o;
  o.bad = true;
  if(WIFEXITED(L.status) && WEXITSTATUS(L.status) == 10) { o.tag = L.tag; o.text = L.text; return o; }
  char err[512];
  err_file(err, replay_lane);
  const std::string e = slurp(err);
  o.tag = crash_tag(L.status, e);
  o.text = e.substr(0, 3000);
  return o;
}

void start_replayer(const Prop& p) {
  if(pipe(to_replayer) || pipe(from_replayer)) std::exit(3);
  if(fork() == 0) {
    close(to_replayer[1]);
    close(from_replayer[0]);
    char c;
    while(read(to_replayer[0], &c, 1) == 1) {
      launch(p, replay_lane);
      if(write(from_replayer[1], &c, 1) != 1) break;
    }
    _exit(0);
  }
  close(to_replayer[0]);
  close(from_replayer[1]);
}

std::vector<u64> minimise(std::vector<u64> tape, const std::string& tag, double budget_s, u64& tries) {
  const auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s && tries < 3000; };
  auto holds = [&](const std::vector<u64>& c) {
    ++tries;
    const Outcome o = isolated({{false, 0, 0, c}}, false);
    return o.bad && o.tag == tag;
  };
  auto strip = [](std::vector<u64>& c) { while(!c.empty() && c.back() == 0) c.pop_back(); };
  strip(tape);
  bool changed = true;
  while(changed && left()) {
    changed = false;
    // cut the tail
    for(std::size_t n = tape.size() / 2; n >= 1 && left(); n /= 2) {
      while(tape.size() >= n && left()) {
        auto c = tape;
        c.resize(c.size() - n);
        strip(c);
        if(!holds(c)) break;
        tape = c;
        changed = true;
      }
    }
    // drop chunks
    for(std::size_t n = std::max<std::size_t>(1, tape.size() / 4); n >= 1 && left(); n /= 2) {
      for(std::size_t i = 0; i + n <= tape.size() && left();) {
        auto c = tape;
        c.erase(c.begin() + i, c.begin() + i + n);
        strip(c);
        if(c.size() < tape.size() && holds(c)) { tape = c; changed = true; }
        else i += n;
      }
    }
    // lower values
    for(std::size_t i = 0; i < tape.size() && left(); ++i) {
      if(!tape[i]) continue;
      auto c = tape;
      c[i] = 0;
      if(holds(c)) { tape = c; changed = true; continue; }
      c[i] = tape[i] / 2;
      if(c[i] && holds(c)) { tape = c; changed = true; continue; }
      c[i] = tape[i] - 1;
      if(c[i] && holds(c)) { tape = c; changed = true; }
    }
    strip(tape);
  }
  return tape;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}
}

int main(int argc, char** argv) {
  // One address space layout for every run of one binary.
  if(const int was = personality(0xffffffff); was != -1 && !(was & ADDR_NO_RANDOMIZE) && !std::getenv("S2S_SIM_AGAIN")) {
    if(personality(static_cast<unsigned long>(was) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("S2S_SIM_AGAIN", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  auto arg = [&](const char* k) -> const char* {
    for(int i = 1; i + 1 < argc; i += 2) if(!std::strcmp(argv[i], k)) return argv[i + 1];
    return nullptr;
  };
  auto N = [&](const char* k, u64 d) { const char* v = arg(k); return v ? std::strtoull(v, nullptr, 10) : d; };
  if(!arg("--prop")) return 3;
  const std::string prop_id = arg("--prop");
  const Prop* p = find_prop(prop_id);
  if(!p) { std::fprintf(stderr, "no such property\n"); return 3; }
  if(arg("--scratch")) scratch = arg("--scratch");
  env.default_ceiling = N("--ceiling", env.default_ceiling);
  std::sort(registry().begin(), registry().end(), [](const Ops& x, const Ops& y) { return std::strcmp(x.name, y.name) < 0; });
  for(auto& o : registry()) {
    env.all.push_back(parse_schema(o, env.default_ceiling));
    env.by_name[o.name] = env.all.back().get();
  }
  const u64 lanes_n = arg("--replay") ? 0 : N("--lanes", 8);
  replay_lane = lanes_n;
  sh = shm<Shared>();
  lanes = shm<Lane>(sizeof(Lane) * (lanes_n + 1));
  distinct_bits = shm<u64>(BITS / 8);
  cov_map = shm<unsigned char>(cov_size);
  start_replayer(*p);

  // ---- replay of one file
  if(arg("--replay")) {
    std::ifstream in(arg("--replay"));
    std::string line;
    std::vector<Item> items;
    while(std::getline(in, line)) {
      std::stringstream ls(line);
      std::string k;
      ls >> k;
      if(k == "seed") { Item it{true, 0, 0, {}}; ls >> it.seed >> it.focus; items.push_back(it); }
      if(k == "tape") { Item it{false, 0, 0, {}}; u64 x; while(ls >> x) it.tape.push_back(x); items.push_back(it); }
    }
    if(items.empty()) return 3;
    // Writing the trace is work too: what counts is the run without it.
    const Outcome o = isolated(items, false);
    isolated(items, true);
    std::cout << lanes[replay_lane].log;
    if(!o.bad) { std::cout << "REPLAY clean\n"; return 0; }
    std::cout << "REPLAY " << o.tag << "\n" << o.text << "\n";
    return 10;
  }

  const u64 base = N("--seed", 1), variant = N("--variant", 0);
  const u64 first = N("--from", 0), runs = N("--runs", p->quick_runs), batch = std::min(p->batch, ITEMS_MAX);
  const double max_s = static_cast<double>(N("--max-seconds", 600));
  const auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  auto seed = [&](u64 i) { return seed_of(base, prop_id, variant, first + i); };
  // Every fourth batch stays with one schema and one kind of stream, so that what
  // a single instantiation keeps between casts has time to add up.
  auto focus_of = [&](u64 i) -> u64 {
    const u64 f = Tape::mix(seed_of(base, prop_id, variant, 0) ^ ((first + i) / batch + 1) * 0x9e37ull);
    return f % 4 ? 0 : f | 1;
  };
  const u64 batches = (runs + batch - 1) / batch;
  sh->next = 0;
  sh->stop_at = batches;
  pid_t pids[256];
  if(lanes_n > 256) return 3;
  for(u64 ln = 0; ln < lanes_n; ++ln) {
    pids[ln] = fork();
    if(pids[ln] == 0) {
      Lane& L = lanes[ln];
      for(;;) {
        const u64 b = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
        if(b >= batches || b >= __atomic_load_n(&sh->stop_at, __ATOMIC_SEQ_CST) || elapsed() > max_s) break;
        L.job.by_tape = L.job.trace = false;
        L.job.whole = true;
        L.job.limit_s = 300;
        L.job.n = std::min(runs, (b + 1) * batch) - b * batch;
        for(u64 i = 0; i < L.job.n; ++i) { L.job.seed[i] = seed(b * batch + i); L.job.focus[i] = focus_of(b * batch + i); }
        launch(*p, ln);
        if(WIFEXITED(L.status) && WEXITSTATUS(L.status) == 0) {
          auto count = [&](const char* k, u64 v) {
            u64 at = 0;
            while(at < L.total_n && std::strcmp(L.total[at].k, k)) ++at;
            if(at == STATS_MAX) return;
            if(at == L.total_n) { std::strncpy(L.total[at].k, k, sizeof L.total[0].k - 1); ++L.total_n; }
            L.total[at].v += v;
          };
          for(u64 i = 0; i < L.stats_n; ++i) count(L.stats[i].k, L.stats[i].v);
          count("runs", L.runs);
          count("choices", L.choices);
          if(L.overflows) count("tape_overflow", L.overflows);
          continue;
        }
        // No later batch is needed, but earlier ones still have to finish.
        L.failed = true;
        L.fail_batch = b;
        L.fail_run = b * batch + L.at;
        u64 s = __atomic_load_n(&sh->stop_at, __ATOMIC_SEQ_CST);
        while(b < s && !__atomic_compare_exchange_n(&sh->stop_at, &s, b, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
        break;
      }
      _exit(0);
    }
  }
  struct Fail { u64 run; std::string tag; };
  Stats total;
  std::vector<Fail> fails;
  for(u64 ln = 0; ln < lanes_n; ++ln) {
    waitpid(pids[ln], nullptr, 0);
    const Lane& L = lanes[ln];
    for(u64 i = 0; i < L.total_n; ++i) total.n[L.total[i].k] += L.total[i].v;
    if(!L.failed) continue;
    std::string tag = L.tag;
    if(!WIFEXITED(L.status) || WEXITSTATUS(L.status) != 10) {
      char err[512];
      err_file(err, ln);
      tag = crash_tag(L.status, slurp(err));
    }
    fails.push_back({L.fail_run, tag});
  }
  const double search_s = elapsed();
  u64 distinct = 0;
  for(u64 i = 0; i < BITS / 64; ++i) distinct += static_cast<u64>(__builtin_popcountll(distinct_bits[i]));
  u64 blocks = 0;
  for(std::size_t i = 0; i < cov_size; ++i) blocks += cov_map[i];

  std::ostringstream js;
  js << "{\"property\":" << jstr(prop_id) << ",\"seed\":" << base << ",\"variant\":" << variant << ",\"search_s\":" << search_s
     << ",\"distinct\":" << distinct << ",\"blocks\":" << blocks << ",\"schemas\":" << env.all.size() << ",\"stats\":{";
  bool comma = false;
  for(auto& [k, v] : total.n) { js << (comma ? "," : "") << jstr(k) << ":" << v; comma = true; }
  js << "}";

  int rc = 0;
  std::sort(fails.begin(), fails.end(), [](const Fail& x, const Fail& y) { return x.run < y.run; });
  for(const Fail& f : fails) {
    const u64 start = f.run / batch * batch;
    std::vector<Item> items{{true, seed(f.run), focus_of(f.run), {}}};
    Outcome o = isolated(items, false);
    u64 tries = 0;
    std::string mode = "tape";
    std::vector<Item> whole;
    if(o.bad) {
      std::vector<u64> tape(lanes[replay_lane].tape, lanes[replay_lane].tape + lanes[replay_lane].tape_n);
      const Outcome again = isolated({{false, 0, 0, tape}}, false);
      whole = items;
      if(again.bad && again.tag == o.tag) {
        tape = minimise(tape, o.tag, static_cast<double>(N("--min-seconds", 25)), tries);
        items = {{false, 0, 0, tape}};
      } else mode = "seed";
    } else {
      // The failure needs what earlier runs left behind in the process.
      mode = "history";
      items.clear();
      for(u64 i = start; i <= f.run; ++i) items.push_back({true, seed(i), focus_of(i), {}});
      whole = items;
      o = isolated(items, false);
      const auto t1 = elapsed();
      if(o.bad) {
        for(std::size_t n = std::max<std::size_t>(1, items.size() / 2); n >= 1 && tries < 400; n /= 2)
          for(std::size_t i = 0; i + n < items.size() && tries < 400 && elapsed() - t1 < 120;) {
            auto c = items;
            c.erase(c.begin() + i, c.begin() + i + n);
            ++tries;
            const Outcome q = isolated(c, false);
            if(q.bad && q.tag == o.tag) items = c;
            else i += n;
          }
      }
    }
    std::string text;
    auto steady = [&](const std::vector<Item>& it) {
      for(int k = 0; k < 2; ++k) {
        const Outcome q = isolated(it, false);
        if(!q.bad || q.tag != o.tag) return false;
        text = q.text;
      }
      return true;
    };
    bool stable = o.bad && steady(items);
    if(o.bad && !stable) { items = whole; stable = steady(items); }
    if(!stable && &f != &fails.back()) continue;
    std::string log;
    if(stable) { isolated(items, true); log = lanes[replay_lane].log; }
    js << ",\"violation\":{\"run\":" << f.run << ",\"tag\":" << jstr(stable ? o.tag : f.tag) << ",\"stable\":" << (stable ? "true" : "false")
       << ",\"mode\":" << jstr(mode) << ",\"tries\":" << tries << ",\"text\":" << jstr(text) << "}";
    if(stable && arg("--replay-out")) {
      std::ofstream out(arg("--replay-out"));
      out << "# property " << prop_id << "\n# violation " << o.tag << "\n# " ;
      for(char c : text) { out << c; if(c == '\n') out << "# "; }
      out << "\nproperty " << prop_id << "\ntag " << o.tag << "\nbase-seed " << base << "\nrun " << f.run << "\nvariant " << variant << "\nceiling " << env.default_ceiling << "\n";
      for(const auto& it : items) {
        if(it.by_seed) out << "seed " << it.seed << " " << it.focus << "\n";
        else { out << "tape"; for(u64 x : it.tape) out << " " << x; out << "\n"; }
      }
      out << "# trace of the minimised run\n";
      std::stringstream ls(log);
      std::string line;
      while(std::getline(ls, line)) out << "#   " << line << "\n";
    }
    rc = stable ? 10 : 11;
    break;
  }
  if(fails.empty() && N("--samples", 3)) {
    js << ",\"samples\":[";
    for(u64 i = 0; i < N("--samples", 3); ++i) {
      isolated({{true, seed(i), focus_of(i), {}}}, true);
      js << (i ? "," : "") << "{\"run\":" << i << ",\"seed\":" << seed(i) << ",\"trace\":" << jstr(std::string(lanes[replay_lane].log).substr(0, 1500)) << "}";
    }
    js << "]";
  }
  js << "}";
  std::cout << js.str() << "\n";
  return rc;
}
