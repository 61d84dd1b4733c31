// Runner-side declarations: choice tape, reference model, simulated world.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP

#include "val.hpp"

#include <ios>
#include <new>
#include <optional>
#include <stdexcept>
#include <variant>
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ tape
// Every decision of a run is one choose(). A seed expands into a tape; a tape
// replays exactly; 0 is always the simplest choice, so a shorter or smaller
// tape is a simpler run.
struct Tape {
  std::vector<u64> v;
  std::size_t pos = 0;
  bool live = false;      // true: draw from the generator and record
  u64 state = 0;
  u64 focus = 0;          // not 0: this run belongs to a batch that stays with one schema and stream
  std::size_t cap = 400000;
  bool overflow = false;
  u64* mirror = nullptr;  // shared memory that outlives a crash
  u64* mirror_n = nullptr;

  static u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  static Tape from_seed(u64 seed, u64 focus) {
    Tape t;
    t.live = true;
    t.state = seed;
    t.focus = focus;
    return t;
  }
  // Drawn like any other choice, but nearly always the same within a focused batch.
  u64 choose_steady(u64 n, u64 salt) {
    if(!live || !focus || n <= 1) return choose(n);
    const u64 was = state;
    if(mix(was ^ 0x5eed) % 16 == 0) return choose(n);
    return choose(n, mix(focus + salt) % n);
  }
  u64 choose(u64 n, u64 forced = ~0ull) {
    if(n <= 1) return 0;
    if(live) {
      if(v.size() >= cap) { overflow = true; return 0; }
      state += 0x9e3779b97f4a7c15ull;
      const u64 r = forced != ~0ull ? forced : mix(state) % n;
      if(mirror) { mirror[v.size()] = r; *mirror_n = v.size() + 1; }
      v.push_back(r);
      ++pos;
      return r;
    }
    if(pos >= v.size()) { ++pos; return 0; }
    return v[pos++] % n;
  }
  bool chance(u64 num, u64 den) { return choose(den) >= den - num; }   // 0 -> false
};

// ------------------------------------------------------------------ schema IR
struct Expr {
  enum Op { LIT, ARG, ADD, SUB, MUL, AND, OR, XOR, EQ, NE, LT, GT, LE, GE, SLT, SGT, SLE, SGE,
            DIV, MOD, SHL, SHR, LAND, LOR, NOT, SIZE, SUM, AT, HAS, VALUE, IDX, MEM, EMEM, BEQ, LEQ } op = LIT;
  u64 lit = 0;
  int arg = 0;
  std::vector<Expr> kids;
  std::string id;
  std::vector<u64> lits;
};

struct Fun {
  Expr e;
  std::vector<std::string> ids;
  std::vector<int> idx;
};

struct List;

struct Type {
  enum K { INT, ARR, RAW, REC, AREC, STR, VEC, VREC, UNION } k = INT;
  int tw = 0, sign = 0, w = 0;      // INT: type width, signedness (2 = float), wire width
  std::size_t count = 0;            // ARR elements, RAW bytes, AREC elements
  std::size_t group = 1;            // VEC: scalars per element
  std::string rec_name;
  const List* rec = nullptr;
  bool lf = false, lfs = false;     // size axis
  std::string len_id;
  int len_idx = -1;
  u64 len_top = 0;                  // largest length its field can spell, 0 if too large to try
  Fun size_fn;
  bool def_ceil = false;
  u64 ceil = 0;
  std::size_t esz = 1;              // in-memory element size
  // UNION
  int mode = 0;                     // 0 field, 1 compute, 2 ladder
  std::string disc_id;
  int disc_idx = -1;
  Fun input;
  int in_w = 8, in_sign = 0;
  struct Alt;
  std::vector<Alt> alts;
};

struct Type::Alt {
  u64 sel = 0;
  Fun pred;
  Type t;
  bool has_con = false;
  Expr con;
};

struct Field {
  std::string id;
  Type t;
  bool has_con = false;
  Expr con;
  bool len = false, clen = false, disc = false, frozen = false, maybe = false;
  Fun pred;
  std::vector<u64> hints;
  int vis = -1;                     // index among the visible fields
  std::vector<u64> edges;           // lengths worth trying
  std::vector<u64> cases;           // discriminant values
};

struct List {
  std::string name;
  std::vector<Field> f;
  int find(const std::string& id) const {
    for(std::size_t k = 0; k < f.size(); ++k) if(f[k].id == id) return static_cast<int>(k);
    return -1;
  }
};

struct Sch {
  const Ops* ops = nullptr;
  std::vector<std::unique_ptr<List>> lists;
  const List* root = nullptr;
  bool has_len = false, has_clen = false, has_disc = false, has_frozen = false, has_con = false, has_maybe = false,
       has_union = false, has_comp = false, has_rec = false, has_var = false, has_select = false, has_bigceil = false;
};

std::unique_ptr<Sch> parse_schema(const Ops& ops, u64 default_ceiling);

enum Reason { BUFFER_EXHAUSTION = 0, VALIDATION = 1, DEDUCTION = 2, CONTRADICTION = 3, EXCESSIVE = 4 };
const char* reason_name(int r);

// ------------------------------------------------------------------ model
struct Dec {
  bool ok = false;
  Val v;
  int reason = -1;
  int field = -1;             // root field index of the failure
  std::size_t pos = 0;        // bytes consumed (ok, or where the failing field stopped)
  std::size_t leaf_start = 0; // first byte of the read that failed (stream failure only)
  u64 max_alloc = 0;          // largest container footprint accepted before the end
  u64 sum_alloc = 0;
  u64 cap_alloc = 128;        // the largest single allocation that can be for one of them
  std::vector<std::size_t> bounds;   // start offset of every leaf read, in order
  std::vector<std::size_t> root_start;   // start offset of every root field reached
};
// Decodes w[0, limit); bytes beyond limit do not exist.
Dec decode(const Sch& s, bool be, const std::string& w, std::size_t limit, std::size_t start = 0);

struct EncFail {
  int field = -1;             // root field index
  std::set<int> reasons;
  std::size_t prefix = 0;     // bytes that reach the sink, exactly
};
struct Enc {
  bool ok = false;
  std::string bytes;          // whole encoding, or the prefix
  std::vector<EncFail> fails; // any one of these is a right answer
  struct Leaf { std::size_t start, end; int field; };
  std::vector<Leaf> leaves;
  bool discard = false;       // outside the specified domain
};
Enc encode(const Sch& s, bool be, const Val& v);

struct GenCfg {
  int len_max = 6;
  u64 p_violate = 0;          // of 16: keep a constraint-violating scalar
  u64 p_edge = 0;             // of 16: length at a ceiling edge
  u64 p_big = 0;              // of 64: a long container
  u64 p_huge = 0;             // of 16: a length far beyond anything sane
  u64 p_odd = 0;              // of 16: undeclared discriminant / selector
  bool mega = false;          // now and then a container of megabytes
  std::size_t max_wire = 600000;
};
std::string gen_wire(const Sch& s, bool be, Tape& t, const GenCfg& g);
bool gen_valid(const Sch& s, bool be, Tape& t, const GenCfg& g, std::string& wire, Dec& d);

// One random edit of a value tree; returns the visible root field it touched.
int mutate(const Sch& s, Val& v, Tape& t, bool over_wide);
// Brings everything that has to agree into agreement.
void repair(const Sch& s, Val& v, Tape& t);
// A fresh value tree, internally consistent where that is cheap.
Val gen_val(const Sch& s, Tape& t, bool over_wide);
void mask_ro(const List& l, Val& v);          // blank the read-only slots
void mask_ro(const Sch& s, Val& v);
std::string show(const Val& v, int depth = 0);
std::string hex(const std::string& s, std::size_t max = 96);
u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ull);
u64 shape_hash(const Val& v, u64 h);

// ------------------------------------------------------------------ world
// What streams and user callables throw: sometimes a type of their own,
// sometimes one a library might be tempted to take for its own doing.
struct Fault { int id; bool call; };
template <typename B>
struct FaultOf : B {
  Fault f;
  template <typename... A> explicit FaultOf(Fault f_, A... a) : B(a...), f(f_) {}
};
using RunFault = FaultOf<std::runtime_error>;
using LenFault = FaultOf<std::length_error>;
using MemFault = FaultOf<std::bad_alloc>;
using VarFault = FaultOf<std::bad_variant_access>;
using OptFault = FaultOf<std::bad_optional_access>;
using IosFault = FaultOf<std::ios_base::failure>;
[[noreturn]] void throw_fault(int id, bool call);

struct TaskCtx {
  int id = 0;
  void* task = nullptr;
  bool in_lib = false;
  u64 blocks = 0;
  u64 budget = 0;                   // basic blocks until preemption; 0 = never
  u64 allocs = 0, alloc_max = 0, alloc_total = 0;
  i64 alloc_fail_at = -1;
  u64 calls = 0;
  i64 call_throw_at = -1;
  int call_id = 0;
  i64 call_hook_at = -1;
  std::function<void()>* call_hook = nullptr;
  bool alloc_failed = false, call_failed = false;
};
extern thread_local TaskCtx* cur;
extern i64 live_tagged;             // library-made allocations still alive
extern u64 runaway_limit;

struct Stats {
  std::map<std::string, u64> n;
  void add(const char* k, u64 by = 1) { n[k] += by; }
};

struct Violation {
  std::string tag, text;
};

struct World;

struct Link : Port {
  World& w;
  std::string name;
  bool failed = false;
  int after_fail = 0;
  u64 ops = 0;
  enum Mode { OK, STOP, THROW } mode = OK;
  std::size_t limit = ~std::size_t{0};    // the first byte that cannot be moved
  int fault_id = 0;
  std::function<void()>* hook = nullptr;  // reentrant work inside a callback
  i64 hook_at = -1;
  void kill(int how) { born_dead = how; failed = true; }   // failed before the cast began
  Link(World& w_, std::string n) : w(w_), name(std::move(n)) {}
};

struct LinkIn : Link {
  std::string data;
  std::size_t pos = 0, avail = 0;
  bool starved = false;                   // asked for bytes that will never come
  bool closed = false;                    // the peer ended the stream: running out is a clean failure
  u64 reads = 0;
  using Link::Link;
  bool rd(char* d, std::size_t n) override;
  bool wr(const char*, std::size_t) override;
  int peek() override;
  std::size_t tell() const override { return pos; }
  std::string snapshot() override;
  std::size_t room() override { return 0; }
  void took(std::size_t n, bool bad) override;
  void gave(const std::string&, bool) override {}
};

struct LinkOut : Link {
  std::string sink;
  std::size_t window = ~std::size_t{0};   // bytes in flight before the writer has to wait
  std::size_t drained = 0;
  std::size_t partial = 0;                // a refused write may still take this many bytes
  using Link::Link;
  bool rd(char*, std::size_t) override;
  bool wr(const char* s, std::size_t n) override;
  int peek() override;
  std::size_t tell() const override { return sink.size(); }
  std::string snapshot() override { return {}; }
  std::size_t room() override { return mode == OK ? ~std::size_t{0} : limit - std::min(sink.size(), limit); }
  void took(std::size_t, bool) override {}
  void gave(const std::string& bytes, bool bad) override;
};

struct World {
  Tape& t;
  Stats& st;
  bool trace = false;
  std::string log;
  u64 now = 0;                      // simulated microseconds
  u64 sched_hash = 1469598103934665603ull;
  u64 state_hash = 1469598103934665603ull;
  bool nontrivial = false;
  std::vector<Violation> viols;
  std::vector<std::pair<std::string_view, std::string>> names;   // failed_at as returned, and a copy
  bool multi = false;
  bool preemptive = false;
  u64 switches = 0;

  struct Event { u64 at, seq; std::function<void()> run; };
  std::vector<Event> events;
  u64 seq = 0;

  World(Tape& t_, Stats& s) : t(t_), st(s) {}
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void mix(u64 x) { state_hash = hash_bytes(&x, sizeof x, state_hash); }
  void at(u64 delay, std::function<void()> f);
  void deliver(LinkIn& l, int frag);               // plan how the bytes of l arrive
  bool step_event();
  bool block(const std::function<bool()>& cond);   // current task waits; false: it never will
  void yield_point();                              // a place another task may run
  void run_tasks(const std::vector<std::function<void()>>& bodies);
};
extern World* world;

// A nested piece of user work gets its own counters.
struct FreshCtx {
  TaskCtx c;
  TaskCtx* old;
  FreshCtx();
  ~FreshCtx();
};

extern unsigned char* cov_map;            // basic blocks reached, shared between processes
constexpr std::size_t cov_size = 1u << 19;

// ------------------------------------------------------------------ sessions
struct Env {
  std::vector<std::unique_ptr<Sch>> all;
  std::map<std::string, Sch*> by_name;
  u64 default_ceiling = 16u * 1024u * 1024u;
};
extern Env env;

struct Prop {
  const char* id;
  void (*run)(World&);
  u64 quick_runs, batch;
  std::set<std::string> ignore;     // tags another property owns
};
const std::vector<Prop>& props();
const Prop* find_prop(const std::string& id);
}

#endif
