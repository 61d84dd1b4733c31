// Workloads and oracles, one per property.
#include "rt.hpp"

#include <algorithm>
#include <cstring>
#include <ios>
#include <new>

namespace sim {
namespace {

// ------------------------------------------------------------------ plumbing
struct Obj {
  const Sch* s = nullptr;
  void* p = nullptr;
  Obj() = default;
  Obj(const Sch& s_, void* p_) : s(&s_), p(p_) {}
  Obj(Obj&& o) noexcept : s(o.s), p(o.p) { o.p = nullptr; }
  Obj& operator=(Obj&& o) noexcept { reset(); s = o.s; p = o.p; o.p = nullptr; return *this; }
  ~Obj() { reset(); }
  void reset() { if(p) s->ops->destroy(p); p = nullptr; }
  Val val() const { Val v; s->ops->store(p, v); return v; }
};

struct Knobs {
  i64 alloc_fail_at = -1;
  i64 call_throw_at = -1;
  int call_id = 0;
  std::function<void()>* call_hook = nullptr;
  i64 call_hook_at = -1;
};

enum Exc { X_NONE, X_SIM, X_CALL, X_BAD, X_IOS, X_OTHER };

struct Cast {
  Exc exc = X_NONE;
  int exc_id = 0;
  std::string exc_what;
  bool ok = false;
  int reason = -1;
  std::string where;
  Obj obj;
  u64 alloc_max = 0, allocs = 0, calls = 0;
  bool alloc_failed = false, call_failed = false;
  bool std_stream = false, failed_after = false, eof_after = false, mask_kept = true, put_back = false;
};

__attribute__((noinline)) void scrub_stack() {
  volatile char b[6000];
  for(std::size_t i = 0; i < sizeof b; ++i) b[i] = static_cast<char>(0xEE);
}

void took(Cast& c, const Fault& f, int type) {
  if(f.id % 8 != type) { c.exc = X_OTHER; c.exc_what = "fault of another type"; return; }
  c.exc = f.call ? X_CALL : X_SIM;
  c.exc_id = f.id;
}

template <typename F>
void guarded(Cast& c, const Knobs& k, F f) {
  FreshCtx ctx;
  ctx.c.alloc_fail_at = k.alloc_fail_at;
  ctx.c.call_throw_at = k.call_throw_at;
  ctx.c.call_id = k.call_id;
  ctx.c.call_hook = k.call_hook;
  ctx.c.call_hook_at = k.call_hook_at;
  CastRes r;
  try { f(r); }
  catch(const Fault& e) { took(c, e, 0); }
  catch(const RunFault& e) { took(c, e.f, 1); }
  catch(const LenFault& e) { took(c, e.f, 2); }
  catch(const MemFault& e) { took(c, e.f, 3); }
  catch(const VarFault& e) { took(c, e.f, 4); }
  catch(const OptFault& e) { took(c, e.f, 5); }
  catch(const IosFault& e) { took(c, e.f, 6); }
  catch(int e) { took(c, Fault{e < 0 ? -e : e, e < 0}, 7); }
  catch(const std::bad_alloc&) { c.exc = X_BAD; }
  catch(const std::ios_base::failure&) { c.exc = X_IOS; }
  catch(const std::exception& e) { c.exc = X_OTHER; c.exc_what = e.what(); }
  catch(...) { c.exc = X_OTHER; c.exc_what = "unknown"; }
  ctx.c.in_lib = false;
  scrub_stack();
  c.ok = r.ok;
  c.reason = r.reason;
  c.std_stream = r.std_stream;
  c.failed_after = r.failed_after;
  c.eof_after = r.eof_after;
  c.mask_kept = r.mask_kept;
  c.put_back = r.put_back;
  if(c.exc == X_NONE && !c.ok) {
    c.where.assign(r.failed_at);
    if(world->names.size() < 64) world->names.push_back({r.failed_at, c.where});
  }
  c.alloc_max = ctx.c.alloc_max;
  c.allocs = ctx.c.allocs;
  c.calls = ctx.c.calls;
  c.alloc_failed = ctx.c.alloc_failed;
  c.call_failed = ctx.c.call_failed;
}

const char* kind_name(int k) { return k == K_CUSTOM ? "custom" : k == K_STD ? "iostream" : k == K_MEM ? "stringstream" : k == K_FILE ? "file" : "array"; }

// The stream is the caller's: it is left in the state its own operations put
// it in, so the caller sees there what the cast reported.
template <typename L>
void judge_state(World& w, const Cast& c, const L& l, const char* what) {
  if(!c.std_stream) return;
  if(!c.mask_kept) w.fail("S.mask", "%s: the cast left the stream with another exception mask", what);
  if(c.exc != X_NONE || l.born_dead) return;
  if(c.ok && (c.failed_after || c.eof_after)) w.fail("S.state", "%s: the cast succeeded and left the stream %s", what, c.failed_after ? "failed" : "at its end");
  if(!c.ok && c.reason == BUFFER_EXHAUSTION && !c.failed_after) w.fail("S.state", "%s: the cast reports an exhausted stream and left it in good state", what);
  if(!c.ok && c.reason == BUFFER_EXHAUSTION && c.put_back) w.fail("S.state", "%s: the cast ran into the end of the stream and moved it back", what);
}

// A failed cast's failed_at is the caller's to keep.
void judge_names(World& w) {
  for(const auto& [view, was] : w.names)
    if(view != was) { w.fail("NAME.changed", "failed_at said '%s' when the cast failed and says '%.64s' later", was.c_str(), std::string(view).c_str()); return; }
}

std::string outcome(const Cast& c) {
  switch(c.exc) {
    case X_SIM: return "exception from the stream " + std::to_string(c.exc_id);
    case X_CALL: return "exception from a callable " + std::to_string(c.exc_id);
    case X_BAD: return "exception bad_alloc";
    case X_IOS: return "exception ios_base::failure";
    case X_OTHER: return "exception " + c.exc_what;
    default: break;
  }
  if(c.ok) return "ok";
  return std::string(reason_name(c.reason)) + " at '" + c.where + "'";
}

Cast do_read(World& w, const Sch& s, int kind, bool be, LinkIn& l, const Knobs& k = {}) {
  Cast c;
  const std::size_t from = l.pos;
  guarded(c, k, [&](CastRes& r) { c.obj = Obj(s, s.ops->read(kind, be, l, r)); });
  judge_state(w, c, l, s.ops->name);
  w.note("read %s %s %s: %s, bytes %zu..%zu", s.ops->name, be ? "be" : "le", kind_name(kind), outcome(c).c_str(), from, l.pos);
  w.mix(c.ok * 64 + c.reason + 8 * c.exc);
  w.mix(hash_bytes(c.where.data(), c.where.size()));
  return c;
}

Cast do_write(World& w, const Sch& s, int kind, bool be, LinkOut& l, const void* o, const Knobs& k = {}) {
  Cast c;
  const std::size_t from = l.sink.size();
  guarded(c, k, [&](CastRes& r) { s.ops->write(kind, be, l, o, r); });
  judge_state(w, c, l, s.ops->name);
  w.note("write %s %s %s: %s, bytes %zu..%zu", s.ops->name, be ? "be" : "le", kind_name(kind), outcome(c).c_str(), from, l.sink.size());
  w.mix(c.ok * 64 + c.reason + 8 * c.exc + 1024);
  w.mix(hash_bytes(c.where.data(), c.where.size()));
  return c;
}

Sch& pick(World& w, bool (*want)(const Sch&)) {
  static std::map<void*, std::vector<Sch*>> cache;
  auto& v = cache[reinterpret_cast<void*>(want)];
  if(v.empty()) for(auto& s : env.all) if(want(*s)) v.push_back(s.get());
  if(v.empty()) for(auto& s : env.all) v.push_back(s.get());
  Sch& s = *v[w.t.choose_steady(v.size(), 1)];
  w.mix(hash_bytes(s.ops->name, std::strlen(s.ops->name)));
  return s;
}
bool any(const Sch&) { return true; }
bool pick_be(World& w, const Sch& s) { return s.ops->le_only ? false : w.t.choose_steady(2, 2) != 0; }
int pick_kind(World& w) { return static_cast<int>(w.t.choose_steady(K_COUNT, 3)); }

// Name of a root field.
const std::string& fid(const Sch& s, int i) {
  static const std::string none = "?";
  return i < 0 ? none : s.root->f[i].id;
}

// ------------------------------------------------------------------ oracles
// d: the verdict of the model on exactly the bytes this read could see.
void judge_read(World& w, const Sch& s, const Cast& c, const LinkIn& l, const Dec& d, std::size_t start, bool be, int kind) {
  w.st.add("check.read");
  char ctx[160];
  std::snprintf(ctx, sizeof ctx, "%s/%s/%s", s.ops->name, be ? "be" : "le", kind_name(kind));
  if(c.exc != X_NONE) {
    w.fail("R.exc", "%s: read raised %s; the model says %s", ctx, outcome(c).c_str(), d.ok ? "ok" : reason_name(d.reason));
    return;
  }
  if(l.starved) {
    w.fail("R.starve", "%s: the read asked for bytes past what the message holds (at %zu of %zu)", ctx, l.pos, l.data.size());
    return;
  }
  if(d.ok) {
    if(!c.ok) {
      w.fail("R.spurious", "%s: valid message rejected: %s; wire %s", ctx, outcome(c).c_str(), hex(l.data.substr(start)).c_str());
      return;
    }
    const Val got = c.obj.val();
    if(got != d.v)
      w.fail("R.value", "%s: read gave %s, the wire says %s; wire %s", ctx, show(got).c_str(), show(d.v).c_str(), hex(l.data.substr(start)).c_str());
    if(l.pos != d.pos)
      w.fail("R.consumed", "%s: read consumed %zu bytes of a %zu-byte message", ctx, l.pos - start, d.pos - start);
    w.mix(shape_hash(d.v, 7));
  } else {
    w.mix(100 + d.reason + 16 * d.field);
    if(c.ok) {
      w.fail("R.accepted", "%s: read accepted what must fail with %s at '%s'; gave %s; wire %s", ctx, reason_name(d.reason), fid(s, d.field).c_str(),
             show(c.obj.val()).c_str(), hex(l.data.substr(start)).c_str());
      return;
    }
    if(c.reason != d.reason)
      w.fail("R.reason", "%s: read reported %s, expected %s at '%s'; wire %s", ctx, outcome(c).c_str(), reason_name(d.reason), fid(s, d.field).c_str(), hex(l.data.substr(start)).c_str());
    if(c.where != fid(s, d.field))
      w.fail("R.where", "%s: read reported %s, expected %s at '%s'; wire %s", ctx, outcome(c).c_str(), reason_name(d.reason), fid(s, d.field).c_str(), hex(l.data.substr(start)).c_str());
    if(d.reason != BUFFER_EXHAUSTION) {
      if(l.pos != d.pos)
        w.fail("R.pos", "%s: %s reported after %zu bytes, expected after %zu", ctx, reason_name(d.reason), l.pos - start, d.pos - start);
    } else if(l.pos < d.root_start[d.field] || l.pos > std::max(l.data.size(), l.limit)) {
      w.fail("R.pos", "%s: stream failed in field '%s' but only %zu bytes were read", ctx, fid(s, d.field).c_str(), l.pos - start);
    }
  }
  if(l.after_fail > (l.born_dead ? 1 : 0)) w.fail("R.after-fail", "%s: %d more reads after the stream had failed", ctx, l.after_fail);
  if(l.born_dead && l.pos != start) w.fail("R.dead", "%s: %zu bytes taken from a stream that had already failed", ctx, l.pos - start);
  if(c.alloc_max > d.cap_alloc)
    w.fail("R.alloc", "%s: one allocation of %llu bytes; the largest container accepted needs %llu, and no ceiling allows more than %llu", ctx, c.alloc_max, d.max_alloc, d.cap_alloc);
}

const Enc::Leaf* leaf_at(const Enc& e, std::size_t byte) {
  for(const auto& l : e.leaves) if(l.start <= byte && byte < l.end) return &l;
  return nullptr;
}

// Which part of the wire a field covers, for messages only.
void judge_write(World& w, const Sch& s, const Cast& c, const LinkOut& l, const Enc& e, const Val& v, bool be, int kind) {
  w.st.add("check.write");
  char ctx[160];
  std::snprintf(ctx, sizeof ctx, "%s/%s/%s", s.ops->name, be ? "be" : "le", kind_name(kind));
  if(e.discard) { w.st.add("discard"); return; }
  if(c.exc != X_NONE) {
    w.fail("W.exc", "%s: write raised %s", ctx, outcome(c).c_str());
    return;
  }
  const std::size_t lim = l.born_dead ? 0 : l.mode == Link::OK ? ~std::size_t{0} : l.limit;
  const std::size_t whole = e.ok ? e.bytes.size() : 0;
  w.mix(shape_hash(v, 11));
  if(l.after_fail > (l.born_dead ? 1 : 0)) w.fail("W.after-fail", "%s: %d more writes after the stream had refused one", ctx, l.after_fail);

  auto exhausted = [&](bool report) -> bool {
    const Enc::Leaf* lf = leaf_at(e, lim);
    const bool ok_sink = lf && l.sink.size() >= lf->start && l.sink.size() <= lim && e.bytes.compare(0, l.sink.size(), l.sink) == 0;
    const bool good = !c.ok && c.reason == BUFFER_EXHAUSTION && lf && c.where == fid(s, lf->field) && ok_sink;
    if(good || !report) return good;
    if(c.ok) w.fail("W.lost", "%s: write reported success although the stream refused byte %zu of %zu", ctx, lim, e.bytes.size());
    else {
      if(c.reason != BUFFER_EXHAUSTION)
        w.fail("W.reason", "%s: stream refused byte %zu but write reported %s", ctx, lim, outcome(c).c_str());
      if(lf && c.where != fid(s, lf->field))
        w.fail("W.where", "%s: stream refused byte %zu, in field '%s', but write reported %s", ctx, lim, fid(s, lf->field).c_str(), outcome(c).c_str());
    }
    if(!ok_sink)
      w.fail("W.prefix", "%s: stream refused byte %zu; it holds %s, the encoding is %s", ctx, lim, hex(l.sink).c_str(), hex(e.bytes).c_str());
    return false;
  };

  if(e.ok) {
    if(lim < whole) { w.mix(200); exhausted(true); return; }
    if(!c.ok) {
      w.fail("W.spurious", "%s: consistent struct rejected: %s; value %s", ctx, outcome(c).c_str(), show(v).c_str());
      return;
    }
    if(l.sink != e.bytes)
      w.fail("W.bytes", "%s: wrote %s, the encoding is %s; value %s", ctx, hex(l.sink).c_str(), hex(e.bytes).c_str(), show(v).c_str());
    return;
  }
  for(const auto& f : e.fails) {
    if(lim < f.prefix) { if(exhausted(false)) return; continue; }
    if(!c.ok && f.reasons.count(c.reason) && c.where == fid(s, f.field) && l.sink.size() == f.prefix &&
       e.bytes.compare(0, f.prefix, l.sink) == 0)
      { w.mix(300 + c.reason); return; }
  }
  const auto& f = e.fails[0];
  if(lim < f.prefix) { exhausted(true); return; }
  std::string why;
  for(int r : f.reasons) { if(!why.empty()) why += "|"; why += reason_name(r); }
  if(c.ok) {
    w.fail("W.accepted", "%s: write accepted what must fail with %s at '%s'; wrote %s; value %s", ctx, why.c_str(), fid(s, f.field).c_str(), hex(l.sink).c_str(), show(v).c_str());
    return;
  }
  if(!f.reasons.count(c.reason))
    w.fail("W.reason", "%s: write reported %s, expected %s at '%s'; value %s", ctx, outcome(c).c_str(), why.c_str(), fid(s, f.field).c_str(), show(v).c_str());
  if(c.where != fid(s, f.field))
    w.fail("W.where", "%s: write reported %s, expected %s at '%s'; value %s", ctx, outcome(c).c_str(), why.c_str(), fid(s, f.field).c_str(), show(v).c_str());
  if(l.sink.size() != f.prefix || e.bytes.compare(0, f.prefix, l.sink) != 0)
    w.fail("W.prefix", "%s: rejected write (%s) left %s in the stream, expected %s", ctx, outcome(c).c_str(), hex(l.sink).c_str(), hex(e.bytes.substr(0, f.prefix)).c_str());
}

// Writes o, whose value tree is v, judges it, and checks o was left alone.
Cast write_judged(World& w, const Sch& s, const Obj& o, const Val& v, bool be, int kind, LinkOut& l) {
  const Val before = o.val();
  Cast c = do_write(w, s, kind, be, l, o.p);
  if(o.val() != before)
    w.fail("W.src", "%s: write changed the struct it was given: %s became %s", s.ops->name, show(before).c_str(), show(o.val()).c_str());
  judge_write(w, s, c, l, encode(s, be, v), v, be, kind);
  return c;
}

Obj build(const Sch& s, const Val& v) {
  Obj o(s, s.ops->make());
  s.ops->load(o.p, v);
  return o;
}

GenCfg mild(World& w, bool mega = true) {
  GenCfg g;
  g.mega = mega;
  g.p_edge = 1;
  g.p_big = w.t.chance(1, 8) ? 6 : 0;
  g.len_max = w.t.choose(3) ? 5 : 12;
  g.p_odd = w.t.choose(3);
  return g;
}

void window(World& w, LinkOut& l) {
  if(w.t.chance(1, 3)) l.window = 1 + w.t.choose(16);
}

// A position worth failing at: leaf boundaries and their neighbours.
std::size_t fault_pos(World& w, const std::vector<std::size_t>& bounds, std::size_t len) {
  if(len == 0) return 0;
  if(bounds.empty() || w.t.choose(3) == 0) return w.t.choose(len);
  const std::size_t b = bounds[w.t.choose(bounds.size())];
  const std::size_t d = w.t.choose(3);
  const std::size_t p = d == 0 ? b : d == 1 ? b + 1 : b ? b - 1 : 0;
  return std::min(p, len - 1);
}

// ------------------------------------------------------------------ C01
void run_c01(World& w) {
  const int n = 1 + static_cast<int>(w.t.choose(3));
  const int frag = static_cast<int>(w.t.choose(4));
  const bool lockstep = w.t.choose(2);
  const std::size_t junk = w.t.choose(3);
  struct M { Sch* s; bool be; int kind; std::string wire; Dec d; };
  std::vector<M> ms;
  for(int i = 0; i < n; ++i) {
    M m;
    m.s = &pick(w, any);
    m.be = pick_be(w, *m.s);
    m.kind = pick_kind(w);
    const GenCfg g = mild(w);
    if(!gen_valid(*m.s, m.be, w.t, g, m.wire, m.d)) { w.st.add("discard"); continue; }
    m.wire.resize(m.d.pos);
    ms.push_back(std::move(m));
  }
  LinkIn l(w, "wire");
  std::size_t at = 0;
  if(!lockstep) {
    for(auto& m : ms) l.data += m.wire;
    l.data.append(junk, '\x7f');
    w.deliver(l, frag);
  }
  for(auto& m : ms) {
    if(lockstep) {
      // The peer sends the next message only after this one was understood.
      LinkIn one(w, "wire");
      one.data = m.wire;
      w.deliver(one, frag);
      const Cast c = do_read(w, *m.s, m.kind, m.be, one);
      judge_read(w, *m.s, c, one, m.d, 0, m.be, m.kind);
      continue;
    }
    const Dec d = decode(*m.s, m.be, l.data, l.data.size(), at);
    const Cast c = do_read(w, *m.s, m.kind, m.be, l);
    judge_read(w, *m.s, c, l, d, at, m.be, m.kind);
    if(!w.viols.empty()) break;
    at = d.pos;
  }
  w.events.clear();
  w.nontrivial = !ms.empty() && (n > 1 || frag);
}

// ------------------------------------------------------------------ C02
// Whether the first thing this message makes a read do is ask for a byte.
bool dead_read_ok(const Sch& s, bool be, const std::string& wire) {
  const Dec d = decode(s, be, wire, 0);
  return !d.ok && d.reason == BUFFER_EXHAUSTION && d.bounds.size() <= 1;
}
bool dead_write_ok(const Enc& e) {
  return !e.discard && (e.leaves.empty() ? !e.ok : e.leaves[0].end > e.leaves[0].start);
}

void run_c02(World& w) {
  Sch& s = pick(w, any);
  const bool be = pick_be(w, s);
  std::string wire;
  Dec d;
  const GenCfg g = mild(w);
  if(!gen_valid(s, be, w.t, g, wire, d)) { w.st.add("discard"); return; }
  wire.resize(d.pos);
  const int rounds = 1 + static_cast<int>(w.t.choose(3));
  for(int r = 0; r < rounds; ++r) {
    const int kind = pick_kind(w);
    LinkIn l(w, "wire");
    l.data = wire;
    std::size_t cut = fault_pos(w, d.bounds, wire.size());
    if(w.t.chance(1, 10)) cut = wire.size();      // just late enough to do no harm
    if(w.t.choose(2)) { l.data.resize(cut); l.closed = true; }
    else { l.mode = Link::STOP; l.limit = cut; l.data.append(3, '\x11'); }
    if(w.t.chance(1, 12) && dead_read_ok(s, be, wire)) {
      cut = 0;
      l.mode = Link::OK;
      l.data = wire;
      l.closed = true;
      l.kill(1 + static_cast<int>(w.t.choose(3)));
      w.st.add("stream.dead.read");
    }
    w.deliver(l, static_cast<int>(w.t.choose(3)));
    const Dec want = decode(s, be, wire, cut);
    const Cast c = do_read(w, s, kind, be, l);
    judge_read(w, s, c, l, want, 0, be, kind);
    w.events.clear();
    w.nontrivial |= !want.ok;
  }
  // Once the faults stop, the same bytes read back whole.
  LinkIn l(w, "retry");
  l.data = wire;
  w.deliver(l, static_cast<int>(w.t.choose(2)));
  const int kind = pick_kind(w);
  const Cast c = do_read(w, s, kind, be, l);
  judge_read(w, s, c, l, d, 0, be, kind);
  w.events.clear();
}

// ------------------------------------------------------------------ C03
bool make_value(World& w, const Sch& s, bool be, Val& v) {
  if(w.t.choose(3)) {
    std::string wire;
    Dec d;
    const GenCfg g = mild(w);
    if(!gen_valid(s, be, w.t, g, wire, d)) return false;
    v = d.v;
    return true;
  }
  v = gen_val(s, w.t, false);
  return true;
}

void run_c03(World& w) {
  Sch& s = pick(w, any);
  Val v;
  const bool be = pick_be(w, s);
  if(!make_value(w, s, be, v)) { w.st.add("discard"); return; }
  const Obj o = build(s, v);
  const int rounds = 1 + static_cast<int>(w.t.choose(2));
  for(int r = 0; r < rounds; ++r) {
    const bool b = r ? pick_be(w, s) : be;
    LinkOut l(w, "out");
    window(w, l);
    const int kind = pick_kind(w);
    write_judged(w, s, o, v, b, kind, l);
  }
  w.nontrivial = encode(s, be, v).ok;
}

// ------------------------------------------------------------------ C04
void run_c04(World& w) {
  Sch& s = pick(w, any);
  Val v;
  const bool be = pick_be(w, s);
  if(!make_value(w, s, be, v)) { w.st.add("discard"); return; }
  const Obj o = build(s, v);
  const Enc e = encode(s, be, v);
  std::vector<std::size_t> bounds;
  for(const auto& lf : e.leaves) bounds.push_back(lf.start);
  const int rounds = 1 + static_cast<int>(w.t.choose(3));
  for(int r = 0; r < rounds; ++r) {
    LinkOut l(w, "out");
    window(w, l);
    l.mode = Link::STOP;
    l.limit = fault_pos(w, bounds, e.bytes.size());
    if(w.t.chance(1, 10)) l.limit = e.bytes.size();
    l.partial = w.t.choose(3);
    if(w.t.chance(1, 12) && dead_write_ok(e)) {
      l.mode = Link::OK;
      l.kill(1 + static_cast<int>(w.t.choose(2)));
      w.st.add("stream.dead.write");
    }
    const int kind = pick_kind(w);
    write_judged(w, s, o, v, be, kind, l);
    w.nontrivial |= l.failed;
  }
  LinkOut l(w, "retry");
  const int kind = pick_kind(w);
  write_judged(w, s, o, v, be, kind, l);
}

// ------------------------------------------------------------------ C05
void run_c05(World& w) {
  Sch& s = pick(w, [](const Sch& x) { return x.has_con || x.has_clen || x.has_comp || x.has_maybe || x.has_select || x.has_len; });
  Val v;
  const bool be = pick_be(w, s);
  if(!make_value(w, s, be, v)) { w.st.add("discard"); return; }
  for(int k = 0; k < 8; ++k) {
    mutate(s, v, w.t, true);
    if(k && !encode(s, be, v).ok) break;
  }
  Obj o = build(s, v);
  {
    LinkOut l(w, "out");
    window(w, l);
    const Enc e = encode(s, be, v);
    if(w.t.chance(1, 4)) {
      l.mode = Link::STOP;
      l.limit = w.t.choose(e.bytes.size() + 3);
      l.partial = w.t.choose(3);
    }
    const int kind = pick_kind(w);
    const Cast c = write_judged(w, s, o, v, be, kind, l);
    w.nontrivial = !e.ok;
    // What did reach the stream is the start of the encoding of the fields
    // before the rejected one: reading it back runs dry there and nowhere else.
    if(!e.ok && !e.discard && !c.ok && !l.failed && w.viols.empty()) {
      LinkIn in(w, "prefix");
      in.data = l.sink;
      in.closed = true;
      w.deliver(in, 0);
      const Dec d = decode(s, be, in.data, in.data.size());
      const int k2 = pick_kind(w);
      const Cast rc = do_read(w, s, k2, be, in);
      judge_read(w, s, rc, in, d, 0, be, k2);
    }
  }
  repair(s, v, w.t);
  s.ops->load(o.p, v);
  LinkOut l(w, "repaired");
  const int kind = pick_kind(w);
  write_judged(w, s, o, v, be, kind, l);
}

// ------------------------------------------------------------------ C06
void run_c06(World& w) {
  Sch& s = pick(w, any);
  bool be = pick_be(w, s);
  std::string wire;
  Dec d;
  if(w.t.choose(3)) {
    const GenCfg g = mild(w);
    if(!gen_valid(s, be, w.t, g, wire, d)) { w.st.add("discard"); return; }
    wire.resize(d.pos);
  } else {
    // Start from a struct instead: write first.
    Val v = gen_val(s, w.t, false);
    const Obj o = build(s, v);
    LinkOut l(w, "first");
    const int kind = pick_kind(w);
    const Cast c = do_write(w, s, kind, be, l, o.p);
    if(c.exc != X_NONE || !c.ok) { w.st.add("discard"); return; }
    wire = l.sink;
    LinkIn in(w, "back");
    in.data = wire;
    in.closed = true;
    w.deliver(in, static_cast<int>(w.t.choose(3)));
    const int k2 = pick_kind(w);
    const Cast r = do_read(w, s, k2, be, in);
    w.events.clear();
    if(encode(s, be, v).discard) { w.st.add("discard"); return; }
    {
      // A ceiling binds readers only: a struct larger than it goes out but not in.
      const Dec dd = decode(s, be, wire, wire.size());
      if(!dd.ok && dd.reason == EXCESSIVE) { w.st.add("discard"); return; }
    }
    if(r.exc != X_NONE || !r.ok) {
      w.fail("RT.lost", "%s/%s: what was written does not read back: %s; wire %s; value %s", s.ops->name, be ? "be" : "le", outcome(r).c_str(), hex(wire).c_str(), show(v).c_str());
      return;
    }
    Val a = v, b = r.obj.val();
    mask_ro(s, a);
    mask_ro(s, b);
    if(a != b) { w.fail("RT.value", "%s/%s: wrote %s, read back %s; wire %s", s.ops->name, be ? "be" : "le", show(a).c_str(), show(b).c_str(), hex(wire).c_str()); return; }
    if(in.pos != wire.size()) { w.fail("RT.consumed", "%s: read back %zu of %zu bytes", s.ops->name, in.pos, wire.size()); return; }
  }
  const std::string original = wire;
  const bool be0 = be;
  const int hops = 1 + static_cast<int>(w.t.choose(4));
  Val first;
  bool have = false;
  for(int h = 0; h <= hops; ++h) {
    LinkIn in(w, "in");
    in.data = wire;
    in.closed = true;
    const int kin = pick_kind(w);
    if(w.t.chance(1, 4) && !wire.empty()) {      // a failed attempt first
      LinkIn bad(w, "broken");
      bad.data = wire;
      bad.mode = Link::STOP;
      bad.limit = w.t.choose(wire.size());
      w.deliver(bad, 0);
      const Cast c = do_read(w, s, kin, be, bad);
      if(c.exc == X_NONE && c.ok) w.fail("RT.torn", "%s: a read that lost byte %zu of %zu succeeded", s.ops->name, bad.limit, wire.size());
    }
    w.deliver(in, static_cast<int>(w.t.choose(3)));
    const Cast r = do_read(w, s, kin, be, in);
    w.events.clear();
    if(r.exc != X_NONE || !r.ok || in.pos != wire.size()) {
      w.fail("RT.lost", "%s/%s hop %d: its own output does not read back: %s at %zu of %zu; wire %s", s.ops->name, be ? "be" : "le", h, outcome(r).c_str(), in.pos, wire.size(), hex(wire).c_str());
      return;
    }
    const Val v = r.obj.val();
    if(!have) { first = v; have = true; }
    else if(v != first) { w.fail("RT.value", "%s/%s hop %d: value changed on the way: %s became %s", s.ops->name, be ? "be" : "le", h, show(first).c_str(), show(v).c_str()); return; }
    const bool nbe = h == hops ? be0 : pick_be(w, s);
    LinkOut out(w, "out");
    window(w, out);
    const int kout = pick_kind(w);
    if(w.t.chance(1, 4) && !wire.empty()) {
      LinkOut bad(w, "full");
      bad.mode = Link::STOP;
      bad.limit = w.t.choose(wire.size());
      bad.partial = w.t.choose(3);
      const Cast c = do_write(w, s, kout, nbe, bad, r.obj.p);
      if(c.exc == X_NONE && c.ok) w.fail("RT.torn", "%s: a write that lost byte %zu of %zu succeeded", s.ops->name, bad.limit, wire.size());
    }
    const Cast c = do_write(w, s, kout, nbe, out, r.obj.p);
    if(c.exc != X_NONE || !c.ok) {
      w.fail("RT.unwritable", "%s/%s hop %d: a struct that was read cannot be written: %s; value %s", s.ops->name, nbe ? "be" : "le", h, outcome(c).c_str(), show(v).c_str());
      return;
    }
    wire = out.sink;
    be = nbe;
  }
  if(wire != original)
    w.fail("RT.bytes", "%s/%s: %s came back as %s", s.ops->name, be0 ? "be" : "le", hex(original).c_str(), hex(wire).c_str());
  w.nontrivial = true;
  w.mix(shape_hash(first, 3));
  w.mix(hops);
}

// An assignment to a union threw and left it without a value. Such a struct is
// rejected before any byte of the union, and assigning again mends it.
void without_value(World& w, const Sch& s, Obj& o, const Val& v) {
  std::vector<int> us;
  for(std::size_t k = 0; k < s.root->f.size(); ++k) if(s.root->f[k].t.k == Type::UNION && s.root->f[k].vis >= 0) us.push_back(static_cast<int>(k));
  if(us.empty()) return;
  const int u = us[w.t.choose(us.size())];
  const bool be = pick_be(w, s);
  const int kind = pick_kind(w);
  const int vis = s.root->f[u].vis;
  if(!s.ops->spoil(o.p, vis)) return;
  w.note("an assignment to '%s' throws and leaves it without a value", fid(s, u).c_str());
  w.st.add("op.valueless");
  LinkOut l(w, "out");
  const Enc e = encode(s, be, v);
  const Cast c = do_write(w, s, kind, be, l, o.p);
  const int at = c.exc == X_NONE && !c.ok ? s.root->find(c.where) : -1;
  if(c.exc != X_NONE || c.ok)
    w.fail("W.valueless", "%s/%s: '%s' has no value and the write gives %s", s.ops->name, be ? "be" : "le", fid(s, u).c_str(), outcome(c).c_str());
  else if(c.reason == BUFFER_EXHAUSTION || at < 0 || at > u)
    w.fail("W.valueless", "%s/%s: '%s' has no value and the write is rejected with %s", s.ops->name, be ? "be" : "le", fid(s, u).c_str(), outcome(c).c_str());
  else if(!e.discard) {
    const std::size_t n = std::min(l.sink.size(), e.bytes.size());
    if(l.sink.compare(0, n, e.bytes, 0, n) != 0)
      w.fail("W.prefix", "%s/%s: '%s' has no value and the write left %s, not a start of %s", s.ops->name, be ? "be" : "le", fid(s, u).c_str(), hex(l.sink).c_str(), hex(e.bytes).c_str());
  }
  s.ops->load1(o.p, vis, v.kids[vis]);
}

// ------------------------------------------------------------------ C07, C08
// A live struct edited over and over; every write is judged against the data
// it holds at that moment.
void history(World& w, bool (*want)(const Sch&), u64 repair_of_4, bool over_wide) {
  Sch& s = pick(w, want);
  const bool be0 = pick_be(w, s);
  Val v;
  Obj o;
  const u64 origin = w.t.choose(3);
  if(origin == 0) {
    if(!make_value(w, s, be0, v)) { w.st.add("discard"); return; }
    o = build(s, v);
  } else if(origin == 1) {
    v = gen_val(s, w.t, over_wide);
    o = build(s, v);
  } else {
    std::string wire;
    Dec d;
    const GenCfg g = mild(w);
    if(!gen_valid(s, be0, w.t, g, wire, d)) { w.st.add("discard"); return; }
    LinkIn l(w, "in");
    l.data = wire;
    w.deliver(l, 0);
    Cast c = do_read(w, s, K_CUSTOM, be0, l);
    if(c.exc != X_NONE || !c.ok || c.obj.val() != d.v) { w.st.add("discard"); return; }
    o = std::move(c.obj);
    v = d.v;
  }
  const int steps = 1 + static_cast<int>(w.t.choose(7));
  for(int k = 0; k < steps && w.viols.empty(); ++k) {
    const u64 op = w.t.choose(8);
    if(op == 7) {
      const int how = static_cast<int>(w.t.choose(4));
      w.note("%s the struct, drop the original", how == 0 ? "copy" : how == 1 ? "move" : how == 2 ? "copy-assign" : "move-assign");
      Obj c(s, s.ops->renew(o.p, how));
      o = std::move(c);
      w.st.add("op.copy");
    } else if(op >= 4) {
      const int n = 1 + static_cast<int>(w.t.choose(2));
      for(int i = 0; i < n; ++i) {
        const int f = mutate(s, v, w.t, over_wide);
        if(f >= 0) s.ops->load1(o.p, f, v.kids[f]);
        w.note("edit visible field #%d -> %s", f, f >= 0 ? show(v.kids[f]).c_str() : "");
        w.st.add("op.edit");
      }
      if(w.t.choose(4) < repair_of_4) {
        repair(s, v, w.t);
        s.ops->load(o.p, v);
        w.note("bring the struct into agreement: %s", show(v).c_str());
      }
    }
    if(s.has_union && w.t.chance(1, 12)) without_value(w, s, o, v);
    const bool be = pick_be(w, s);
    LinkOut l(w, "out");
    window(w, l);
    if(w.t.chance(1, 8)) {
      const Enc e = encode(s, be, v);
      l.mode = Link::STOP;
      l.limit = w.t.choose(e.bytes.size() + 1);
      l.partial = w.t.choose(2);
    }
    const int kind = pick_kind(w);
    write_judged(w, s, o, v, be, kind, l);
    w.mix(op);
  }
  w.nontrivial = steps > 1;
}

void run_c07(World& w) { history(w, [](const Sch& s) { return s.has_len || s.has_disc; }, 3, true); }
void run_c08(World& w) { history(w, [](const Sch& s) { return s.has_clen || s.has_comp || s.has_maybe || s.has_select; }, 2, true); }

// ------------------------------------------------------------------ C09
void run_c09(World& w) {
  Sch& s = pick(w, [](const Sch& x) { return x.has_var; });
  const bool be = pick_be(w, s);
  GenCfg g;
  g.len_max = 3;
  g.p_edge = 3 + w.t.choose(6);
  g.p_huge = w.t.choose(8);
  g.p_odd = w.t.choose(6);
  g.p_big = 1;
  g.mega = w.t.chance(1, 50);
  std::string wire = gen_wire(s, be, w.t, g);
  const int kind = pick_kind(w);
  LinkIn l(w, "hostile");
  l.data = wire;
  l.data.append(w.t.choose(24), '\x01');
  l.closed = true;
  w.deliver(l, static_cast<int>(w.t.choose(2)));
  const Dec d = decode(s, be, l.data, l.data.size());
  Knobs k;
  if(d.max_alloc > (1u << 26)) { w.events.clear(); w.st.add("discard"); return; }
  const Cast c = do_read(w, s, kind, be, l, k);
  judge_read(w, s, c, l, d, 0, be, kind);
  w.events.clear();
  if(d.reason == EXCESSIVE) w.st.add("outcome.excessive_length");
  w.nontrivial = d.reason == EXCESSIVE || d.max_alloc > 0;
  // A refused length leaves nothing behind: a sane message still reads.
  if(w.t.chance(1, 3)) {
    std::string ok;
    Dec d2;
    GenCfg g2;
    if(gen_valid(s, be, w.t, g2, ok, d2)) {
      LinkIn l2(w, "sane");
      l2.data = ok;
      w.deliver(l2, 0);
      const Cast c2 = do_read(w, s, kind, be, l2);
      judge_read(w, s, c2, l2, d2, 0, be, kind);
    }
  }
}

// ------------------------------------------------------------------ C10
void run_c10(World& w) {
  Sch& s = pick(w, [](const Sch& x) { return x.has_con; });
  const bool be = pick_be(w, s);
  const int kind = pick_kind(w);
  if(w.t.choose(2)) {
    GenCfg g;
    g.p_violate = 1 + w.t.choose(5);
    const std::string wire = gen_wire(s, be, w.t, g);
    LinkIn l(w, "wire");
    l.data = wire;
    l.data.append(w.t.choose(3), '\0');
    l.closed = true;
    w.deliver(l, static_cast<int>(w.t.choose(3)));
    const Dec d = decode(s, be, l.data, l.data.size());
    const Cast c = do_read(w, s, kind, be, l);
    judge_read(w, s, c, l, d, 0, be, kind);
    w.events.clear();
    w.nontrivial = true;
    return;
  }
  Val v = gen_val(s, w.t, false);
  Obj o = build(s, v);
  const int n = 1 + static_cast<int>(w.t.choose(3));
  for(int i = 0; i < n; ++i) {
    LinkOut l(w, "out");
    write_judged(w, s, o, v, be, kind, l);
    const int f = mutate(s, v, w.t, false);
    if(f >= 0) s.ops->load1(o.p, f, v.kids[f]);
    if(w.t.choose(2)) { repair(s, v, w.t); s.ops->load(o.p, v); }
  }
  w.nontrivial = true;
}

// ------------------------------------------------------------------ C11
void run_c11(World& w) {
  Sch& s = pick(w, [](const Sch& x) { return x.has_maybe || x.has_union; });
  const bool be = pick_be(w, s);
  GenCfg g;
  g.p_odd = w.t.choose(6);
  g.len_max = 4;
  const int n = 1 + static_cast<int>(w.t.choose(3));
  for(int i = 0; i < n; ++i) {
    const std::string wire = gen_wire(s, be, w.t, g);
    const int kind = pick_kind(w);
    LinkIn l(w, "wire");
    l.data = wire;
    l.data.append(w.t.choose(2) * 9, '\x02');
    l.closed = true;
    w.deliver(l, static_cast<int>(w.t.choose(3)));
    const Dec d = decode(s, be, l.data, l.data.size());
    const Cast c = do_read(w, s, kind, be, l);
    judge_read(w, s, c, l, d, 0, be, kind);
    w.events.clear();
  }
  w.nontrivial = true;
}

// ------------------------------------------------------------------ C12
// Each job is first run on its own; then all of them again, interleaved at
// basic-block granularity. Every job has to end the same way.
struct Job {
  Sch* s;
  bool be;
  int kind;
  bool read;
  std::string wire;        // for reads
  std::size_t limit;       // of the stream
  const void* obj;         // for writes; possibly shared
  int frag;
  std::size_t window;
};
struct End {
  bool ok;
  int reason, exc;
  std::string where, sink;
  Val v;
  std::size_t pos;
  bool operator==(const End&) const = default;
};

End run_job(World& w, const Job& j, const Knobs& k, std::function<void()>* hook, i64 hook_at) {
  End e{};
  if(j.read) {
    LinkIn l(w, "in");
    l.data = j.wire;
    l.closed = true;
    l.hook = hook;
    l.hook_at = hook_at;
    if(j.limit != ~std::size_t{0}) { l.mode = Link::STOP; l.limit = j.limit; }
    w.deliver(l, j.frag);
    Cast c = do_read(w, *j.s, j.kind, j.be, l, k);
    // Late arrivals must not touch a link that is gone.
    while(l.avail < l.data.size() && w.step_event()) {}
    e.ok = c.ok; e.reason = c.reason; e.exc = c.exc; e.where = c.where; e.pos = l.pos;
    if(c.ok) e.v = c.obj.val();
  } else {
    LinkOut l(w, "out");
    l.window = j.window;
    l.hook = hook;
    l.hook_at = hook_at;
    if(j.limit != ~std::size_t{0}) { l.mode = Link::STOP; l.limit = j.limit; }
    Cast c = do_write(w, *j.s, j.kind, j.be, l, j.obj, k);
    e.ok = c.ok; e.reason = c.reason; e.exc = c.exc; e.where = c.where; e.sink = l.sink;
  }
  return e;
}

std::string show(const End& e) {
  return (e.exc ? std::string("exception ") + std::to_string(e.exc) : e.ok ? "ok" : std::string(reason_name(e.reason)) + " at '" + e.where + "'") +
         (e.sink.empty() ? "" : ", sink " + hex(e.sink)) + (e.v.k == Val::NONE ? "" : ", value " + sim::show(e.v)) + ", pos " + std::to_string(e.pos);
}

void run_c12(World& w) {
  const int tasks = 2 + static_cast<int>(w.t.choose(3));
  const bool same = w.t.choose(4) != 0;
  Sch* base = &pick(w, any);
  std::vector<Obj> objs;
  std::vector<std::vector<Job>> plan(tasks);
  Obj shared;
  for(int t = 0; t < tasks; ++t) {
    const int n = 1 + static_cast<int>(w.t.choose(2));
    for(int i = 0; i < n; ++i) {
      Job j{};
      j.s = same ? base : &pick(w, any);
      j.be = pick_be(w, *j.s);
      j.kind = pick_kind(w);
      j.read = w.t.choose(2) == 0;
      j.limit = ~std::size_t{0};
      j.frag = static_cast<int>(w.t.choose(3));
      j.window = w.t.choose(2) ? ~std::size_t{0} : 1 + w.t.choose(8);
      GenCfg g = mild(w, false);
      if(w.t.chance(1, 4)) g.p_violate = 3;
      const std::string wire = gen_wire(*j.s, j.be, w.t, g);
      if(j.read) {
        j.wire = wire;
        if(w.t.chance(1, 5)) j.limit = w.t.choose(wire.size() + 1);
      } else {
        if(same && shared.p && w.t.choose(2)) {
          j.obj = shared.p;
          w.st.add("op.shared_struct");
        } else {
          const Dec d = decode(*j.s, j.be, wire, wire.size());
          Val v = d.ok ? d.v : gen_val(*j.s, w.t, false);
          Obj o = build(*j.s, v);
          j.obj = o.p;
          if(same && !shared.p) shared = std::move(o);
          else objs.push_back(std::move(o));
        }
        if(w.t.chance(1, 5)) j.limit = w.t.choose(24);
      }
      plan[t].push_back(std::move(j));
    }
  }
  std::vector<std::vector<End>> alone(tasks), together(tasks);
  auto run_alone = [&] {
    for(int t = 0; t < tasks; ++t)
      for(const auto& j : plan[t]) {
        Job solo = j;
        solo.frag = 0;
        solo.window = ~std::size_t{0};
        alone[t].push_back(run_job(w, solo, {}, nullptr, -1));
      }
  };
  // Either way round: whatever the library sets up on first use has to survive
  // being set up by several tasks at once.
  const bool after = w.t.choose(2);
  if(!after) run_alone();
  // Some jobs are also started from inside another job's callbacks.
  struct Re { int t; std::size_t i; bool in_call; i64 at; int rt; std::size_t ri; };
  std::vector<Re> re;
  const int nre = static_cast<int>(w.t.choose(3));
  for(int i = 0; i < nre; ++i) {
    Re r;
    r.t = static_cast<int>(w.t.choose(tasks));
    r.i = w.t.choose(plan[r.t].size());
    r.in_call = w.t.choose(2);
    r.at = 1 + static_cast<i64>(w.t.choose(6));
    r.rt = static_cast<int>(w.t.choose(tasks));
    r.ri = w.t.choose(plan[r.rt].size());
    re.push_back(r);
  }
  w.preemptive = w.t.choose(4) != 0;
  std::vector<std::pair<Re, End>> nested;
  std::vector<std::function<void()>> bodies;
  for(int t = 0; t < tasks; ++t) {
    bodies.push_back([&, t] {
      for(std::size_t i = 0; i < plan[t].size(); ++i) {
        const Re* mine = nullptr;
        for(const auto& r : re) if(r.t == t && r.i == i) { mine = &r; break; }
        std::function<void()> hook = [&] {
          Job j = plan[mine->rt][mine->ri];
          j.frag = 0;
          const End e = run_job(w, j, {}, nullptr, -1);
          nested.push_back({*mine, e});
        };
        Knobs k;
        if(mine && mine->in_call) { k.call_hook = &hook; k.call_hook_at = mine->at; }
        together[t].push_back(run_job(w, plan[t][i], k, mine && !mine->in_call ? &hook : nullptr, mine ? mine->at : -1));
      }
    });
  }
  w.run_tasks(bodies);
  w.events.clear();
  w.preemptive = false;
  if(after) run_alone();
  for(int t = 0; t < tasks; ++t)
    for(std::size_t i = 0; i < plan[t].size(); ++i)
      if(alone[t][i] != together[t][i])
        w.fail("ISO.differs", "task %d job %zu (%s %s %s %s): alone %s; interleaved %s", t, i, plan[t][i].read ? "read" : "write", plan[t][i].s->ops->name,
               plan[t][i].be ? "be" : "le", kind_name(plan[t][i].kind), show(alone[t][i]).c_str(), show(together[t][i]).c_str());
  for(const auto& [r, e] : nested)
    if(alone[r.rt][r.ri] != e)
      w.fail("ISO.nested", "job %zu of task %d (%s), run inside a callback of another cast: alone %s; nested %s", r.ri, r.rt,
             plan[r.rt][r.ri].s->ops->name, show(alone[r.rt][r.ri]).c_str(), show(e).c_str());
  judge_names(w);
  w.nontrivial = w.switches > 1;
  w.mix(w.sched_hash);
}

// ------------------------------------------------------------------ C13
// An append-only log of records on a simulated disk: what was synced survives
// a crash, what was not may survive in part.
struct Disk {
  std::string durable, cache;      // cache: everything written, durable prefix included
  std::size_t capacity = ~std::size_t{0};
};

void run_c13(World& w) {
  Sch& s = pick(w, any);
  const bool be = pick_be(w, s);
  Disk disk;
  std::vector<Val> records;          // appended and still logically in the log
  std::vector<std::size_t> ends;     // end offset of each
  std::size_t synced = 0;            // number of records known durable
  const int epochs = 1 + static_cast<int>(w.t.choose(3));
  for(int ep = 0; ep < epochs && w.viols.empty(); ++ep) {
    const int n = 1 + static_cast<int>(w.t.choose(4));
    for(int i = 0; i < n; ++i) {
      std::string wire;
      Dec d;
      const GenCfg g = mild(w, false);
      if(!gen_valid(s, be, w.t, g, wire, d)) { w.st.add("discard"); continue; }
      Obj o = build(s, d.v);
      LinkOut l(w, "log");
      const u64 fault = w.t.choose(6);
      if(fault == 5) { l.mode = Link::STOP; l.limit = w.t.choose(wire.size() + 1); l.partial = w.t.choose(4); w.st.add("disk.full"); }
      const int kind = pick_kind(w);
      const Cast c = do_write(w, s, kind, be, l, o.p);
      const std::size_t base = disk.cache.size();
      disk.cache += l.sink;
      if(c.exc != X_NONE || (!c.ok && !l.failed)) {
        w.fail("LOG.append", "%s: appending a valid record gave %s", s.ops->name, outcome(c).c_str());
        return;
      }
      if(!c.ok) {
        // The writer cuts the half-written record off again.
        if(w.t.choose(3)) disk.cache.resize(base);
        else { w.st.add("disk.torn_left"); goto crash; }     // died before it could
        continue;
      }
      if(l.failed) { w.fail("LOG.lost", "%s: append reported success although the disk refused it", s.ops->name); return; }
      Val v = d.v;
      mask_ro(s, v);
      records.push_back(std::move(v));
      ends.push_back(disk.cache.size());
      if(w.t.choose(2)) { disk.durable = disk.cache; synced = records.size(); w.st.add("disk.sync"); w.note("sync: %zu records durable", synced); }
    }
  crash:
    // Power goes: the unsynced tail survives up to an arbitrary byte.
    const std::size_t tail = disk.cache.size() - disk.durable.size();
    const std::size_t kept = tail ? w.t.choose(tail + 1) : 0;
    std::string image = disk.cache.substr(0, disk.durable.size() + kept);
    w.st.add("crash");
    if(kept < tail) w.st.add("disk.torn");
    w.note("crash: %zu of %zu unsynced bytes survive", kept, tail);
    LinkIn in(w, "recovery");
    in.data = image;
    in.closed = true;
    w.deliver(in, static_cast<int>(w.t.choose(3)));
    std::vector<Val> got;
    std::size_t good = 0;
    const int kind = pick_kind(w);
    while(in.pos < image.size()) {
      const std::size_t at = in.pos;
      Cast c = do_read(w, s, kind, be, in);
      if(c.exc != X_NONE) { w.fail("LOG.exc", "%s: recovery raised %s", s.ops->name, outcome(c).c_str()); return; }
      if(!c.ok) {
        const Dec d = decode(s, be, image, image.size(), at);
        if(c.reason != BUFFER_EXHAUSTION || d.ok)
          w.fail("LOG.tail", "%s: the torn tail of the log was reported as %s", s.ops->name, outcome(c).c_str());
        break;
      }
      Val v = c.obj.val();
      mask_ro(s, v);
      got.push_back(std::move(v));
      good = in.pos;
      if(got.size() > records.size()) break;
    }
    w.events.clear();
    std::size_t expect = 0;
    while(expect < ends.size() && ends[expect] <= image.size()) ++expect;
    if(got.size() != expect)
      w.fail("LOG.count", "%s: %zu records recovered, %zu survived whole (%zu synced)", s.ops->name, got.size(), expect, synced);
    for(std::size_t i = 0; i < std::min(got.size(), expect); ++i)
      if(got[i] != records[i]) { w.fail("LOG.value", "%s: record %zu was %s, recovered %s", s.ops->name, i, show(records[i]).c_str(), show(got[i]).c_str()); break; }
    if(got.size() < synced) w.fail("LOG.durable", "%s: %zu records were synced, only %zu recovered", s.ops->name, synced, got.size());
    if(!w.viols.empty()) return;
    if(expect && good != ends[expect - 1]) { w.fail("LOG.offset", "%s: recovery ended at %zu, the last whole record ends at %zu", s.ops->name, good, ends[expect - 1]); return; }
    // Recovered log: cut at the last good record and carry on.
    disk.durable = disk.cache = image.substr(0, good);
    records.resize(got.size());
    ends.resize(got.size());
    synced = records.size();
    w.mix(got.size() * 1000 + kept);
    w.nontrivial |= kept < tail || tail > 0;
  }
}

// ------------------------------------------------------------------ C14
void corrupt(World& w, std::string& d, const std::string& other) {
  const int n = 1 + static_cast<int>(w.t.choose(3));
  for(int i = 0; i < n; ++i) {
    const std::size_t at = d.empty() ? 0 : w.t.choose(d.size());
    switch(w.t.choose(8)) {
      case 0: if(!d.empty()) { d[at] ^= static_cast<char>(1 << w.t.choose(8)); w.st.add("corrupt.bit"); } break;
      case 1: if(!d.empty()) { d[at] = static_cast<char>(w.t.choose(256)); w.st.add("corrupt.byte"); } break;
      case 2: d.resize(at); w.st.add("corrupt.truncate"); break;
      case 3: d.insert(at, 1 + w.t.choose(4), static_cast<char>(w.t.choose(256))); w.st.add("corrupt.insert"); break;
      case 4: if(!d.empty()) { d.erase(at, 1 + w.t.choose(4)); w.st.add("corrupt.erase"); } break;
      case 5: d = d.substr(0, at) + (other.empty() ? "" : other.substr(w.t.choose(other.size()))); w.st.add("corrupt.splice"); break;
      case 6: for(std::size_t k = at; k < d.size() && k < at + 8; ++k) d[k] = '\xff'; w.st.add("corrupt.ones"); break;
      default: for(std::size_t k = at; k < d.size() && k < at + 8; ++k) d[k] = '\0'; w.st.add("corrupt.zeros"); break;
    }
  }
}

void run_c14(World& w) {
  Sch& s = pick(w, any);
  const bool be = pick_be(w, s);
  // A datagram channel: frames get lost, repeated, reordered and damaged.
  std::vector<std::string> frames;
  const int n = 1 + static_cast<int>(w.t.choose(3));
  for(int i = 0; i < n; ++i) {
    GenCfg g = mild(w);
    g.p_huge = w.t.choose(3);
    g.p_violate = w.t.choose(3);
    std::string f;
    if(w.t.chance(1, 12)) { const std::size_t k = w.t.choose(60); for(std::size_t q = 0; q < k; ++q) f += static_cast<char>(w.t.choose(256)); w.st.add("corrupt.noise"); }
    else f = gen_wire(s, be, w.t, g);
    frames.push_back(std::move(f));
  }
  for(int i = 0; i < n; ++i) if(w.t.choose(4)) corrupt(w, frames[i], frames[w.t.choose(n)]);
  if(n > 1) {
    switch(w.t.choose(4)) {
      case 1: frames.push_back(frames[0]); w.st.add("net.duplicate"); break;
      case 2: std::swap(frames[0], frames[1]); w.st.add("net.reorder"); break;
      case 3: frames.erase(frames.begin()); w.st.add("net.loss"); break;
      default: break;
    }
  }
  for(const auto& f : frames) {
    const Dec d = decode(s, be, f, f.size());
    if(d.max_alloc > (1u << 26)) { w.st.add("discard"); continue; }
    LinkIn l(w, "datagram");
    l.data = f;
    l.closed = true;
    w.deliver(l, static_cast<int>(w.t.choose(2)));
    const int kind = pick_kind(w);
    const Cast c = do_read(w, s, kind, be, l);
    judge_read(w, s, c, l, d, 0, be, kind);
    w.events.clear();
    if(c.ok && w.viols.empty() && w.t.choose(3) == 0) {
      // Whatever was accepted can be forwarded, byte for byte.
      LinkOut out(w, "forward");
      const Cast c2 = do_write(w, s, kind, be, out, c.obj.p);
      if(c2.exc != X_NONE || !c2.ok || out.sink != f.substr(0, d.pos))
        w.fail("W.forward", "%s: an accepted frame %s does not forward: %s, %s", s.ops->name, hex(f).c_str(), outcome(c2).c_str(), hex(out.sink).c_str());
    }
  }
  w.nontrivial = true;
}

// ------------------------------------------------------------------ C15
void fail_once(World& w) {
  if(w.t.choose(2)) {
    Sch& s = pick(w, any);
    const bool be = pick_be(w, s);
    GenCfg g = mild(w);
    g.p_violate = w.t.choose(4);
    g.p_odd = w.t.choose(6);
    g.p_huge = w.t.choose(3);
    std::string wire = gen_wire(s, be, w.t, g);
    if(w.t.choose(3) == 0) corrupt(w, wire, wire);
    const Dec d0 = decode(s, be, wire, wire.size());
    if(d0.max_alloc > (1u << 26)) { w.st.add("discard"); return; }
    const int kind = pick_kind(w);
    LinkIn l(w, "wire");
    l.data = wire;
    l.closed = true;
    std::size_t lim = wire.size();
    if(w.t.choose(3) == 0 && !wire.empty()) { lim = fault_pos(w, d0.bounds, wire.size()); l.mode = Link::STOP; l.limit = lim; }
    w.deliver(l, 0);
    const Dec d = decode(s, be, wire, lim);
    const Cast c = do_read(w, s, kind, be, l);
    judge_read(w, s, c, l, d, 0, be, kind);
    w.nontrivial |= !d.ok;
    return;
  }
  Sch& s = pick(w, any);
  const bool be = pick_be(w, s);
  Val v;
  if(!make_value(w, s, be, v)) { w.st.add("discard"); return; }
  for(int k = 0; k < 6; ++k) {
    mutate(s, v, w.t, true);
    if(!encode(s, be, v).ok && w.t.choose(2)) break;
  }
  const Obj o = build(s, v);
  const Enc e = encode(s, be, v);
  LinkOut l(w, "out");
  if(w.t.choose(3) == 0) {
    std::vector<std::size_t> b;
    for(const auto& lf : e.leaves) b.push_back(lf.start);
    l.mode = Link::STOP;
    l.limit = fault_pos(w, b, e.bytes.size() + 1);
    l.partial = w.t.choose(2);
  }
  const int kind = pick_kind(w);
  write_judged(w, s, o, v, be, kind, l);
  w.nontrivial |= !e.ok || l.failed;
}

void run_c15(World& w) {
  const int n = 1 + static_cast<int>(w.t.choose(3));
  for(int i = 0; i < n && w.viols.empty(); ++i) fail_once(w);
  judge_names(w);
}

// ------------------------------------------------------------------ C16
void run_c16(World& w) {
  Sch& s = pick(w, any);
  const int kinds = s.ops->files ? K_COUNT : K_FILE;
  const bool be = pick_be(w, s);
  if(w.t.choose(2)) {
    GenCfg g = mild(w);
    g.p_violate = w.t.choose(3);
    g.p_huge = w.t.choose(2);
    std::string wire = gen_wire(s, be, w.t, g);
    if(w.t.choose(4) == 0) corrupt(w, wire, wire);
    const Dec d = decode(s, be, wire, wire.size());
    if(d.max_alloc > (1u << 26)) { w.st.add("discard"); return; }
    const bool stop = w.t.choose(3) == 0 && !wire.empty();
    const std::size_t lim = stop ? fault_pos(w, d.bounds, wire.size()) : 0;
    const int frag = static_cast<int>(w.t.choose(3));
    const int dead = w.t.chance(1, 16) && dead_read_ok(s, be, wire) ? 1 + static_cast<int>(w.t.choose(3)) : 0;
    if(dead) w.st.add("stream.dead.read");
    struct R { std::string out; Val v; std::size_t pos; };
    std::vector<R> rs;
    for(int k = 0; k < kinds; ++k) {
      LinkIn l(w, "wire");
      l.data = wire;
      l.closed = true;
      if(stop) { l.mode = Link::STOP; l.limit = lim; }
      if(dead) l.kill(dead);
      w.deliver(l, frag);
      const Cast c = do_read(w, s, k, be, l);
      w.events.clear();
      R r{outcome(c), {}, l.failed ? 0 : l.pos};
      if(c.ok) r.v = c.obj.val();
      rs.push_back(std::move(r));
    }
    for(int k = 1; k < kinds; ++k) {
      if(rs[k].out != rs[0].out)
        w.fail("KIND.outcome", "%s/%s: reading gives %s over a %s stream and %s over a %s one; wire %s", s.ops->name, be ? "be" : "le", rs[0].out.c_str(), kind_name(0), rs[k].out.c_str(), kind_name(k), hex(wire).c_str());
      else if(rs[k].v != rs[0].v)
        w.fail("KIND.value", "%s/%s: reading gives %s over a %s stream and %s over a %s one; wire %s", s.ops->name, be ? "be" : "le", show(rs[0].v).c_str(), kind_name(0), show(rs[k].v).c_str(), kind_name(k), hex(wire).c_str());
      else if(rs[k].pos != rs[0].pos)
        w.fail("KIND.pos", "%s/%s: reading consumes %zu bytes of a %s stream and %zu of a %s one", s.ops->name, be ? "be" : "le", rs[0].pos, kind_name(0), rs[k].pos, kind_name(k));
    }
    w.nontrivial = true;
    w.mix(shape_hash(rs[0].v, 5));
    return;
  }
  Val v;
  if(!make_value(w, s, be, v)) { w.st.add("discard"); return; }
  const int edits = static_cast<int>(w.t.choose(3));
  for(int k = 0; k < edits; ++k) mutate(s, v, w.t, true);
  const Obj o = build(s, v);
  const Enc e = encode(s, be, v);
  const bool stop = w.t.choose(3) == 0;
  const std::size_t lim = stop ? w.t.choose(e.bytes.size() + 1) : 0;
  const int dead = w.t.chance(1, 16) && dead_write_ok(e) ? 1 + static_cast<int>(w.t.choose(2)) : 0;
  if(dead) w.st.add("stream.dead.write");
  struct R { std::string out, sink; bool failed; };
  std::vector<R> rs;
  for(int k = 0; k < kinds; ++k) {
    LinkOut l(w, "out");
    if(stop) { l.mode = Link::STOP; l.limit = lim; }
    if(dead) l.kill(dead);
    window(w, l);
    const Cast c = do_write(w, s, k, be, l, o.p);
    rs.push_back({outcome(c), l.sink, l.failed});
  }
  for(int k = 1; k < kinds; ++k) {
    if(rs[k].out != rs[0].out)
      w.fail("KIND.outcome", "%s/%s: writing gives %s over a %s stream and %s over a %s one; value %s", s.ops->name, be ? "be" : "le", rs[0].out.c_str(), kind_name(0), rs[k].out.c_str(), kind_name(k), show(v).c_str());
    else if(!rs[0].failed && !rs[k].failed && rs[k].sink != rs[0].sink)
      w.fail("KIND.bytes", "%s/%s: writing gives %s over a %s stream and %s over a %s one; value %s", s.ops->name, be ? "be" : "le", hex(rs[0].sink).c_str(), kind_name(0), hex(rs[k].sink).c_str(), kind_name(k), show(v).c_str());
    else if(rs[0].failed && rs[k].failed) {
      // How far a refused field got is the stream's business, but both hold a
      // start of the same bytes.
      const std::size_t m = std::min(rs[0].sink.size(), rs[k].sink.size());
      if(rs[0].sink.compare(0, m, rs[k].sink, 0, m) != 0)
        w.fail("KIND.bytes", "%s/%s: a refused write left %s in a %s stream and %s in a %s one", s.ops->name, be ? "be" : "le", hex(rs[0].sink).c_str(), kind_name(0), hex(rs[k].sink).c_str(), kind_name(k));
    }
  }
  w.nontrivial = true;
  w.mix(shape_hash(v, 5));
}

// ------------------------------------------------------------------ C17
void run_c17(World& w) {
  Sch& s = pick(w, any);
  const bool be = pick_be(w, s);
  std::string wire;
  Dec d;
  GenCfg g = mild(w);
  if(!gen_valid(s, be, w.t, g, wire, d)) { w.st.add("discard"); return; }
  wire.resize(d.pos);
  const int src = static_cast<int>(w.t.choose(4));     // stream, allocator, callable, a standard stream told to throw
  const int id = 1 + static_cast<int>(w.t.choose(1000));
  Knobs k;
  if(src == 1) k.alloc_fail_at = static_cast<i64>(w.t.choose(12));
  if(src == 2) { k.call_throw_at = 1 + static_cast<i64>(w.t.choose(10)); k.call_id = id; }
  const bool rd = w.t.choose(2);
  const int kind = src == 0 ? static_cast<int>(w.t.choose(3)) : src == 3 ? (w.t.choose(2) ? K_MEM : K_STD) : pick_kind(w);
  // What a streambuf throws an istream turns into badbit, unless told not to.
  const bool muted = src == 0 && kind == K_STD && w.t.choose(2);
  auto expect = [&](const Cast& c, bool fired, const char* dir) {
    const Exc want = !fired || muted ? X_NONE : src == 0 ? X_SIM : src == 1 ? X_BAD : src == 2 ? X_CALL : X_IOS;
    if(fired && muted && (c.ok || c.reason != BUFFER_EXHAUSTION))
      w.fail("EXC.muted", "%s/%s: an iostream went bad during a %s, but the caller saw %s", s.ops->name, be ? "be" : "le", dir, outcome(c).c_str());
    if(c.exc != want || (want == X_SIM && c.exc_id != id) || (want == X_CALL && c.exc_id != id)) {
      w.fail("EXC.lost", "%s/%s: during a %s, %s, but the caller saw %s", s.ops->name, be ? "be" : "le", dir,
             !fired ? "nothing was thrown" : src == 0 ? "the stream threw" : src == 1 ? "an allocation failed" : src == 2 ? "a callable threw" : "the iostream threw", outcome(c).c_str());
    }
    if(fired) w.nontrivial = true;
  };
  if(rd) {
    {
      LinkIn l(w, "wire");
      l.data = wire;
      if(src == 0) { l.mode = Link::THROW; l.limit = fault_pos(w, d.bounds, wire.size() + 1); l.fault_id = id; l.data.append(2, '\x33'); }
      if(src == 3) { l.mode = Link::STOP; l.limit = fault_pos(w, d.bounds, wire.size() + 1); l.data.append(2, '\x33'); l.mask = 2; }
      if(src == 0 && kind == K_STD && !muted) l.mask = 1;
      w.deliver(l, static_cast<int>(w.t.choose(2)));
      {
        const Cast c = do_read(w, s, kind, be, l, k);
        const bool fired = src == 0 || src == 3 ? l.failed : src == 1 ? c.alloc_failed : c.call_failed;
        expect(c, fired, "read");
        if(l.after_fail) w.fail("R.after-fail", "%s: %d more reads after the stream threw", s.ops->name, l.after_fail);
        if(!fired && w.viols.empty()) judge_read(w, s, c, l, d, 0, be, kind);
      }
      w.events.clear();
    }
    if(!w.viols.empty()) return;
    LinkIn l(w, "retry");
    l.data = wire;
    w.deliver(l, 0);
    const int k2 = pick_kind(w);
    const Cast c = do_read(w, s, k2, be, l);
    judge_read(w, s, c, l, d, 0, be, k2);
    return;
  }
  const Obj o = build(s, d.v);
  const Enc e = encode(s, be, d.v);
  const Val before = o.val();
  {
    LinkOut l(w, "out");
    std::vector<std::size_t> b;
    for(const auto& lf : e.leaves) b.push_back(lf.start);
    if(src == 0) { l.mode = Link::THROW; l.limit = fault_pos(w, b, e.bytes.size() + 1); l.fault_id = id; l.partial = w.t.choose(2); }
    if(src == 3) { l.mode = Link::STOP; l.limit = fault_pos(w, b, e.bytes.size() + 1); l.mask = 2; }
    if(src == 0 && kind == K_STD && !muted) l.mask = 1;
    const Cast c = do_write(w, s, kind, be, l, o.p, k);
    const bool fired = src == 0 || src == 3 ? l.failed : src == 1 ? c.alloc_failed : c.call_failed;
    expect(c, fired, "write");
    if(l.after_fail) w.fail("W.after-fail", "%s: %d more writes after the stream threw", s.ops->name, l.after_fail);
    if(fired && (l.sink.size() > e.bytes.size() || e.bytes.compare(0, l.sink.size(), l.sink) != 0))
      w.fail("W.prefix", "%s: a write that threw left %s, the encoding is %s", s.ops->name, hex(l.sink).c_str(), hex(e.bytes).c_str());
    if(!fired && w.viols.empty()) judge_write(w, s, c, l, e, d.v, be, kind);
    if(o.val() != before) w.fail("W.src", "%s: a write that threw changed the struct: %s became %s", s.ops->name, show(before).c_str(), show(o.val()).c_str());
  }
  if(!w.viols.empty()) return;
  LinkOut l(w, "retry");
  const int k2 = pick_kind(w);
  write_judged(w, s, o, d.v, be, k2, l);
}
}

const std::vector<Prop>& props() {
  static const std::vector<Prop> p = {
    {"C01", run_c01, 120000, 400, {}},
    {"C02", run_c02, 120000, 400, {}},
    {"C03", run_c03, 160000, 400, {}},
    {"C04", run_c04, 120000, 400, {}},
    {"C05", run_c05, 120000, 400, {}},
    {"C06", run_c06, 100000, 400, {}},
    {"C07", run_c07, 100000, 400, {}},
    {"C08", run_c08, 100000, 400, {}},
    {"C09", run_c09, 120000, 400, {}},
    {"C10", run_c10, 160000, 400, {}},
    {"C11", run_c11, 160000, 400, {}},
    {"C12", run_c12, 20000, 20, {}},
    {"C13", run_c13, 60000, 400, {}},
    {"C14", run_c14, 160000, 400, {}},
    {"C15", run_c15, 200000, 400, {}},
    {"C16", run_c16, 120000, 400, {}},
    {"C17", run_c17, 140000, 400, {}},
  };
  return p;
}
const Prop* find_prop(const std::string& id) {
  for(const auto& p : props()) if(id == p.id) return &p;
  return nullptr;
}
}
