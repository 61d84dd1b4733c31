// The simulated world: allocator, streams, clock, scheduler.
#include "rt.hpp"

#include <sanitizer/asan_interface.h>

#include <algorithm>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <new>
#include <thread>
#include <unistd.h>

namespace sim {
void throw_fault(int id, bool call) {
  const Fault f{id, call};
  switch(id % 8) {
    case 1: throw RunFault(f, "fault");
    case 2: throw LenFault(f, "fault");
    case 3: throw MemFault(f);
    case 4: throw VarFault(f);
    case 5: throw OptFault(f);
    case 6: throw IosFault(f, "fault");
    case 7: throw call ? -id : id;
    default: throw f;
  }
}

thread_local TaskCtx* cur = nullptr;
World* world = nullptr;
i64 live_tagged = 0;
u64 runaway_limit = 60'000'000;
unsigned char* cov_map = nullptr;
Env env;

Val::Val() = default;
Val::Val(const Val&) = default;
Val::Val(Val&&) noexcept = default;
Val& Val::operator=(const Val&) = default;
Val& Val::operator=(Val&&) noexcept = default;
Val::~Val() = default;
void Val::wipe() { b.clear(); n.clear(); i = 0; }
void Val::set_kids(std::size_t c) { kids.resize(c); }
u64* Val::set_ints(std::size_t c) { n.resize(c); return n.data(); }
void Val::set_bytes(const char* p, std::size_t c) { b.assign(p, c); }

void add_schema(const Ops& o) { registry().push_back(o); }

std::vector<Ops>& registry() {
  static std::vector<Ops> r;
  return r;
}

// ------------------------------------------------------------------ scheduler
// Tasks are real threads, but only the one holding the baton runs; the
// controller hands it out by the tape. Nothing depends on the host scheduler.
namespace {
struct Task {
  TaskCtx ctx;
  TaskCtx* active = &ctx;
  const std::function<void()>* body = nullptr;
  const std::function<bool()>* cond = nullptr;   // set while blocked
  bool gave_up = false;
  bool done = false;
  bool go = false;
  std::thread th;
};
std::mutex mu;
std::condition_variable cv;
bool controller_go = false;

void give_back(Task* t) {
  std::unique_lock<std::mutex> lk(mu);
  t->go = false;
  controller_go = true;
  cv.notify_all();
  cv.wait(lk, [&] { return t->go; });
}

}

struct OutOfLib {
  TaskCtx* c;
  bool was;
  OutOfLib() : c(cur), was(c && c->in_lib) { if(c) c->in_lib = false; }
  ~OutOfLib() { if(c) c->in_lib = was; }
};

void hand_over() {
  TaskCtx* c = cur;
  if(!c || !c->task) return;
  OutOfLib out;
  give_back(static_cast<Task*>(c->task));
}

bool in_task() { return cur && cur->task; }

FreshCtx::FreshCtx() : old(cur) {
  if(old) { c.id = old->id; c.task = old->task; }
  cur = &c;
  if(c.task) static_cast<Task*>(c.task)->active = &c;
}
FreshCtx::~FreshCtx() {
  cur = old;
  if(c.task) static_cast<Task*>(c.task)->active = old;
}

void World::note(const char* fmt, ...) {
  if(!trace) return;
  char b[1200];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  char h[48];
  std::snprintf(h, sizeof h, "[%8llu us] t%d ", now, cur ? cur->id : -1);
  log += h;
  log += b;
  log += '\n';
  if(log.size() > (1u << 20)) trace = false;
}
void World::fail(const char* tag, const char* fmt, ...) {
  char b[3000];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  viols.push_back({tag, b});
  note("VIOLATION %s: %s", tag, b);
}

void World::at(u64 delay, std::function<void()> f) { events.push_back({now + delay, seq++, std::move(f)}); }

void World::deliver(LinkIn& l, int frag) {
  l.avail = 0;
  if(frag == 0) { l.avail = l.data.size(); return; }
  u64 when = 0;
  std::size_t sent = 0;
  while(sent < l.data.size()) {
    std::size_t n = frag == 2 ? 1 : 1 + t.choose(frag == 1 ? 12 : 64);
    if(l.data.size() > 600) n *= 37;
    if(l.data.size() > 100000) n *= 61;
    n = std::min(n, l.data.size() - sent);
    when += 1 + (t.chance(1, 12) ? 10000 + t.choose(200000) : t.choose(300));
    sent += n;
    st.add("delay.chunk");
    at(when, [this, &l, n] { l.avail += n; note("%s: %zu more bytes arrive", l.name.c_str(), n); });
  }
}

bool World::step_event() {
  if(events.empty()) return false;
  auto it = std::min_element(events.begin(), events.end(),
    [](const Event& a, const Event& b) { return a.at != b.at ? a.at < b.at : a.seq < b.seq; });
  auto f = std::move(it->run);
  if(it->at > now) now = it->at;
  events.erase(it);
  f();
  return true;
}

bool World::block(const std::function<bool()>& cond) {
  if(!multi || !cur || !cur->task) {
    while(!cond()) if(!step_event()) return false;
    return true;
  }
  if(cond()) return true;
  auto* t = static_cast<Task*>(cur->task);
  t->cond = &cond;
  t->gave_up = false;
  hand_over();
  t->cond = nullptr;
  return !t->gave_up;
}

void World::yield_point() {
  if(multi) hand_over();
}

void World::run_tasks(const std::vector<std::function<void()>>& bodies) {
  std::vector<std::unique_ptr<Task>> ts;
  multi = true;
  controller_go = true;
  for(std::size_t i = 0; i < bodies.size(); ++i) {
    auto t_ = std::make_unique<Task>();
    t_->ctx.id = static_cast<int>(i);
    t_->ctx.task = t_.get();
    t_->body = &bodies[i];
    Task* p = t_.get();
    t_->th = std::thread([p] {
      {
        std::unique_lock<std::mutex> lk(mu);
        cv.wait(lk, [&] { return p->go; });
      }
      cur = &p->ctx;
      (*p->body)();
      cur = nullptr;
      std::unique_lock<std::mutex> lk(mu);
      p->done = true;
      p->go = false;
      controller_go = true;
      cv.notify_all();
    });
    ts.push_back(std::move(t_));
  }
  Task* last = nullptr;
  for(;;) {
    std::vector<Task*> ready;
    bool left = false;
    if(last && !last->done && (!last->cond || (*last->cond)())) ready.push_back(last);
    for(auto& p : ts) {
      if(p->done) continue;
      left = true;
      if(p.get() != last && (!p->cond || (*p->cond)())) ready.push_back(p.get());
    }
    if(!left) break;
    if(ready.empty()) {
      if(step_event()) continue;
      for(auto& p : ts) if(!p->done) { p->gave_up = true; ready.push_back(p.get()); }
    } else if(!events.empty() && t.chance(1, 6)) {
      step_event();
      continue;
    }
    Task* pick = ready[t.choose(ready.size())];
    if(pick != last) ++switches;
    const u64 h[2] = {static_cast<u64>(pick->ctx.id), pick->active->blocks};
    sched_hash = hash_bytes(h, sizeof h, sched_hash);
    pick->active->budget = 0;
    if(preemptive && t.choose(3)) pick->active->budget = t.choose(2) ? 1 + t.choose(24) : 1 + t.choose(400);
    last = pick;
    std::unique_lock<std::mutex> lk(mu);
    controller_go = false;
    pick->go = true;
    cv.notify_all();
    cv.wait(lk, [&] { return controller_go; });
  }
  for(auto& p : ts) p->th.join();
  multi = false;
}

// ------------------------------------------------------------------ streams
bool LinkIn::rd(char* d, std::size_t n) {
  OutOfLib out;
  ++ops;
  moved = 0;
  if(failed) { if(n) ++after_fail; return false; }
  if(hook && static_cast<i64>(ops) == hook_at) { w.st.add("reentry.stream"); w.note("%s: reentrant work inside read", name.c_str()); (*hook)(); }
  w.yield_point();
  if(n == 0) return true;
  ++reads;
  if(mode != OK && n > limit - std::min(pos, limit)) {
    failed = true;
    const std::size_t good = std::min(limit, data.size()) - std::min(pos, std::min(limit, data.size()));
    // A device that fails mid-transfer leaves a mess in the caller's buffer.
    const std::size_t dirty = std::min<std::size_t>(n, 4096);
    for(std::size_t i = 0; i < dirty; ++i) d[i] = i < good ? data[pos + i] : static_cast<char>(0xA5 ^ i);
    w.st.add(mode == THROW ? "stream.throw.read" : "stream.fail.read");
    w.note("%s: read of %zu at %zu fails at byte %zu%s", name.c_str(), n, pos, limit, mode == THROW ? " by throwing" : "");
    moved = std::min(n, good);
    pos += moved;
    if(mode == THROW) throw_fault(fault_id, false);
    return false;
  }
  if(pos > data.size() || n > data.size() - pos) {
    failed = true;
    if(closed) {
      w.st.add("stream.eof.read");
      w.note("%s: read of %zu at %zu meets the end (%zu)", name.c_str(), n, pos, data.size());
      const std::size_t dirty = std::min<std::size_t>(n, 4096);
      for(std::size_t i = 0; i < dirty; ++i) d[i] = pos + i < data.size() ? data[pos + i] : static_cast<char>(0x5A ^ i);
      moved = data.size() - std::min(pos, data.size());
      pos += moved;
      return false;
    }
    starved = true;
    w.note("%s: read of %zu at %zu waits for bytes that will never be sent (%zu)", name.c_str(), n, pos, data.size());
    return false;
  }
  if(pos + n > avail) {
    w.st.add("delay.reader_waited");
    const std::size_t need = pos + n;
    const std::function<bool()> cond = [this, need] { return avail >= need; };
    if(!w.block(cond)) { starved = failed = true; return false; }
  }
  std::memcpy(d, data.data() + pos, n);
  pos += n;
  moved = n;
  return true;
}
int LinkIn::peek() {
  OutOfLib out;
  if(failed || (mode != OK && pos >= limit)) return -1;
  if(pos >= data.size()) {
    if(!closed) {
      starved = failed = true;
      w.note("%s: a look past the message, at %zu, waits for ever", name.c_str(), pos);
    }
    return -1;
  }
  if(pos + 1 > avail) {
    const std::size_t need = pos + 1;
    const std::function<bool()> cond = [this, need] { return avail >= need; };
    if(!w.block(cond)) { starved = failed = true; return -1; }
  }
  return static_cast<unsigned char>(data[pos]);
}
std::string LinkIn::snapshot() {
  const std::size_t end = std::min(mode == OK ? data.size() : limit, data.size());
  return data.substr(std::min(pos, end), end - std::min(pos, end));
}
void LinkIn::took(std::size_t n, bool bad) {
  pos += n;
  if(!bad || failed) return;
  failed = true;
  if(mode == OK && !closed) { starved = true; return; }
  w.st.add(mode == OK ? "stream.eof.read" : "stream.fail.read");
  w.note("%s: the stream failed, at byte %zu", name.c_str(), pos);
}
bool LinkIn::wr(const char*, std::size_t) {
  w.fail("R.wrote", "a read wrote to its stream");
  return false;
}

bool LinkOut::wr(const char* s, std::size_t n) {
  OutOfLib out;
  ++ops;
  moved = 0;
  if(failed) { if(n) ++after_fail; return false; }
  if(hook && static_cast<i64>(ops) == hook_at) { w.st.add("reentry.stream"); w.note("%s: reentrant work inside write", name.c_str()); (*hook)(); }
  w.yield_point();
  if(n == 0) return true;
  if(mode != OK && n > limit - std::min(sink.size(), limit)) {
    failed = true;
    const std::size_t room = limit - std::min(sink.size(), limit);
    w.st.add(mode == THROW ? "stream.throw.write" : "stream.refuse.write");
    if(partial && room) { moved = std::min(room, partial); sink.append(s, moved); w.st.add("stream.short.write"); }
    w.note("%s: write of %zu refused, %zu bytes in%s", name.c_str(), n, sink.size(), mode == THROW ? " by throwing" : "");
    if(mode == THROW) throw_fault(fault_id, false);
    return false;
  }
  if(sink.size() + n > drained + window) {
    w.st.add("delay.writer_waited");
    bool open = false;
    w.at(1 + w.t.choose(500), [&open] { open = true; });
    const std::function<bool()> cond = [&open] { return open; };
    w.block(cond);
    drained = sink.size() + n;
  }
  sink.append(s, n);
  moved = n;
  return true;
}
int LinkOut::peek() {
  w.fail("W.readback", "a write looked at what its stream holds");
  return -1;
}
void LinkOut::gave(const std::string& bytes, bool bad) {
  sink += bytes;
  if(!bad || failed) return;
  failed = true;
  w.st.add("stream.refuse.write");
  w.note("%s: the stream refused a write, %zu bytes in", name.c_str(), sink.size());
}
bool LinkOut::rd(char*, std::size_t) {
  w.fail("W.readback", "a write read from its stream");
  return false;
}

// ------------------------------------------------------------------ hooks
void lib_enter() { if(cur) cur->in_lib = true; }
void lib_leave() { if(cur) cur->in_lib = false; }

void on_callable() {
  TaskCtx* c = cur;
  if(!c || !c->in_lib) return;
  OutOfLib out;
  ++c->calls;
  if(c->call_hook && static_cast<i64>(c->calls) == c->call_hook_at) {
    world->st.add("reentry.callable");
    world->note("reentrant work inside a callable");
    (*c->call_hook)();
  }
  if(static_cast<i64>(c->calls) == c->call_throw_at) {
    c->call_failed = true;
    world->st.add("callable.throw");
    world->note("user callable #%llu throws", c->calls);
    throw_fault(c->call_id, true);
  }
  world->yield_point();
}
}

// ------------------------------------------------------------------ allocator
namespace {
struct Hdr {
  std::size_t size;
  unsigned tagged, magic;
  void* base;
  void* pad;
};
constexpr unsigned MAGIC = 0x5a11f00d;

void* take(std::size_t n, std::size_t align) {
  sim::TaskCtx* c = sim::cur;
  const bool tag = c && c->in_lib;
  if(tag) {
    ++c->allocs;
    c->alloc_total += n;
    if(n > c->alloc_max) c->alloc_max = n;
    if(c->alloc_fail_at >= 0 && static_cast<sim::i64>(c->allocs) > c->alloc_fail_at) {
      c->alloc_failed = true;
      c->in_lib = false;
      sim::world->st.add("alloc.fail");
      sim::world->note("allocation #%llu (%zu bytes) fails", c->allocs, n);
      c->in_lib = true;
      throw std::bad_alloc();
    }
    if(n > (1ull << 30)) throw std::bad_alloc();
  }
  if(align < alignof(std::max_align_t)) align = alignof(std::max_align_t);
  char* raw = static_cast<char*>(std::malloc(n + sizeof(Hdr) + align));
  if(!raw) throw std::bad_alloc();
  auto u = reinterpret_cast<std::uintptr_t>(raw) + sizeof(Hdr);
  u = (u + align - 1) / align * align;
  auto* h = reinterpret_cast<Hdr*>(u) - 1;
  h->size = n;
  h->tagged = tag;
  h->magic = MAGIC;
  h->base = raw;
  if(tag) {
    __atomic_add_fetch(&sim::live_tagged, 1, __ATOMIC_RELAXED);
    std::memset(reinterpret_cast<void*>(u), 0xCB, n < 65536 ? n : 65536);
  }
  ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
  // Anything past the end of the block, up to the allocation's own redzone.
  const auto end = u + n;
  const auto real = reinterpret_cast<std::uintptr_t>(raw) + n + sizeof(Hdr) + align;
  if(real > end) ASAN_POISON_MEMORY_REGION(reinterpret_cast<void*>(end), real - end);
  return reinterpret_cast<void*>(u);
}

void drop(void* p) noexcept {
  if(!p) return;
  auto* h = static_cast<Hdr*>(p) - 1;
  ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
  if(h->magic != MAGIC) {
    std::fprintf(stderr, "ERROR: AddressSanitizer: bad-free (block not from operator new or freed twice)\n");
    _exit(77);
  }
  h->magic = 0;
  if(h->tagged) __atomic_sub_fetch(&sim::live_tagged, 1, __ATOMIC_RELAXED);
  std::free(h->base);
}
}

void* operator new(std::size_t n) { return take(n, 0); }
void* operator new[](std::size_t n) { return take(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return take(n, 0); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return take(n, 0); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, std::size_t) noexcept { drop(p); }
void operator delete[](void* p, std::size_t) noexcept { drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

// ------------------------------------------------------------------ basic blocks
extern "C" {
extern char __executable_start;

__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
  sim::TaskCtx* c = sim::cur;
  if(!c || !c->in_lib) return;
  const auto pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<std::uintptr_t>(&__executable_start);
  if(sim::cov_map) sim::cov_map[(pc * 0x9e3779b97f4a7c15ull) >> 45] = 1;
  if(++c->blocks > sim::runaway_limit) {
    std::fprintf(stderr, "RUNAWAY: a cast executed more than %llu basic blocks\n", sim::runaway_limit);
    _exit(78);
  }
  if(c->budget && --c->budget == 0) {
    c->in_lib = false;
    sim::world->st.add("preempt");
    sim::hand_over();
    c->in_lib = true;
  }
}

}
