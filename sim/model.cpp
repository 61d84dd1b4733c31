// The executable reference model: what a schema means, worked out from the
// documentation and interpreted from the S-expression. No s2s code here.
#include "rt.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>

namespace sim {

// ------------------------------------------------------------------ parsing
namespace {
struct Node {
  bool atom = false;
  std::string s;
  std::vector<Node> k;
};

struct Parser {
  const char* p;
  Node next() {
    while(*p == ' ' || *p == '\n') ++p;
    Node n;
    if(*p == '(') {
      ++p;
      for(;;) {
        while(*p == ' ' || *p == '\n') ++p;
        if(*p == ')') { ++p; return n; }
        if(!*p) { std::fprintf(stderr, "bad ir\n"); std::abort(); }
        n.k.push_back(next());
      }
    }
    n.atom = true;
    while(*p && *p != ' ' && *p != '(' && *p != ')' && *p != '\n') n.s += *p++;
    return n;
  }
};

u64 num(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); }

const std::map<std::string, Expr::Op> op_names = {
  {"+", Expr::ADD}, {"-", Expr::SUB}, {"*", Expr::MUL}, {"&", Expr::AND}, {"|", Expr::OR}, {"^", Expr::XOR},
  {"==", Expr::EQ}, {"!=", Expr::NE}, {"<", Expr::LT}, {">", Expr::GT}, {"<=", Expr::LE}, {">=", Expr::GE},
  {"s<", Expr::SLT}, {"s>", Expr::SGT}, {"s<=", Expr::SLE}, {"s>=", Expr::SGE}, {"/", Expr::DIV}, {"%", Expr::MOD},
  {"<<", Expr::SHL}, {">>", Expr::SHR}, {"and", Expr::LAND}, {"or", Expr::LOR}, {"not", Expr::NOT},
  {"size", Expr::SIZE}, {"sum", Expr::SUM}, {"at", Expr::AT}, {"has", Expr::HAS}, {"val", Expr::VALUE},
  {"idx", Expr::IDX}, {"mem", Expr::MEM}, {"emem", Expr::EMEM}, {"beq", Expr::BEQ}, {"leq", Expr::LEQ}};

Expr parse_expr(const Node& n) {
  Expr e;
  if(n.atom) {
    if(n.s[0] == '$') { e.op = Expr::ARG; e.arg = std::atoi(n.s.c_str() + 1); }
    else e.lit = num(n.s);
    return e;
  }
  const auto it = op_names.find(n.k[0].s);
  if(it == op_names.end()) { std::fprintf(stderr, "bad op %s\n", n.k[0].s.c_str()); std::abort(); }
  e.op = it->second;
  switch(e.op) {
    case Expr::SIZE: case Expr::SUM: case Expr::HAS: case Expr::VALUE: case Expr::IDX:
      e.arg = std::atoi(n.k[1].s.c_str() + 1); break;
    case Expr::AT: e.arg = std::atoi(n.k[1].s.c_str() + 1); e.lit = num(n.k[2].s); break;
    case Expr::MEM: case Expr::EMEM: e.arg = std::atoi(n.k[1].s.c_str() + 1); e.id = n.k[2].s; break;
    case Expr::BEQ: case Expr::LEQ:
      e.arg = std::atoi(n.k[1].s.c_str() + 1);
      for(std::size_t i = 2; i < n.k.size(); ++i) e.lits.push_back(num(n.k[i].s));
      break;
    default:
      for(std::size_t i = 1; i < n.k.size(); ++i) e.kids.push_back(parse_expr(n.k[i]));
  }
  return e;
}

Fun parse_fun(const std::vector<Node>& k, std::size_t at) {
  Fun f;
  f.e = parse_expr(k[at]);
  for(std::size_t i = at + 1; i < k.size(); ++i) f.ids.push_back(k[i].s);
  return f;
}

struct Build {
  Sch& s;
  const Ops& ops;
  u64 def;

  const List* list(const std::string& n) {
    for(auto& l : s.lists) if(l->name == n) return l.get();
    std::fprintf(stderr, "no list %s\n", n.c_str());
    std::abort();
  }

  void size_axis(Type& t, const Node& n, const Node& ceil) {
    if(n.k[0].s == "lf") { t.lf = true; t.len_id = n.k[1].s; }
    else { t.lfs = true; t.size_fn = parse_fun(n.k, 1); s.has_comp = true; }
    if(ceil.s == "D") { t.def_ceil = true; t.ceil = def; }
    else t.ceil = num(ceil.s);
    s.has_var = true;
  }

  Type type(const Node& n) {
    Type t;
    const auto& h = n.k[0].s;
    auto I = [&](std::size_t i) { return static_cast<std::size_t>(num(n.k[i].s)); };
    if(h == "int") { t.k = Type::INT; t.tw = I(1); t.sign = I(2); t.w = I(3); }
    else if(h == "arr") { t.k = Type::ARR; t.count = I(1); t.tw = t.w = I(2); t.sign = I(3); }
    else if(h == "raw") { t.k = Type::RAW; t.count = I(1); }
    else if(h == "rec") { t.k = Type::REC; t.rec = list(t.rec_name = n.k[1].s); s.has_rec = true; }
    else if(h == "arec") { t.k = Type::AREC; t.count = I(1); t.rec = list(t.rec_name = n.k[2].s); s.has_rec = true; }
    else if(h == "str") { t.k = Type::STR; t.tw = t.w = 1; size_axis(t, n.k[1], n.k[2]); }
    else if(h == "vec") {
      t.k = Type::VEC; t.group = I(1); t.tw = t.w = I(2); t.sign = I(3);
      t.esz = t.group * t.tw;
      size_axis(t, n.k[4], n.k[5]);
    } else if(h == "vrec") {
      t.k = Type::VREC; t.rec = list(t.rec_name = n.k[1].s); s.has_rec = true;
      size_axis(t, n.k[2], n.k[3]);
      t.esz = ops.sizes[num(n.k[4].s.substr(1))];
    } else if(h == "union") {
      t.k = Type::UNION;
      s.has_union = true;
      const auto& d = n.k[1];
      if(d.k[0].s == "field") { t.mode = 0; t.disc_id = d.k[1].s; }
      else if(d.k[0].s == "compute") {
        t.mode = 1; t.in_w = num(d.k[1].s); t.in_sign = num(d.k[2].s); t.input = parse_fun(d.k, 3);
        s.has_select = true;
      } else { t.mode = 2; s.has_select = true; }
      for(std::size_t i = 2; i < n.k.size(); ++i) {
        const auto& a = n.k[i];
        Type::Alt alt;
        if(a.k[1].atom) alt.sel = num(a.k[1].s);
        else alt.pred = parse_fun(a.k[1].k, 0);
        alt.t = type(a.k[2]);
        if(a.k[3].k.size() > 1) { alt.has_con = true; alt.con = parse_expr(a.k[3].k[1]); s.has_con = true; }
        t.alts.push_back(std::move(alt));
      }
    } else { std::fprintf(stderr, "bad type %s\n", h.c_str()); std::abort(); }
    return t;
  }

  // Member names inside expressions become positions.
  void bind(Expr& e, const std::vector<const Type*>& args) {
    if(e.op == Expr::MEM || e.op == Expr::EMEM) {
      const List* l = args[e.arg]->rec;
      e.lit = static_cast<u64>(l->f[l->find(e.id)].vis);
    }
    for(auto& k : e.kids) bind(k, args);
  }
  void bind(Fun& f, const List& l) {
    std::vector<const Type*> args;
    for(const auto& id : f.ids) {
      const int i = l.find(id);
      if(i < 0) { std::fprintf(stderr, "no field %s\n", id.c_str()); std::abort(); }
      f.idx.push_back(i);
      args.push_back(&l.f[i].t);
    }
    bind(f.e, args);
  }
  static void lits(const Expr& e, std::vector<u64>& out) {
    if(e.op == Expr::LIT) out.push_back(e.lit);
    for(const auto& k : e.kids) lits(k, out);
  }
  void bind_type(Type& t, List& l) {
    if(t.lf) {
      t.len_idx = l.find(t.len_id);
      auto& n = l.f[t.len_idx];
      const int bits = 8 * n.t.w - (n.t.sign && n.t.w == n.t.tw ? 1 : 0);
      if(bits <= 16 || (bits <= 24 && t.k == Type::STR)) t.len_top = (1ull << bits) - 1;
      if(t.ceil / t.esz < 100000)
        for(u64 d : {t.ceil / t.esz - 1, t.ceil / t.esz, t.ceil / t.esz + 1}) n.edges.push_back(d);
    }
    if(t.lfs) bind(t.size_fn, l);
    if(t.k == Type::UNION) {
      if(t.mode == 0) {
        t.disc_idx = l.find(t.disc_id);
        for(const auto& a : t.alts) l.f[t.disc_idx].cases.push_back(a.sel);
      } else if(t.mode == 1) bind(t.input, l);
      for(auto& a : t.alts) {
        if(t.mode == 2) bind(a.pred, l);
        bind_type(a.t, l);
        if(a.has_con) bind(a.con, {&a.t});
      }
    }
  }

  void field_list(const Node& n) {
    auto l = std::make_unique<List>();
    l->name = n.k[1].s;
    for(std::size_t i = 2; i < n.k.size(); ++i) {
      const auto& a = n.k[i];
      Field f;
      f.id = a.k[1].s;
      f.t = type(a.k[2]);
      if(a.k[3].k.size() > 1) { f.has_con = true; f.con = parse_expr(a.k[3].k[1]); s.has_con = true; }
      for(std::size_t j = 4; j < a.k.size(); ++j) {
        const auto& h = a.k[j].k[0].s;
        if(h == "len") { f.len = true; s.has_len = true; }
        else if(h == "clen") { f.clen = true; s.has_clen = true; }
        else if(h == "disc") { f.disc = true; s.has_disc = true; }
        else if(h == "frozen") { f.frozen = true; s.has_frozen = true; }
        else if(h == "maybe") { f.maybe = true; f.pred = parse_fun(a.k[j].k, 1); s.has_maybe = true; }
        else if(h == "hints") for(std::size_t q = 1; q < a.k[j].k.size(); ++q) f.hints.push_back(num(a.k[j].k[q].s));
      }
      l->f.push_back(std::move(f));
    }
    int vis = 0;
    for(auto& f : l->f) if(!f.len) f.vis = vis++;
    for(auto& f : l->f) {
      bind_type(f.t, *l);
      if(f.has_con) bind(f.con, {&f.t});
      if(f.maybe) bind(f.pred, *l);
    }
    s.lists.push_back(std::move(l));
  }
};
}

std::unique_ptr<Sch> parse_schema(const Ops& ops, u64 def) {
  auto s = std::make_unique<Sch>();
  s->ops = &ops;
  Parser p{ops.ir};
  const Node root = p.next();
  Build b{*s, ops, def};
  for(const auto& n : root.k) b.field_list(n);
  s->root = s->lists.back().get();
  return s;
}

const char* reason_name(int r) {
  static const char* n[] = {"buffer_exhaustion", "validation_failure", "type_deduction_failure",
                            "found_contradicting_length", "excessive_length"};
  return r >= 0 && r < 5 ? n[r] : "?";
}

// ------------------------------------------------------------------ evaluation
namespace {
using Args = std::vector<const Val*>;

u64 ev(const Expr& e, const Args& a) {
  auto k = [&](int i) { return ev(e.kids[i], a); };
  auto sk = [&](int i) { return static_cast<i64>(ev(e.kids[i], a)); };
  switch(e.op) {
    case Expr::LIT: return e.lit;
    case Expr::ARG: return a[e.arg]->i;
    case Expr::ADD: return k(0) + k(1);
    case Expr::SUB: return k(0) - k(1);
    case Expr::MUL: return k(0) * k(1);
    case Expr::AND: return k(0) & k(1);
    case Expr::OR: return k(0) | k(1);
    case Expr::XOR: return k(0) ^ k(1);
    case Expr::EQ: return k(0) == k(1);
    case Expr::NE: return k(0) != k(1);
    case Expr::LT: return k(0) < k(1);
    case Expr::GT: return k(0) > k(1);
    case Expr::LE: return k(0) <= k(1);
    case Expr::GE: return k(0) >= k(1);
    case Expr::SLT: return sk(0) < sk(1);
    case Expr::SGT: return sk(0) > sk(1);
    case Expr::SLE: return sk(0) <= sk(1);
    case Expr::SGE: return sk(0) >= sk(1);
    case Expr::DIV: { const u64 d = k(1); return d ? k(0) / d : 0; }
    case Expr::MOD: { const u64 d = k(1); return d ? k(0) % d : 0; }
    case Expr::SHL: return k(0) << (k(1) & 63);
    case Expr::SHR: return k(0) >> (k(1) & 63);
    case Expr::LAND: return k(0) && k(1);
    case Expr::LOR: return k(0) || k(1);
    case Expr::NOT: return !k(0);
    case Expr::SIZE: {
      const Val& v = *a[e.arg];
      return v.k == Val::BYTES ? v.b.size() : v.k == Val::SEQ ? v.kids.size() : v.i;
    }
    case Expr::SUM: {
      const Val& v = *a[e.arg];
      u64 s = 0;
      if(v.k == Val::BYTES) for(unsigned char c : v.b) s += c;
      else for(u64 x : v.n) s += x;
      return s;
    }
    case Expr::AT: {
      const Val& v = *a[e.arg];
      if(v.k == Val::BYTES) return e.lit < v.b.size() ? static_cast<u8>(v.b[e.lit]) : 0;
      return e.lit < v.n.size() ? v.n[e.lit] : 0;
    }
    case Expr::HAS: return a[e.arg]->i;
    case Expr::VALUE: return a[e.arg]->i ? a[e.arg]->kids[0].i : 0;
    case Expr::IDX: return a[e.arg]->i;
    case Expr::MEM: return a[e.arg]->kids[e.lit].i;
    case Expr::EMEM: {
      u64 s = 0;
      for(const auto& r : a[e.arg]->kids) s += r.kids[e.lit].i;
      return s;
    }
    case Expr::BEQ: {
      const auto& b = a[e.arg]->b;
      if(b.size() != e.lits.size()) return 0;
      for(std::size_t i = 0; i < b.size(); ++i) if(static_cast<u8>(b[i]) != e.lits[i]) return 0;
      return 1;
    }
    case Expr::LEQ: return a[e.arg]->n == e.lits;
  }
  return 0;
}

bool holds(const Expr& con, const Val& v) { return ev(con, {&v}) != 0; }

u64 trunc_ext(u64 x, int w, int sign) {
  if(w >= 8) return x;
  x &= (1ull << (w * 8)) - 1;
  if(sign == 1 && (x >> (w * 8 - 1))) x |= ~0ull << (w * 8);
  return x;
}

bool fits(const Type& t, u64 v) { return trunc_ext(v, t.w, t.w == t.tw ? t.sign : 0) == v; }

void put(std::string& out, u64 v, int w, bool be) {
  for(int i = 0; i < w; ++i) out += static_cast<char>(v >> (8 * (be ? w - 1 - i : i)));
}

u64 get(const char* p, int w, bool be, int sign) {
  u64 v = 0;
  for(int i = 0; i < w; ++i) v |= static_cast<u64>(static_cast<u8>(p[i])) << (8 * (be ? w - 1 - i : i));
  return trunc_ext(v, w, sign);
}

u64 run_fun(const Fun& f, const std::vector<Val>& slots) {
  Args a;
  for(int i : f.idx) a.push_back(&slots[i]);
  return ev(f.e, a);
}

// Which alternative the sibling values select; -1 none.
int select_alt(const Type& t, const std::vector<Val>& slots) {
  if(t.mode == 2) {
    for(std::size_t i = 0; i < t.alts.size(); ++i)
      if(run_fun(t.alts[i].pred, slots)) return static_cast<int>(i);
    return -1;
  }
  const u64 x = t.mode == 0 ? slots[t.disc_idx].i : trunc_ext(run_fun(t.input, slots), t.in_w, t.in_sign);
  for(std::size_t i = 0; i < t.alts.size(); ++i) if(t.alts[i].sel == x) return static_cast<int>(i);
  return -1;
}

// ------------------------------------------------------------------ decode
struct Decoder {
  bool be;
  const std::string& w;
  std::size_t limit, p;
  Dec& out;

  bool fail(int r) { out.reason = r; return false; }
  bool take(std::size_t n, const char*& at) {
    out.bounds.push_back(p);
    if(n > limit || p > limit - n) {
      out.leaf_start = p;
      return fail(BUFFER_EXHAUSTION);
    }
    at = w.data() + p;
    p += n;
    return true;
  }
  bool type(const Type& t, const std::vector<Val>& slots, Val& v) {
    const char* q;
    switch(t.k) {
      case Type::INT:
        v.k = Val::INT;
        if(!take(t.w, q)) return false;
        v.i = get(q, t.w, be, t.w == t.tw ? t.sign : 0);
        return true;
      case Type::ARR:
        v.k = Val::INTS;
        v.i = t.count;
        if(!take(t.count * t.w, q)) return false;
        for(std::size_t i = 0; i < t.count; ++i) v.n.push_back(get(q + i * t.w, t.w, be, t.sign));
        return true;
      case Type::RAW:
        v.k = Val::BYTES;
        if(!take(t.count, q)) return false;
        v.b.assign(q, t.count);
        return true;
      case Type::REC: return list(*t.rec, v, false);
      case Type::AREC:
        v.k = Val::SEQ;
        for(std::size_t i = 0; i < t.count; ++i) {
          v.kids.emplace_back();
          if(!list(*t.rec, v.kids.back(), false)) return false;
        }
        return true;
      case Type::STR: case Type::VEC: case Type::VREC: {
        const u64 len = t.lf ? slots[t.len_idx].i : run_fun(t.size_fn, slots);
        if(len > t.ceil / t.esz) return fail(EXCESSIVE);
        out.max_alloc = std::max<u64>(out.max_alloc, len * t.esz);
        out.sum_alloc += len * t.esz;
        // Room for a library that grows the container, but not past its ceiling.
        out.cap_alloc = std::max<u64>(out.cap_alloc, std::min<u64>(len * t.esz > (~0ull >> 2) ? ~0ull : 2 * len * t.esz + 256, t.ceil > ~0ull - 64 ? ~0ull : t.ceil + 64));
        if(t.k == Type::VREC) {
          v.k = Val::SEQ;
          for(u64 i = 0; i < len; ++i) {
            v.kids.emplace_back();
            if(!list(*t.rec, v.kids.back(), false)) return false;
          }
          return true;
        }
        if(!take(len * t.esz, q)) return false;
        if(t.k == Type::STR) { v.k = Val::BYTES; v.b.assign(q, len); return true; }
        v.k = Val::INTS;
        v.i = len;
        v.n.reserve(len * t.group);
        for(std::size_t i = 0; i < len * t.group; ++i) v.n.push_back(get(q + i * t.w, t.w, be, t.sign));
        return true;
      }
      case Type::UNION: {
        const int a = select_alt(t, slots);
        if(a < 0) return fail(DEDUCTION);
        v.k = Val::VAR;
        v.i = a;
        v.kids.resize(1);
        if(!type(t.alts[a].t, slots, v.kids[0])) return false;
        if(t.alts[a].has_con && !holds(t.alts[a].con, v.kids[0])) return fail(VALIDATION);
        return true;
      }
    }
    return false;
  }
  bool list(const List& l, Val& v, bool root) {
    std::vector<Val> slots(l.f.size());
    for(std::size_t i = 0; i < l.f.size(); ++i) {
      const Field& f = l.f[i];
      if(root) { out.field = static_cast<int>(i); out.root_start.push_back(p); }
      Val& x = slots[i];
      if(f.maybe) {
        x.k = Val::OPT;
        x.i = run_fun(f.pred, slots) != 0;
        x.kids.resize(x.i);
        if(x.i && !type(f.t, slots, x.kids[0])) return false;
      } else if(!type(f.t, slots, x)) return false;
      if(f.has_con && !holds(f.con, x)) return fail(VALIDATION);
    }
    v.k = Val::LIST;
    for(std::size_t i = 0; i < l.f.size(); ++i) if(!l.f[i].len) v.kids.push_back(std::move(slots[i]));
    return true;
  }
};
}

Dec decode(const Sch& s, bool be, const std::string& w, std::size_t limit, std::size_t start) {
  Dec d;
  Decoder x{be, w, std::min(limit, w.size()), start, d};
  d.ok = x.list(*s.root, d.v, true);
  if(d.ok) { d.reason = -1; d.field = -1; }
  d.pos = x.p;
  return d;
}

// ------------------------------------------------------------------ encode
namespace {
// Places the value a frozen field's constraint names.
void frozen_value(const Field& f, Val& v) {
  const Expr& c = f.con;
  if(c.op == Expr::EQ) { v.k = Val::INT; v.i = c.kids[1].lit; }
  else if(c.op == Expr::BEQ) { v.k = Val::BYTES; v.b.clear(); for(u64 x : c.lits) v.b += static_cast<char>(x); }
  else { v.k = Val::INTS; v.n = c.lits; v.i = f.t.count; }
}

std::size_t visible_size(const Type& t, const Val& v) {
  return t.k == Type::STR ? v.b.size() : t.k == Type::VREC ? v.kids.size() : v.i;
}

struct Encoder {
  bool be;
  bool lenient;     // judge a conditional length only by producers that would be written
  Enc& out;
  int root_field = -1;
  std::set<int> why = {};

  bool fail(std::set<int> r) { why = std::move(r); return false; }
  void leaf(std::size_t start) { out.leaves.push_back({start, out.bytes.size(), root_field}); }

  // Field-level reasons that forbid writing this value, without its insides.
  void field_reasons(const Type& t, const Val& v, const std::vector<Val>& w, std::set<int>& r) {
    if(t.lfs && run_fun(t.size_fn, w) != visible_size(t, v)) r.insert(CONTRADICTION);
    if(t.k == Type::UNION) {
      if(t.mode != 0) {
        const int a = select_alt(t, w);
        if(a < 0) r.insert(DEDUCTION);
        else if(static_cast<u64>(a) != v.i) r.insert(VALIDATION);
      }
      const auto& alt = t.alts[v.i];
      if(alt.has_con && !holds(alt.con, v.kids[0])) r.insert(VALIDATION);
      field_reasons(alt.t, v.kids[0], w, r);
    }
  }

  bool emit(const Type& t, const Val& v) {
    const std::size_t at = out.bytes.size();
    switch(t.k) {
      case Type::INT: put(out.bytes, v.i, t.w, be); leaf(at); return true;
      case Type::ARR: case Type::VEC: for(u64 x : v.n) put(out.bytes, x, t.w, be); leaf(at); return true;
      case Type::RAW: case Type::STR: out.bytes += v.b; leaf(at); return true;
      case Type::REC: return list(*t.rec, v, false);
      case Type::AREC: case Type::VREC:
        for(const auto& k : v.kids) if(!list(*t.rec, k, false)) return false;
        return true;
      case Type::UNION: return emit(t.alts[v.i].t, v.kids[0]);
    }
    return false;
  }

  // Reasons that would stop the very first byte of the value's insides.
  bool nested_first(const Type& t, const Val& v, std::set<int>& r) {
    Enc probe;
    Encoder e{be, lenient, probe};
    if(e.emit(t, v)) return false;
    if(!probe.bytes.empty()) return false;
    r.insert(e.why.begin(), e.why.end());
    return true;
  }

  bool list(const List& l, const Val& v, bool root) {
    const std::size_t n = l.f.size();
    // What each field puts on the wire.
    std::vector<Val> w(n);
    std::vector<std::set<int>> bad(n);
    for(std::size_t i = 0; i < n; ++i) {
      const Field& f = l.f[i];
      if(f.len || f.disc) {
        std::vector<u64> implied;
        for(std::size_t j = 0; j < n; ++j) {
          const Field& g = l.f[j];
          if(!g.maybe && g.t.lf && g.t.len_idx == static_cast<int>(i))
            implied.push_back(visible_size(g.t, v.kids[g.vis]));
          if(g.t.k == Type::UNION && g.t.mode == 0 && g.t.disc_idx == static_cast<int>(i))
            implied.push_back(g.t.alts[v.kids[g.vis].i].sel);
        }
        w[i].k = Val::INT;
        w[i].i = implied.back();
        for(u64 x : implied) {
          if(x != implied[0]) bad[i].insert(CONTRADICTION);
          if(!fits(f.t, x)) bad[i].insert(VALIDATION);
          Val y;
          y.k = Val::INT;
          y.i = x;
          if(f.has_con && !holds(f.con, y)) bad[i].insert(VALIDATION);
        }
      } else if(f.frozen) frozen_value(f, w[i]);
      else {
        w[i] = v.kids[f.vis];
        if(f.has_con && !holds(f.con, w[i])) bad[i].insert(VALIDATION);
      }
    }
    for(std::size_t i = 0; i < n; ++i) {
      const Field& f = l.f[i];
      if(root) root_field = static_cast<int>(i);
      std::set<int> r = bad[i];
      const Val* val = &w[i];
      bool absent = false;
      if(f.maybe) {
        const bool want = run_fun(f.pred, w) != 0;
        if(want != (w[i].i != 0)) r.insert(VALIDATION);
        if(w[i].i) { val = &w[i].kids[0]; field_reasons(f.t, *val, w, r); }
        else absent = true;
      } else {
        field_reasons(f.t, *val, w, r);
      }
      if(f.clen) {
        bool active = false;
        for(const auto& g : l.f) {
          if(g.maybe && g.t.lf && g.t.len_idx == static_cast<int>(i)) {
            const Val& o = v.kids[g.vis];
            if(!o.i || !run_fun(g.pred, w)) continue;
            active = true;
            if(visible_size(g.t, o.kids[0]) != w[i].i) r.insert(CONTRADICTION);
          } else if(g.t.k == Type::UNION) {
            const Val& o = v.kids[g.vis];
            const auto& alt = g.t.alts[o.i];
            if(!alt.t.lf || alt.t.len_idx != static_cast<int>(i)) continue;
            if(lenient && g.t.mode != 0 && select_alt(g.t, w) != static_cast<int>(o.i)) continue;
            active = true;
            if(visible_size(alt.t, o.kids[0]) != w[i].i) r.insert(CONTRADICTION);
          }
        }
        if(!fits(f.t, w[i].i)) {
          if(active) r.insert(VALIDATION);
          else out.discard = true;
        }
      } else if(f.t.k == Type::INT && !f.maybe && r.empty() && !fits(f.t, w[i].i)) {
        out.discard = true;      // a plain value its declared width cannot hold
      }
      if(!r.empty()) {
        if(!absent) nested_first(f.t, *val, r);
        return fail(r);
      }
      if(absent) continue;
      if(!emit(f.t, *val)) return false;
    }
    return true;
  }
};
}

Enc encode(const Sch& s, bool be, const Val& v) {
  Enc e;
  Encoder x{be, false, e};
  e.ok = x.list(*s.root, v, true);
  if(!e.ok) e.fails.push_back({x.root_field, x.why, e.bytes.size()});
  if(s.has_clen && s.has_select) {
    Enc e2;
    Encoder y{be, true, e2};
    e2.ok = y.list(*s.root, v, true);
    if(!e2.ok && (e.ok || y.root_field != x.root_field || y.why != x.why || e2.bytes != e.bytes)) {
      e.fails.push_back({y.root_field, y.why, e2.bytes.size()});
      if(e2.bytes.size() > e.bytes.size()) { e.bytes = e2.bytes; e.leaves = e2.leaves; }
    }
    e.discard |= e2.discard;
  }
  return e;
}

// ------------------------------------------------------------------ generation
namespace {
void con_lits(const Expr& e, std::vector<u64>& out) {
  if(e.op == Expr::LIT) out.push_back(e.lit);
  for(const auto& k : e.kids) con_lits(k, out);
}
void con_seqs(const Expr& e, std::vector<const Expr*>& out) {
  if(e.op == Expr::BEQ || e.op == Expr::LEQ) out.push_back(&e);
  for(const auto& k : e.kids) con_seqs(k, out);
}

u64 any_word(Tape& t, const Type& ty) {
  const int w = ty.w;
  const int sign = ty.w == ty.tw ? ty.sign : 0;
  u64 x;
  switch(t.choose(6)) {
    case 0: x = t.choose(4); break;
    case 1: x = t.choose(256); break;
    case 2: x = 0x0102030405060708ull >> (8 * t.choose(4)); break;       // every byte different
    case 3: x = ~0ull - t.choose(3); break;
    case 4: x = (1ull << (8 * (1 + t.choose(w)) - 1)) - t.choose(2); break;
    default: x = (t.choose(1u << 30) << 34) ^ (t.choose(1u << 30) << 8) ^ t.choose(256); break;
  }
  return trunc_ext(x, w, sign);
}

u64 pick_int(Tape& t, const Type& ty, const Expr* con) {
  if(con && t.choose(3)) {
    std::vector<u64> l;
    con_lits(*con, l);
    if(!l.empty()) return trunc_ext(l[t.choose(l.size())] + t.choose(3) - 1, ty.w, ty.w == ty.tw ? ty.sign : 0);
  }
  return any_word(t, ty);
}

void fill(Tape& t, std::vector<u64>& n, std::size_t count, const Type& ty) {
  n.clear();
  if(count > 24) {
    const u64 seed = t.choose(1u << 20);
    for(std::size_t i = 0; i < count; ++i)
      n.push_back(trunc_ext(seed ? Tape::mix(seed * 1000003 + i) : 0, ty.w, ty.sign));
  } else {
    for(std::size_t i = 0; i < count; ++i) n.push_back(any_word(t, ty));
  }
}
void fill(Tape& t, std::string& b, std::size_t count) {
  b.clear();
  if(count > 24) {
    const u64 seed = t.choose(1u << 20);
    for(std::size_t i = 0; i < count; ++i) b += static_cast<char>(seed ? Tape::mix(seed * 1000003 + i) : 'a');
  } else {
    for(std::size_t i = 0; i < count; ++i) {
      const u64 c = t.choose(40);
      b += c < 30 ? static_cast<char>('a' + c) : c == 30 ? '\0' : c == 31 ? '\xff' : c == 32 ? '\n' : c == 33 ? '\r' : static_cast<char>(t.choose(256));
    }
  }
}

bool in_seq(const Expr& con, Tape& t, Val& v) {
  std::vector<const Expr*> q;
  con_seqs(con, q);
  if(q.empty() || !t.choose(4)) return false;
  const Expr& e = *q[t.choose(q.size())];
  if(v.k == Val::BYTES) {
    v.b.clear();
    for(u64 x : e.lits) v.b += static_cast<char>(x);
    if(!v.b.empty() && t.chance(1, 6)) v.b[t.choose(v.b.size())] ^= 1 << t.choose(8);
  } else {
    v.n = e.lits;
    if(!v.n.empty() && t.chance(1, 6)) v.n[t.choose(v.n.size())] ^= 1;
  }
  return true;
}

struct Wire {
  bool be;
  Tape& t;
  const GenCfg& g;
  std::string out;

  // false: the walk cannot go on (nothing selected, or a length out of reach)
  bool type(const Type& ty, const std::vector<Val>& slots, Val& v, const Expr* con) {
    switch(ty.k) {
      case Type::INT: v.k = Val::INT; v.i = pick_int(t, ty, con); put(out, v.i, ty.w, be); return true;
      case Type::ARR:
        v.k = Val::INTS; v.i = ty.count;
        if(!con || !in_seq(*con, t, v)) fill(t, v.n, ty.count, ty);
        for(u64 x : v.n) put(out, x, ty.w, be);
        return true;
      case Type::RAW:
        v.k = Val::BYTES;
        if(!con || !in_seq(*con, t, v)) fill(t, v.b, ty.count);
        out += v.b;
        return true;
      case Type::REC: return list(*ty.rec, v);
      case Type::AREC:
        v.k = Val::SEQ;
        v.kids.clear();
        for(std::size_t i = 0; i < ty.count; ++i) { v.kids.emplace_back(); if(!list(*ty.rec, v.kids.back())) return false; }
        return true;
      case Type::STR: case Type::VEC: case Type::VREC: {
        const u64 len = ty.lf ? slots[ty.len_idx].i : run_fun(ty.size_fn, slots);
        if(len > ty.ceil / ty.esz || len * ty.esz > (g.mega ? 9000000 : g.max_wire) || out.size() > g.max_wire) return false;
        if(ty.k == Type::VREC && len > 70000) return false;
        if(ty.k == Type::STR) {
          v.k = Val::BYTES;
          fill(t, v.b, len);
          out += v.b;
        } else if(ty.k == Type::VEC) {
          v.k = Val::INTS;
          v.i = len;
          fill(t, v.n, len * ty.group, ty);
          for(u64 x : v.n) put(out, x, ty.w, be);
        } else {
          v.k = Val::SEQ;
          v.kids.clear();
          // A long one repeats a few distinct elements.
          std::vector<std::string> unit;
          for(u64 i = 0; i < len; ++i) {
            if(i >= 400 || (len > 400 && i >= 7)) {
              if(out.size() > g.max_wire) return false;
              out += unit[i % unit.size()];
              v.kids.push_back(Val(v.kids[i % unit.size()]));
              continue;
            }
            const std::size_t at = out.size();
            v.kids.emplace_back();
            if(!list(*ty.rec, v.kids.back())) return false;
            if(len > 400) unit.push_back(out.substr(at));
          }
        }
        return true;
      }
      case Type::UNION: {
        const int a = select_alt(ty, slots);
        if(a < 0) return false;
        v.k = Val::VAR;
        v.i = a;
        v.kids.assign(1, {});
        return attempt(ty.alts[a].t, slots, v.kids[0], ty.alts[a].has_con ? &ty.alts[a].con : nullptr);
      }
    }
    return false;
  }
  // Draws until the constraint holds, unless this run wants a violation.
  bool attempt(const Type& ty, const std::vector<Val>& slots, Val& v, const Expr* con) {
    const bool violate = con && g.p_violate && t.chance(g.p_violate, 16);
    const std::size_t mark = out.size();
    const int tries = con ? 12 : 1;
    for(int k = 0; k < tries; ++k) {
      out.resize(mark);
      v = Val{};
      if(!type(ty, slots, v, con)) return false;
      if(!con || holds(*con, v) != violate) break;
    }
    return true;
  }
  // Sizes at which buffers, blocks and counters tend to end.
  static u64 big(Tape& t, bool mega) {
    if(mega && t.chance(1, 120)) return (1ull << (19 + t.choose(4))) + (t.choose(2) ? t.choose(3) - 1 : t.choose(70000));
    if(t.choose(8) == 0) return 65535 + t.choose(3);
    if(t.choose(3) == 0) return t.choose(3000);
    const u64 a = t.choose(9), b = t.choose(9);
    const u64 bytes = (256ull << std::min(a, b)) >> (t.choose(2) ? 0 : t.choose(4));
    return bytes + t.choose(3) - 1;
  }
  bool len_field(const Field& f, Val& v) {
    v.k = Val::INT;
    const bool violate = f.has_con && g.p_violate && t.chance(g.p_violate, 16);
    for(int k = 0; k < 12; ++k) {
      if(!f.cases.empty() && t.choose(8)) v.i = f.cases[t.choose(f.cases.size())];
      else if(g.p_huge && t.chance(g.p_huge, 16)) {
        switch(t.choose(6)) {
          case 0: v.i = 1ull << (8 * f.t.w - 1 - t.choose(8)); break;
          case 1: v.i = ~0ull - t.choose(4); break;
          case 2: v.i = (~0ull >> t.choose(5)) + 1 + t.choose(9); break;      // wraps when multiplied
          case 3: v.i = 0x1000000 + t.choose(3) - 1; break;
          case 4: v.i = 0x1000000 / 8 + t.choose(3) - 1; break;
          default: v.i = t.choose(1u << 26); break;
        }
      }
      else if(g.p_edge && !f.edges.empty() && t.chance(g.p_edge, 16)) v.i = f.edges[t.choose(f.edges.size())];
      else if(g.p_big && t.chance(g.p_big, 64)) v.i = big(t, g.mega);
      else v.i = t.choose(g.len_max + 1);
      if(f.has_con && k > 2) { std::vector<u64> l; con_lits(f.con, l); if(!l.empty()) v.i = l[t.choose(l.size())]; }
      v.i = trunc_ext(v.i, f.t.w, f.t.w == f.t.tw ? f.t.sign : 0);
      if(!f.has_con || holds(f.con, v) != violate) break;
    }
    put(out, v.i, f.t.w, be);
    return true;
  }
  bool list(const List& l, Val& v) {
    std::vector<Val> slots(l.f.size());
    for(std::size_t i = 0; i < l.f.size(); ++i) {
      const Field& f = l.f[i];
      Val& x = slots[i];
      const Expr* con = f.has_con ? &f.con : nullptr;
      if(f.frozen && !f.len && !f.disc) {
        frozen_value(f, x);
        const bool spoil = g.p_violate && t.chance(g.p_violate, 16);
        std::string b;
        if(f.t.k == Type::INT) put(b, x.i, f.t.w, be);
        else if(f.t.k == Type::RAW) b = x.b;
        else for(u64 y : x.n) put(b, y, f.t.w, be);
        if(spoil && !b.empty()) b[t.choose(b.size())] ^= static_cast<char>(1 << t.choose(8));
        out += b;
      } else if(f.maybe) {
        x.k = Val::OPT;
        x.i = run_fun(f.pred, slots) != 0;
        x.kids.resize(x.i);
        if(x.i && !attempt(f.t, slots, x.kids[0], nullptr)) return false;
      } else if(f.len || f.clen) {
        len_field(f, x);
      } else if(f.disc) {
        x.k = Val::INT;
        const bool odd = g.p_odd && t.chance(g.p_odd, 16);
        for(int k = 0; k < 12; ++k) {
          x.i = odd ? pick_int(t, f.t, con) : f.cases[t.choose(f.cases.size())];
          if(!con || holds(*con, x) || (g.p_violate && t.chance(g.p_violate, 16))) break;
        }
        put(out, x.i, f.t.w, be);
      } else if(!f.hints.empty() && (!g.p_odd || !t.chance(g.p_odd, 16))) {
        x.k = Val::INT;
        x.i = f.hints[t.choose(f.hints.size())];
        put(out, x.i, f.t.w, be);
      } else if(!attempt(f.t, slots, x, con)) return false;
    }
    v.k = Val::LIST;
    v.kids.clear();
    for(std::size_t i = 0; i < l.f.size(); ++i) if(!l.f[i].len) v.kids.push_back(std::move(slots[i]));
    return true;
  }
};
}

std::string gen_wire(const Sch& s, bool be, Tape& t, const GenCfg& g) {
  Wire w{be, t, g, {}};
  Val v;
  w.list(*s.root, v);
  return std::move(w.out);
}

bool gen_valid(const Sch& s, bool be, Tape& t, const GenCfg& g, std::string& wire, Dec& d) {
  GenCfg c = g;
  c.p_violate = 0;
  for(int k = 0; k < 6; ++k) {
    if(k == 3) { c.p_odd = 0; c.p_edge = 0; c.p_big = 0; }
    wire = gen_wire(s, be, t, c);
    d = decode(s, be, wire, wire.size());
    if(d.ok) return true;
  }
  return false;
}

// ------------------------------------------------------------------ edits
namespace {
struct Editor {
  Tape& t;
  bool over_wide;

  void value(const Type& ty, Val& v, const Expr* con) {
    for(int k = 0; k < 6; ++k) {
      fresh(ty, v, con);
      if(!con || holds(*con, v) || t.chance(1, 6)) return;
    }
  }
  void fresh(const Type& ty, Val& v, const Expr* con) {
    v = Val{};
    switch(ty.k) {
      case Type::INT: v.k = Val::INT; v.i = pick_int(t, ty, con); return;
      case Type::ARR: v.k = Val::INTS; v.i = ty.count; if(!con || !in_seq(*con, t, v)) fill(t, v.n, ty.count, ty); return;
      case Type::RAW: v.k = Val::BYTES; if(!con || !in_seq(*con, t, v)) fill(t, v.b, ty.count); return;
      case Type::REC: rec(*ty.rec, v); return;
      case Type::AREC: v.k = Val::SEQ; for(std::size_t i = 0; i < ty.count; ++i) { v.kids.emplace_back(); rec(*ty.rec, v.kids.back()); } return;
      case Type::STR: v.k = Val::BYTES; fill(t, v.b, len(ty)); return;
      case Type::VEC: v.k = Val::INTS; v.i = len(ty); fill(t, v.n, v.i * ty.group, ty); return;
      case Type::VREC: {
        v.k = Val::SEQ;
        const std::size_t n = over_wide ? len(ty) : t.choose(5);
        const bool wide = over_wide;
        if(n > 7) over_wide = false;
        for(std::size_t i = 0; i < n; ++i) {
          if(i >= 7) { v.kids.push_back(Val(v.kids[i % 7])); continue; }
          v.kids.emplace_back();
          rec(*ty.rec, v.kids.back());
        }
        if(n <= 300) over_wide = wide;
        return;
      }
      case Type::UNION:
        v.k = Val::VAR;
        v.i = t.choose(ty.alts.size());
        v.kids.resize(1);
        value(ty.alts[v.i].t, v.kids[0], ty.alts[v.i].has_con ? &ty.alts[v.i].con : nullptr);
        return;
    }
  }
  std::size_t len(const Type& ty) {
    if(over_wide && t.chance(1, 6)) {
      if(ty.len_top && ty.len_top <= 255) return ty.len_top - 1 + t.choose(4);
      if(ty.len_top && t.chance(1, ty.k == Type::VREC ? 240 : ty.len_top > 65535 ? 120 : 60)) {
        over_wide = false;      // one such is enough
        if(ty.len_top > 65535) return ty.len_top + (t.choose(6) ? 1 + t.choose(3) : 0);
        return ty.len_top - 1 + t.choose(4);
      }
      return ty.k == Type::VREC ? t.choose(5) : 250 + t.choose(20);
    }
    return t.choose(7);
  }
  void blank(const Field& f, Val& v) {
    // A read-only slot: the tree needs something of the right kind.
    v = Val{};
    if(f.t.k == Type::INT) v.k = Val::INT;
    else if(f.t.k == Type::RAW) { v.k = Val::BYTES; v.b.assign(f.t.count, '\0'); }
    else { v.k = Val::INTS; v.i = f.t.count; v.n.assign(f.t.count, 0); }
  }
  void slot(const Field& f, Val& v) {
    if(f.disc || f.frozen) { blank(f, v); return; }
    if(f.maybe) {
      v = Val{};
      v.k = Val::OPT;
      v.i = t.choose(2);
      v.kids.resize(v.i);
      if(v.i) value(f.t, v.kids[0], nullptr);
      return;
    }
    if(f.clen && t.choose(4)) { v = Val{}; v.k = Val::INT; v.i = t.choose(7); return; }
    if(!f.hints.empty() && t.choose(4)) { v = Val{}; v.k = Val::INT; v.i = f.hints[t.choose(f.hints.size())]; return; }
    value(f.t, v, f.has_con ? &f.con : nullptr);
  }
  void rec(const List& l, Val& v) {
    v = Val{};
    v.k = Val::LIST;
    for(const auto& f : l.f) if(!f.len) { v.kids.emplace_back(); slot(f, v.kids.back()); }
    repair(l, v);
  }

  // Small, in-place change of one value: the kind a caller makes.
  void tweak(const Type& ty, Val& v, const Expr* con) {
    switch(ty.k) {
      case Type::STR:
        switch(t.choose(4)) {
          case 0: v.b += static_cast<char>('a' + t.choose(26)); return;
          case 1: if(!v.b.empty()) v.b.pop_back(); return;
          case 2: v.b.clear(); return;
          default: fresh(ty, v, con); return;
        }
      case Type::VEC:
        switch(t.choose(4)) {
          case 0: for(std::size_t i = 0; i < ty.group; ++i) v.n.push_back(any_word(t, ty)); ++v.i; return;
          case 1: if(v.i) { --v.i; v.n.resize(v.i * ty.group); } return;
          case 2: v.i = 0; v.n.clear(); return;
          default: fresh(ty, v, con); return;
        }
      case Type::VREC: case Type::AREC: {
        const u64 c = t.choose(4);
        if(c == 0 && ty.k == Type::VREC) { v.kids.emplace_back(); rec(*ty.rec, v.kids.back()); }
        else if(c == 1 && ty.k == Type::VREC) { if(!v.kids.empty()) v.kids.pop_back(); }
        else if(c == 2 && !v.kids.empty()) { list(*ty.rec, v.kids[t.choose(v.kids.size())]); }
        else fresh(ty, v, con);
        return;
      }
      case Type::REC: list(*ty.rec, v); return;
      case Type::UNION:
        if(t.choose(3) == 0) tweak(ty.alts[v.i].t, v.kids[0], ty.alts[v.i].has_con ? &ty.alts[v.i].con : nullptr);
        else fresh(ty, v, con);
        return;
      default: value(ty, v, con);
    }
  }
  int list(const List& l, Val& v) {
    std::vector<int> can;
    for(std::size_t i = 0; i < l.f.size(); ++i)
      if(!l.f[i].len && !l.f[i].disc && !l.f[i].frozen) can.push_back(static_cast<int>(i));
    if(can.empty()) return -1;
    const Field& f = l.f[can[t.choose(can.size())]];
    Val& x = v.kids[f.vis];
    if(f.maybe) {
      if(x.i && t.choose(2)) tweak(f.t, x.kids[0], nullptr);
      else if(x.i) { x.i = 0; x.kids.clear(); }
      else { x.i = 1; x.kids.resize(1); value(f.t, x.kids[0], nullptr); }
    } else if((f.clen || !f.hints.empty()) && t.choose(3)) slot(f, x);
    else if(f.clen && over_wide && t.chance(1, 4)) x.i = trunc_ext(256 + t.choose(6), f.t.tw, f.t.sign);
    else tweak(f.t, x, f.has_con ? &f.con : nullptr);
    return f.vis;
  }

  // Brings everything that must agree into agreement, as a careful caller does.
  void repair(const List& l, Val& v) {
    for(int pass = 0; pass < 2; ++pass) {
      std::vector<Val> w(l.f.size());
      auto written = [&](std::size_t i) {
        const Field& f = l.f[i];
        if(f.len || f.disc) {
          w[i].k = Val::INT;
          for(const auto& g : l.f) {
            if(!g.maybe && g.t.lf && g.t.len_idx == static_cast<int>(i)) w[i].i = visible_size(g.t, v.kids[g.vis]);
            if(g.t.k == Type::UNION && g.t.mode == 0 && g.t.disc_idx == static_cast<int>(i)) w[i].i = g.t.alts[v.kids[g.vis].i].sel;
          }
        } else if(f.frozen) frozen_value(f, w[i]);
        else w[i] = v.kids[f.vis];
      };
      for(std::size_t i = 0; i < l.f.size(); ++i) written(i);
      // containers sharing one length
      for(std::size_t i = 0; i < l.f.size(); ++i) {
        if(!l.f[i].len) continue;
        i64 want = -1;
        for(const auto& g : l.f) {
          if(g.maybe || !g.t.lf || g.t.len_idx != static_cast<int>(i)) continue;
          if(want < 0) want = static_cast<i64>(visible_size(g.t, v.kids[g.vis]));
          else resize(g.t, v.kids[g.vis], want);
        }
        // a discriminant that is also a length
        for(const auto& g : l.f)
          if(g.t.k == Type::UNION && g.t.mode == 0 && g.t.disc_idx == static_cast<int>(i))
            for(const auto& h : l.f)
              if(!h.maybe && h.t.lf && h.t.len_idx == static_cast<int>(i)) resize(h.t, v.kids[h.vis], g.t.alts[v.kids[g.vis].i].sel);
        written(i);
      }
      // unions sharing one discriminant
      for(std::size_t i = 0; i < l.f.size(); ++i) {
        if(!l.f[i].disc) continue;
        bool have = false;
        u64 sel = 0;
        for(const auto& g : l.f) {
          if(g.t.k != Type::UNION || g.t.mode != 0 || g.t.disc_idx != static_cast<int>(i)) continue;
          Val& o = v.kids[g.vis];
          if(!have) { have = true; sel = g.t.alts[o.i].sel; continue; }
          for(std::size_t a = 0; a < g.t.alts.size(); ++a)
            if(g.t.alts[a].sel == sel && o.i != a) { o.i = a; value(g.t.alts[a].t, o.kids[0], g.t.alts[a].has_con ? &g.t.alts[a].con : nullptr); }
        }
        written(i);
      }
      for(std::size_t i = 0; i < l.f.size(); ++i) {
        const Field& f = l.f[i];
        if(f.len || f.disc || f.frozen) { written(i); continue; }
        Val& x = v.kids[f.vis];
        if(f.maybe) {
          const bool want = run_fun(f.pred, w) != 0;
          if(want && !x.i) { x.i = 1; x.kids.resize(1); value(f.t, x.kids[0], nullptr); }
          if(!want && x.i) { x.i = 0; x.kids.clear(); }
          if(x.i && f.t.lfs) resize(f.t, x.kids[0], run_fun(f.t.size_fn, w));
        } else if(f.t.lfs) {
          resize(f.t, x, run_fun(f.t.size_fn, w));
        } else if(f.t.k == Type::UNION) {
          if(f.t.mode != 0) {
            const int a = select_alt(f.t, w);
            if(a >= 0 && static_cast<u64>(a) != x.i) { x.i = a; value(f.t.alts[a].t, x.kids[0], f.t.alts[a].has_con ? &f.t.alts[a].con : nullptr); }
          }
          if(f.t.alts[x.i].t.lfs) resize(f.t.alts[x.i].t, x.kids[0], run_fun(f.t.alts[x.i].t.size_fn, w));
        }
        written(i);
      }
      for(std::size_t i = 0; i < l.f.size(); ++i) {
        const Field& f = l.f[i];
        if(!f.clen || f.len || f.frozen) continue;
        Val& x = v.kids[f.vis];
        for(const auto& g : l.f) {
          const Val* o = g.vis >= 0 ? &v.kids[g.vis] : nullptr;
          if(g.maybe && g.t.lf && g.t.len_idx == static_cast<int>(i) && o->i) x.i = visible_size(g.t, o->kids[0]);
          else if(g.t.k == Type::UNION && g.t.alts[o->i].t.lf && g.t.alts[o->i].t.len_idx == static_cast<int>(i))
            x.i = visible_size(g.t.alts[o->i].t, o->kids[0]);
        }
        x.i = trunc_ext(x.i, f.t.tw, f.t.sign);      // what the member can hold
        written(i);
      }
      // a length that is fixed for other reasons: make the conditional container follow it
      for(std::size_t i = 0; i < l.f.size(); ++i) {
        const Field& f = l.f[i];
        if(!f.clen || !(f.len || f.frozen)) continue;
        for(const auto& g : l.f) {
          Val* o = g.vis >= 0 ? &v.kids[g.vis] : nullptr;
          if(g.maybe && g.t.lf && g.t.len_idx == static_cast<int>(i) && o->i) resize(g.t, o->kids[0], w[i].i);
          else if(g.t.k == Type::UNION && g.t.alts[o->i].t.lf && g.t.alts[o->i].t.len_idx == static_cast<int>(i))
            resize(g.t.alts[o->i].t, o->kids[0], w[i].i);
        }
      }
    }
  }
  void resize(const Type& ty, Val& v, u64 n) {
    if(n > 66000) return;
    if(ty.k == Type::STR) v.b.resize(n, 'r');
    else if(ty.k == Type::VEC) { v.i = n; v.n.resize(n * ty.group, 1); }
    else while(v.kids.size() != n) {
      if(v.kids.size() > n) v.kids.pop_back();
      else if(v.kids.size() >= 300) v.kids.push_back(Val(v.kids.back()));
      else { v.kids.emplace_back(); rec(*ty.rec, v.kids.back()); }
    }
  }
};
}

int mutate(const Sch& s, Val& v, Tape& t, bool over_wide) {
  Editor e{t, over_wide};
  return e.list(*s.root, v);
}
void repair(const Sch& s, Val& v, Tape& t) {
  Editor e{t, false};
  e.repair(*s.root, v);
}
Val gen_val(const Sch& s, Tape& t, bool over_wide) {
  Editor e{t, over_wide};
  Val v;
  e.rec(*s.root, v);
  return v;
}

// ------------------------------------------------------------------ helpers
namespace {
void mask_type(const Type& t, Val& v) {
  switch(t.k) {
    case Type::REC: mask_ro(*t.rec, v); break;
    case Type::AREC: case Type::VREC: for(auto& k : v.kids) mask_ro(*t.rec, k); break;
    case Type::UNION: mask_type(t.alts[v.i].t, v.kids[0]); break;
    default: break;
  }
}
}
void mask_ro(const List& l, Val& v) {
  for(const auto& f : l.f) {
    if(f.len) continue;
    Val& x = v.kids[f.vis];
    if(f.disc || f.frozen) { x = Val{}; continue; }
    if(f.maybe) { if(x.i) mask_type(f.t, x.kids[0]); }
    else mask_type(f.t, x);
  }
}
void mask_ro(const Sch& s, Val& v) { mask_ro(*s.root, v); }

std::string hex(const std::string& s, std::size_t max) {
  std::string o;
  char b[4];
  for(std::size_t i = 0; i < s.size() && i < max; ++i) { std::snprintf(b, sizeof b, "%02x", static_cast<u8>(s[i])); o += b; }
  if(s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}

std::string show(const Val& v, int depth) {
  std::string o;
  char b[32];
  switch(v.k) {
    case Val::NONE: return "-";
    case Val::INT: std::snprintf(b, sizeof b, "0x%llx", v.i); return b;
    case Val::BYTES: return "'" + hex(v.b, 24) + "'";
    case Val::INTS:
      o = "[";
      for(std::size_t i = 0; i < v.n.size() && i < 12; ++i) { std::snprintf(b, sizeof b, "%s0x%llx", i ? " " : "", v.n[i]); o += b; }
      if(v.n.size() > 12) o += " ..." + std::to_string(v.n.size());
      return o + "]";
    case Val::OPT: return v.i ? "some(" + show(v.kids[0], depth + 1) + ")" : "none";
    case Val::VAR: return "alt" + std::to_string(v.i) + "(" + show(v.kids[0], depth + 1) + ")";
    default:
      o = v.k == Val::LIST ? "{" : "<";
      for(std::size_t i = 0; i < v.kids.size() && i < 24; ++i) { if(i) o += ", "; o += show(v.kids[i], depth + 1); }
      if(v.kids.size() > 24) o += " ...";
      return o + (v.k == Val::LIST ? "}" : ">");
  }
}

u64 hash_bytes(const void* p, std::size_t n, u64 h) {
  const auto* c = static_cast<const unsigned char*>(p);
  for(std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
u64 shape_hash(const Val& v, u64 h) {
  const u64 x[3] = {v.k, (v.k == Val::INT) ? 0 : v.i, v.n.size() + v.b.size() + v.kids.size()};
  h = hash_bytes(x, sizeof x, h);
  for(const auto& k : v.kids) h = shape_hash(k, h);
  return h;
}
}
