// Binds one s2s schema type to the erased interface in val.hpp. Only the
// public s2s API is used: operator[], struct_cast_xx and stream_cast_xx.
#ifndef SIM_BRIDGE_HPP
#define SIM_BRIDGE_HPP

#include "s2s.hpp"
#include "val.hpp"

#include <array>
#include <bit>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace sim {

// ------------------------------------------------------------- stream kinds
// A hand-written stream, as docs/streams.md describes one.
class custom_stream {
  Port& port;
  bool ok;

public:
  explicit custom_stream(Port& p) : port(p), ok(!p.born_dead) {}
  auto read(char* dest, std::streamsize n) -> custom_stream& {
    if(!port.rd(dest, static_cast<std::size_t>(n))) ok = false;
    return *this;
  }
  auto write(const char* src, std::size_t n) -> custom_stream& {
    if(!port.wr(src, n)) ok = false;
    return *this;
  }
  explicit operator bool() const { return ok; }
};

// The array-based form a constexpr stream has, used at run time.
class array_stream : s2s::constexpr_stream {
  Port& port;
  bool ok;

public:
  explicit array_stream(Port& p) : port(p), ok(!p.born_dead) {}
  template <std::size_t N>
  constexpr auto read(std::array<char, N>& dest, std::size_t n) -> array_stream& {
    if(n > N || !port.rd(dest.data(), n)) ok = false;
    return *this;
  }
  template <std::size_t N>
  constexpr auto write(const std::array<char, N>& src, std::size_t n) -> array_stream& {
    if(n > N || !port.wr(src.data(), n)) ok = false;
    return *this;
  }
  constexpr explicit operator bool() const { return ok; }
};

// ------------------------------------------------------------- Val <-> C++
template <typename T> struct Lst { static constexpr bool generic = true; };

template <typename T>
concept is_list = requires(const T& t, Val& v) { Lst<T>::store(t, v); };

template <typename T> inline constexpr bool is_fs = false;
template <std::size_t N> inline constexpr bool is_fs<s2s::fixed_string<N>> = true;
template <typename T> inline constexpr bool is_arr = false;
template <typename T, std::size_t N> inline constexpr bool is_arr<std::array<T, N>> = true;
template <typename T> inline constexpr bool is_vec = false;
template <typename T> inline constexpr bool is_vec<std::vector<T>> = true;
template <typename T> inline constexpr bool is_opt = false;
template <typename T> inline constexpr bool is_opt<std::optional<T>> = true;
template <typename T> inline constexpr bool is_var = false;
template <typename... T> inline constexpr bool is_var<std::variant<T...>> = true;

template <typename T>
u64 word(T x) {
  if constexpr(std::is_same_v<T, float>)
    return std::bit_cast<u32>(x);
  else if constexpr(std::is_same_v<T, double>)
    return std::bit_cast<u64>(x);
  else if constexpr(std::is_signed_v<T>)
    return static_cast<u64>(static_cast<i64>(x));
  else
    return static_cast<u64>(x);
}
template <typename T>
T unword(u64 w) {
  if constexpr(std::is_same_v<T, float>)
    return std::bit_cast<float>(static_cast<u32>(w));
  else if constexpr(std::is_same_v<T, double>)
    return std::bit_cast<double>(w);
  else
    return static_cast<T>(w);
}

template <typename T> void to(Val& v, const T& x);
template <typename T> void from(T& x, const Val& v);

template <typename T>
void flat_to(u64*& out, const T& x) {
  if constexpr(std::is_arithmetic_v<T>) *out++ = word(x);
  else for(const auto& e : x) flat_to(out, e);
}
template <typename T>
void flat_from(T& x, const u64*& p) {
  if constexpr(std::is_arithmetic_v<T>) x = unword<T>(*p++);
  else for(auto& e : x) flat_from(e, p);
}
template <typename T>
constexpr std::size_t flat_count() {
  if constexpr(std::is_arithmetic_v<T>) return 1;
  else return std::tuple_size_v<T> * flat_count<typename T::value_type>();
}

template <std::size_t I, typename V>
void var_from(V& x, const Val& v) {
  if constexpr(I < std::variant_size_v<V>) {
    if(v.i == I) {
      if(x.index() == I) { from(std::get<I>(x), v.kids[0]); return; }     // edited where it is
      std::variant_alternative_t<I, V> tmp{};
      from(tmp, v.kids[0]);
      x.template emplace<I>(std::move(tmp));
    } else {
      var_from<I + 1>(x, v);
    }
  }
}

template <typename T>
void to(Val& v, const T& x) {
  v.wipe();
  if constexpr(std::is_arithmetic_v<T>) {
    v.k = Val::INT; v.i = word(x);
  } else if constexpr(is_list<T>) {
    Lst<T>::store(x, v);
  } else if constexpr(is_fs<T>) {
    v.k = Val::BYTES; v.set_bytes(x.data(), x.size() + 1);
  } else if constexpr(std::is_same_v<T, std::string>) {
    v.k = Val::BYTES; v.set_bytes(x.data(), x.size());
  } else if constexpr(std::is_array_v<T>) {
    using E = std::remove_extent_t<T>;
    if constexpr(std::is_same_v<E, char>) {
      v.k = Val::BYTES; v.set_bytes(x, std::extent_v<T>);
    } else {
      v.k = Val::INTS;
      u64* p = v.set_ints(std::extent_v<T> * flat_count<E>());
      for(const auto& e : x) flat_to(p, e);
      v.i = v.n.size();
    }
  } else if constexpr(is_opt<T>) {
    v.k = Val::OPT; v.i = x.has_value();
    v.set_kids(v.i);
    if(x) to(v.kids[0], *x);
  } else if constexpr(is_var<T>) {
    v.k = Val::VAR; v.i = x.index(); v.set_kids(1);
    std::visit([&](const auto& e) { to(v.kids[0], e); }, x);
  } else {   // std::array or std::vector
    using E = typename T::value_type;
    if constexpr(is_list<E>) {
      v.k = Val::SEQ; v.set_kids(x.size());
      for(std::size_t k = 0; k < x.size(); ++k) to(v.kids[k], x[k]);
    } else {
      v.k = Val::INTS;
      u64* p = v.set_ints(x.size() * flat_count<E>());
      for(const auto& e : x) flat_to(p, e);
      if constexpr(is_vec<T>) v.i = x.size();
      else v.i = v.n.size();
    }
  }
}

template <typename T>
void from(T& x, const Val& v) {
  if constexpr(std::is_arithmetic_v<T>) {
    x = unword<T>(v.i);
  } else if constexpr(is_list<T>) {
    Lst<T>::load(x, v);
  } else if constexpr(is_fs<T>) {
    for(std::size_t k = 0; k < x.size() + 1; ++k) x.data()[k] = v.b[k];
  } else if constexpr(std::is_same_v<T, std::string>) {
    x = v.b;
  } else if constexpr(std::is_array_v<T>) {
    using E = std::remove_extent_t<T>;
    if constexpr(std::is_same_v<E, char>) {
      for(std::size_t k = 0; k < std::extent_v<T>; ++k) x[k] = v.b[k];
    } else {
      const u64* p = v.n.data();
      for(auto& e : x) flat_from(e, p);
    }
  } else if constexpr(is_opt<T>) {
    if(!v.i) { x.reset(); return; }
    if(!x) x.emplace();
    from(*x, v.kids[0]);
  } else if constexpr(is_var<T>) {
    var_from<0>(x, v);
  } else {
    using E = typename T::value_type;
    if constexpr(is_list<E>) {
      if constexpr(is_vec<T>) x.resize(v.kids.size());
      for(std::size_t k = 0; k < v.kids.size(); ++k) from(x[k], v.kids[k]);
    } else {
      if constexpr(is_vec<T>) x.resize(v.n.size() / flat_count<E>());
      const u64* p = v.n.data();
      for(auto& e : x) flat_from(e, p);
    }
  }
}

// An assignment that throws half way: the union holds no alternative afterwards,
// if its types allow for that.
template <typename T> struct Boom { operator T() const { throw 0; } };
template <std::size_t I = 0, typename V>
bool spoil(V& x) {
  if constexpr(I == std::variant_size_v<V>) return false;
  else {
    using A = std::variant_alternative_t<I, V>;
    if constexpr(is_list<A>) {
      try { x.template emplace<I>(Boom<A>{}); } catch(int) {}
      if(x.valueless_by_exception()) return true;
    }
    return spoil<I + 1>(x);
  }
}

// ------------------------------------------------------------- expressions
namespace ex {
template <typename T> constexpr u64 num(const T& x) {
  if constexpr(std::is_signed_v<T>) return static_cast<u64>(static_cast<i64>(x));
  else return static_cast<u64>(x);
}
constexpr u64 div(u64 a, u64 b) { return b ? a / b : 0; }
constexpr u64 mod(u64 a, u64 b) { return b ? a % b : 0; }
template <typename T> constexpr u64 size(const T& x) { return x.size(); }
template <typename T> constexpr u64 at(const T& x, std::size_t k) {
  if constexpr(std::is_array_v<T>) return num(x[k]);
  else if constexpr(std::is_same_v<T, std::string>) return k < x.size() ? static_cast<u8>(x[k]) : 0;
  else if constexpr(is_fs<T>) return static_cast<u8>(x.data()[k]);
  else return k < x.size() ? num(x[k]) : 0;
}
template <typename T> constexpr u64 sum(const T& x) {
  u64 s = 0;
  for(const auto& e : x) {
    if constexpr(std::is_same_v<T, std::string>) s += static_cast<u8>(e);
    else s += num(e);
  }
  return s;
}
template <typename T, typename F> constexpr u64 emem(const T& x, F f) {
  u64 s = 0;
  for(const auto& e : x) s += f(e);
  return s;
}
template <typename T> constexpr u64 has(const T& x) { return x.has_value(); }
template <typename T> constexpr u64 val(const T& x) { return x ? num(*x) : 0; }
template <typename T> constexpr u64 idx(const T& x) { return x.index(); }
}

// ------------------------------------------------------------- operations
struct LibScope {
  LibScope() { lib_enter(); }
  ~LibScope() { lib_leave(); }
};

template <typename S, bool be, typename St>
void* read_one(St& st, CastRes& out) {
  std::optional<LibScope> scope(std::in_place);
  auto r = [&] {
    if constexpr(be) return s2s::struct_cast_be<S>(st);
    else return s2s::struct_cast_le<S>(st);
  }();
  scope.reset();
  out.ok = r.has_value();
  if(r) return new S(std::move(*r));
  out.reason = static_cast<int>(r.error().failure_reason);
  out.failed_at = r.error().failed_at;
  return nullptr;
}

template <typename S, bool be, typename St>
void write_one(St& st, const S& obj, CastRes& out) {
  std::optional<LibScope> scope(std::in_place);
  const auto r = [&] {
    if constexpr(be) return s2s::stream_cast_be<S>(st, obj);
    else return s2s::stream_cast_le<S>(st, obj);
  }();
  scope.reset();
  out.ok = r.has_value();
  if(r) return;
  out.reason = static_cast<int>(r.error().failure_reason);
  out.failed_at = r.error().failed_at;
}

template <typename S, bool le_only, bool files>
struct OpsOf {
  template <typename St>
  static void* rd(St& st, bool be, CastRes& out) {
    if constexpr(!le_only) if(be) return read_one<S, true>(st, out);
    return read_one<S, false>(st, out);
  }
  template <typename St>
  static void wr(St& st, bool be, const S& o, CastRes& out) {
    if constexpr(!le_only) if(be) { write_one<S, true>(st, o, out); return; }
    write_one<S, false>(st, o, out);
  }
  // A workload that only reads, or only writes, compiles only that.
#ifdef SIM_NO_READ
  static void* read(int, bool, Port&, CastRes&) { std::abort(); }
#else
  static void* read(int kind, bool be, Port& p, CastRes& out) {
    if constexpr(files) if(kind == K_FILE) {
      FileStream box(true, be, p, out);
      if constexpr(!le_only) if(be) return read_one<S, true>(box.both(), out);
      return read_one<S, false>(box.in(), out);
    }
    if(kind == K_STD || kind == K_MEM || kind == K_FILE) {
      StdStream box(kind, true, p, out);
      return rd(box.get(), be, out);
    }
    if(kind == K_ARRAY) { array_stream st(p); return rd(st, be, out); }
    custom_stream st(p);
    return rd(st, be, out);
  }
#endif
#ifdef SIM_NO_WRITE
  static void write(int, bool, Port&, const void*, CastRes&) { std::abort(); }
#else
  static void write(int kind, bool be, Port& p, const void* o, CastRes& out) {
    const S& obj = *static_cast<const S*>(o);
    if constexpr(files) if(kind == K_FILE && p.room() == ~std::size_t{0}) {
      FileStream box(false, be, p, out);
      if constexpr(!le_only) if(be) { write_one<S, true>(box.both(), obj, out); return; }
      write_one<S, false>(box.out(), obj, out);
      return;
    }
    if(kind == K_STD || kind == K_MEM || kind == K_FILE) {
      StdStream box(kind, false, p, out);
      wr(box.get(), be, obj, out);
    } else if(kind == K_ARRAY) {
      array_stream st(p);
      wr(st, be, obj, out);
    } else {
      custom_stream st(p);
      wr(st, be, obj, out);
    }
  }
#endif
};

template <typename S, bool le_only, bool files>
Ops make_ops(const char* name, const char* ir, const std::size_t* sizes) {
  using O = OpsOf<S, le_only, files>;
  return Ops{
    name, ir, sizes, le_only, files,
    +[]() -> void* { return new S{}; },
    +[](void* p) { delete static_cast<S*>(p); },
    +[](void* p, int how) -> void* {
      S& o = *static_cast<S*>(p);
      if(how == 0) return new S(std::as_const(o));
      if(how == 1) return new S(std::move(o));
      S* n = new S{};
      if(how == 2) *n = std::as_const(o);
      else *n = std::move(o);
      return n;
    },
    +[](void* p, const Val& v) { Lst<S>::load(*static_cast<S*>(p), v); },
    +[](void* p, int i, const Val& v) { Lst<S>::load1(*static_cast<S*>(p), i, v); },
    +[](void* p, int i) { return Lst<S>::spoil1(*static_cast<S*>(p), i); },
    +[](const void* p, Val& v) { Lst<S>::store(*static_cast<const S*>(p), v); },
    &O::read, &O::write};
}

struct Reg {
  explicit Reg(Ops o) { add_schema(o); }
};
}

#endif
