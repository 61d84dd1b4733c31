// Value trees and the erased schema interface shared by the runner and the
// generated schema translation units. Knows nothing about s2s.
#ifndef SIM_VAL_HPP
#define SIM_VAL_HPP

#include <cstddef>
#include <cstdint>
#include <iosfwd>
#include <string>
#include <string_view>
#include <vector>

namespace sim {
namespace ints {
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned int;
using u64 = unsigned long long;
using i8 = signed char;
using i16 = short;
using i32 = int;
using i64 = long long;
using f32 = float;
using f64 = double;
using ch = char;
}
using namespace ints;

// INT: i.  BYTES: b.  INTS: n, with i the element count a user would see.
// LIST: one kid per visible field.  SEQ: one kid per record.
// OPT: i = has_value, kid 0.  VAR: i = index, kid 0.
struct Val {
  enum K : unsigned char { NONE, INT, BYTES, INTS, LIST, SEQ, OPT, VAR } k = NONE;
  u64 i = 0;
  std::string b;
  std::vector<u64> n;
  std::vector<Val> kids;

  // Out of line: these are compiled into every schema unit otherwise.
  Val();
  Val(const Val&);
  Val(Val&&) noexcept;
  Val& operator=(const Val&);
  Val& operator=(Val&&) noexcept;
  ~Val();
  void wipe();
  void set_kids(std::size_t);
  u64* set_ints(std::size_t);
  void set_bytes(const char*, std::size_t);

  bool operator==(const Val&) const = default;
};

// What a stream does for the library; implemented by the simulator.
struct Port {
  virtual bool rd(char* dest, std::size_t n) = 0;
  virtual bool wr(const char* src, std::size_t n) = 0;
  virtual int peek() = 0;                      // next byte, or -1
  virtual std::size_t tell() const = 0;        // bytes moved so far
  // For library-made streams over memory: what may be read or how much may be
  // written, and what became of it.
  virtual std::string snapshot() = 0;
  virtual std::size_t room() = 0;
  virtual void took(std::size_t n, bool failed) = 0;
  virtual void gave(const std::string& bytes, bool failed) = 0;
  virtual ~Port() = default;

  std::size_t moved = 0;     // bytes the last rd or wr really transferred
  int born_dead = 0;         // the stream is in a failed state before the cast: 1 fail, 2 bad, 3 eof (reads)
  int mask = 0;              // exceptions() of a standard stream: 1 bad, 2 fail too
};

struct CastRes {
  bool ok = false;
  int reason = -1;
  std::string_view failed_at;   // points wherever the library made it point
  // A standard stream as the cast left it.
  bool std_stream = false, failed_after = false, eof_after = false, mask_kept = true, put_back = false;
};

// A standard stream over a Port, for one cast (streams.cpp).
class StdStream {
  struct Impl;
  Impl* d;

public:
  StdStream(int kind, bool reading, Port&, CastRes&);
  StdStream(const StdStream&) = delete;
  ~StdStream();
  std::iostream& get();
};

// A file the cast is handed as the std::ifstream, std::ofstream or std::fstream
// it is, not as some std::istream.
class FileStream {
  struct Impl;
  Impl* d;

public:
  FileStream(bool reading, bool both, Port&, CastRes&);
  FileStream(const FileStream&) = delete;
  ~FileStream();
  std::ifstream& in();
  std::ofstream& out();
  std::fstream& both();
};

// K_FILE is K_MEM for a schema not compiled against file streams.
enum StreamKind { K_CUSTOM = 0, K_STD = 1, K_ARRAY = 2, K_MEM = 3, K_FILE = 4, K_COUNT = 5 };

struct Ops {
  const char* name;
  const char* ir;
  const std::size_t* sizes;
  bool le_only, files;
  void* (*make)();
  void (*destroy)(void*);
  // A second object with the same fields: copied, moved, copy- or move-assigned.
  void* (*renew)(void*, int how);
  void (*load)(void*, const Val&);
  void (*load1)(void*, int, const Val&);
  // Leaves a union without a value, as a throwing assignment does; false if it cannot.
  bool (*spoil)(void*, int);
  void (*store)(const void*, Val&);
  // Returns a heap object on success. Exceptions pass through.
  void* (*read)(int kind, bool be, Port&, CastRes&);
  void (*write)(int kind, bool be, Port&, const void*, CastRes&);
};

std::vector<Ops>& registry();
void add_schema(const Ops&);

// Hooks the generated code calls.
void on_callable();                 // a user-supplied callable is running
void lib_enter();                   // control enters / leaves the library
void lib_leave();
}

#endif
