// The standard streams a cast can be handed. Kept out of the schema units: this
// is not s2s, and compiling it once per schema is slow.
#include "val.hpp"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <spanstream>
#include <sstream>
#include <streambuf>

#include <sys/mman.h>
#include <unistd.h>

namespace sim {
namespace {
// A standard stream over a buffer the simulator owns.
class port_buf : public std::streambuf {
  Port& port;

public:
  explicit port_buf(Port& p) : port(p) {}

protected:
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    return port.rd(d, static_cast<std::size_t>(n)) ? n : static_cast<std::streamsize>(port.moved);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    return port.wr(s, static_cast<std::size_t>(n)) ? n : static_cast<std::streamsize>(port.moved);
  }
  int_type uflow() override {
    char c;
    return port.rd(&c, 1) ? traits_type::to_int_type(c) : traits_type::eof();
  }
  int_type underflow() override {
    const int c = port.peek();
    return c < 0 ? traits_type::eof() : traits_type::to_int_type(static_cast<char>(c));
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    // A pipe can say where it is, and nothing else.
    return o == 0 && d == std::ios_base::cur ? pos_type(static_cast<off_type>(port.tell())) : pos_type(off_type(-1));
  }
  int_type overflow(int_type c) override {
    if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    return port.wr(&ch, 1) ? c : traits_type::eof();
  }
};

// std::stringstream whose own memory is not the library's doing.
template <typename T>
struct quiet_alloc {
  using value_type = T;
  quiet_alloc() = default;
  template <typename U> quiet_alloc(const quiet_alloc<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  bool operator==(const quiet_alloc&) const = default;
};
using mem_string = std::basic_string<char, std::char_traits<char>, quiet_alloc<char>>;
using mem_stream = std::basic_stringstream<char, std::char_traits<char>, quiet_alloc<char>>;

void prime(std::ios& st, const Port& p) {
  if(p.born_dead) st.setstate(p.born_dead == 1 ? std::ios_base::failbit : p.born_dead == 2 ? std::ios_base::badbit : std::ios_base::eofbit);
  if(p.mask) st.exceptions(p.mask == 1 ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
}
}

struct StdStream::Impl {
  Port& p;
  CastRes& out;
  bool reading;
  std::optional<port_buf> buf;
  std::optional<std::iostream> std_stream;
  std::string store;
  std::optional<std::spanstream> span;
  std::optional<mem_stream> mem;
  std::iostream* st = nullptr;
  std::ios_base::iostate mask{};
  std::size_t all = 0;
};

StdStream::StdStream(int kind, bool reading, Port& p, CastRes& out) : d(new Impl{p, out, reading, {}, {}, {}, {}, {}}) {
  if(kind == K_STD) {
    d->buf.emplace(p);
    d->std_stream.emplace(&*d->buf);
    d->st = &*d->std_stream;
  } else if(reading) {
    const std::string all = p.snapshot();
    d->all = all.size();
    d->mem.emplace(mem_string(all.data(), all.size()), std::ios_base::in);
    d->st = &*d->mem;
  } else if(const std::size_t room = p.room(); room != ~std::size_t{0}) {
    d->store.assign(room, '\0');
    d->span.emplace(d->store);
    d->st = &*d->span;
  } else {
    d->mem.emplace();
    d->st = &*d->mem;
  }
  prime(*d->st, p);
  d->mask = d->st->exceptions();
}

std::iostream& StdStream::get() { return *d->st; }

StdStream::~StdStream() {
  std::iostream& st = *d->st;
  if(d->span) {
    d->p.gave(std::string(d->span->span().data(), d->span->span().size()), !st);
  } else if(d->mem && d->reading) {
    const auto at = static_cast<std::size_t>(d->mem->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
    // A std::istream that comes up short has handed out all it had.
    d->out.put_back = st.eof() && at < d->all;
    d->p.took(at, !st);
  } else if(d->mem) {
    const auto s = d->mem->str();
    d->p.gave(std::string(s.data(), s.size()), !st);
  }
  d->out.std_stream = true;
  d->out.failed_after = st.fail();
  d->out.eof_after = st.eof();
  d->out.mask_kept = st.exceptions() == d->mask;
  delete d;
}

struct FileStream::Impl {
  Port& p;
  CastRes& res;
  bool reading;
  int fd = -1;
  std::optional<std::ifstream> in;
  std::optional<std::ofstream> out;
  std::optional<std::fstream> both;
  std::ios* st = nullptr;
  std::filebuf* buf = nullptr;
  std::ios_base::iostate mask{};
  std::size_t all = 0;
};

FileStream::FileStream(bool reading, bool both, Port& p, CastRes& res) : d(new Impl{p, res, reading}) {
  d->fd = memfd_create("wire", 0);
  if(d->fd < 0) { std::perror("memfd_create"); std::abort(); }
  if(reading) {
    const std::string all = p.snapshot();
    d->all = all.size();
    for(std::size_t at = 0; at < all.size();) {
      const ssize_t n = ::write(d->fd, all.data() + at, all.size() - at);
      if(n <= 0) { std::perror("write"); std::abort(); }
      at += static_cast<std::size_t>(n);
    }
  }
  const std::string path = "/proc/self/fd/" + std::to_string(d->fd);
  const auto dir = reading ? std::ios_base::in : std::ios_base::out;
  if(both) {
    d->both.emplace(path, dir | std::ios_base::in | std::ios_base::binary);
    d->st = &*d->both;
    d->buf = d->both->rdbuf();
  } else if(reading) {
    d->in.emplace(path, std::ios_base::binary);
    d->st = &*d->in;
    d->buf = d->in->rdbuf();
  } else {
    d->out.emplace(path, std::ios_base::binary);
    d->st = &*d->out;
    d->buf = d->out->rdbuf();
  }
  if(!d->buf->is_open()) { std::perror("open"); std::abort(); }
  prime(*d->st, p);
  d->mask = d->st->exceptions();
}

std::ifstream& FileStream::in() { return *d->in; }
std::ofstream& FileStream::out() { return *d->out; }
std::fstream& FileStream::both() { return *d->both; }

FileStream::~FileStream() {
  d->res.std_stream = true;
  d->res.failed_after = d->st->fail();
  d->res.eof_after = d->st->eof();
  d->res.mask_kept = d->st->exceptions() == d->mask;
  const bool bad = d->st->fail();
  if(d->reading) {
    const auto at = static_cast<std::size_t>(d->buf->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
    d->res.put_back = d->st->eof() && at < d->all;
    d->p.took(at, bad);
  } else {
    d->buf->close();
    std::string s(static_cast<std::size_t>(::lseek(d->fd, 0, SEEK_END)), '\0');
    for(std::size_t at = 0; at < s.size();) {
      const ssize_t n = ::pread(d->fd, s.data() + at, s.size() - at, static_cast<off_t>(at));
      if(n <= 0) { std::perror("pread"); std::abort(); }
      at += static_cast<std::size_t>(n);
    }
    d->p.gave(s, bad);
  }
  ::close(d->fd);
  delete d;
}
}
