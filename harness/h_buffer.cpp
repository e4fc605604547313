// C01 scalars, C32 CIP strings
#include "sym.h"
#include <cstring>
#include <arpa/inet.h>
#include "utils/Buffer.h"
#include "cip/Types.h"
using namespace eipScanner;
using utils::Buffer;

enum Kind { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, BYTES, WORDS, REV, ADDR, NKINDS };
struct Item {
  unsigned kind, n;
  uint64_t v;
  Bytes raw;
  Bytes image;      // expected wire image
};
static Item mk(unsigned kind) {
  Item it; it.kind = kind; it.n = 0; it.v = 0;
  switch (kind) {
    case U8: case I8: it.v = sym_u8("v8"); le(it.image, it.v, 1); break;
    case U16: case I16: it.v = sym_u16("v16"); le(it.image, it.v, 2); break;
    case U32: case I32: case F32: it.v = sym_u32("v32"); le(it.image, it.v, 4); break;
    case U64: case I64: case F64: it.v = sym_u64("v64"); le(it.image, it.v, 8); break;
    case BYTES: it.n = sym_choice(4, "nbytes"); it.raw = sym_vec(it.n, "bytes"); it.image = it.raw; break;
    case WORDS: it.n = sym_choice(3, "nwords"); it.raw = sym_vec(it.n * 2, "words"); it.image = it.raw; break;
    case REV: it.v = sym_u16("rev"); it.image.push_back((uint8_t)it.v); it.image.push_back((uint8_t)(it.v >> 8)); break;
    case ADDR: {
      it.raw = sym_vec(6, "addr");      // port, address in network order
      it.image = {0, 2};
      cat(it.image, it.raw);
      for (int i = 0; i < 8; ++i) it.image.push_back(0);
    }
  }
  return it;
}
static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static sockaddr_in sa(const Item &it) {
  sockaddr_in a; memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  memcpy(&a.sin_port, it.raw.data(), 2);
  memcpy(&a.sin_addr, it.raw.data() + 2, 4);
  return a;
}
static void put(Buffer &b, const Item &it) {
  switch (it.kind) {
    case U8: b << (uint8_t)it.v; break; case I8: b << (int8_t)it.v; break;
    case U16: b << (uint16_t)it.v; break; case I16: b << (int16_t)it.v; break;
    case U32: b << (uint32_t)it.v; break; case I32: b << (int32_t)it.v; break;
    case U64: b << (uint64_t)it.v; break; case I64: b << (int64_t)it.v; break;
    case F32: b << asF(it.v); break; case F64: b << asD(it.v); break;
    case BYTES: b << it.raw; break;
    case WORDS: { std::vector<uint16_t> w; for (unsigned i = 0; i < it.n; ++i) w.push_back((uint16_t)rd(&it.raw[2 * i], 2)); b << w; break; }
    case REV: b << cip::CipRevision((uint8_t)it.v, (uint8_t)(it.v >> 8)); break;
    case ADDR: { sockaddr_in a = sa(it); b << sockets::EndPoint(a); break; }
  }
}
static void take(Buffer &b, const Item &it) {
  uint64_t g = 0;
  switch (it.kind) {
    case U8: { uint8_t x = 0; b >> x; g = x; break; }
    case I8: { int8_t x = 0; b >> x; g = (uint8_t)x; break; }
    case U16: { uint16_t x = 0; b >> x; g = x; break; }
    case I16: { int16_t x = 0; b >> x; g = (uint16_t)x; break; }
    case U32: { uint32_t x = 0; b >> x; g = x; break; }
    case I32: { int32_t x = 0; b >> x; g = (uint32_t)x; break; }
    case U64: { uint64_t x = 0; b >> x; g = x; break; }
    case I64: { int64_t x = 0; b >> x; g = (uint64_t)x; break; }
    case F32: { float x = 0; b >> x; uint32_t y; memcpy(&y, &x, 4); g = y; break; }
    case F64: { double x = 0; b >> x; memcpy(&g, &x, 8); break; }
    case BYTES: { Bytes x(it.n); b >> x; checkBytes(x, it.raw, "read back: byte array"); return; }
    case WORDS: {
      std::vector<uint16_t> w(it.n); b >> w;
      CHECK(w.size() == it.n, "read back: word array");
      for (unsigned i = 0; i < it.n; ++i) CHECK(w[i] == (uint16_t)rd(&it.raw[2 * i], 2), "read back: word array");
      return;
    }
    case REV: { cip::CipRevision r; b >> r; CHECK(r.getMajorRevision() == (uint8_t)it.v, "read back: revision"); CHECK(r.getMinorRevision() == (uint8_t)(it.v >> 8), "read back: revision"); return; }
    case ADDR: {
      sockets::EndPoint e("", 0); b >> e;
      sockaddr_in a = sa(it), o = e.getAddr();
      CHECK(o.sin_family == AF_INET, "read back: address family");
      CHECK(o.sin_port == a.sin_port, "read back: port");
      CHECK(o.sin_addr.s_addr == a.sin_addr.s_addr, "read back: address");
      CHECK(e.getPort() == (it.raw[0] << 8 | it.raw[1]), "read back: endpoint port");
      return;
    }
  }
  sym_observe("read", g);
  CHECK(g == it.v, "read back: scalar");
}
static void c01_body(unsigned count) {
  std::vector<Item> items;
  Bytes want;
  Buffer b;
  if (sym_choice(2, "prefilled")) { Bytes p = sym_vec(3, "prefix"); b = Buffer(p); want = p; }
  size_t pre = want.size();
  for (unsigned i = 0; i < count; ++i) {
    unsigned k = i == 0 ? (unsigned)sym_arg(1) : sym_choice(NKINDS, "kind");
    items.push_back(mk(k));
    put(b, items.back());
    cat(want, items.back().image);
    CHECK(b.size() == want.size(), "size grows by the image");
  }
  checkBytes(b.data(), want, "wire image");
  Buffer r(b.data());
  Bytes skip(pre);
  r >> skip;
  size_t pos = pre;
  for (auto &it : items) {
    CHECK(r.empty() == (pos == want.size()), "empty exactly when all is consumed");
    take(r, it);
    pos += it.image.size();
    CHECK(r.pos() == pos, "position advances by the image");
    CHECK(r.isValid(), "valid while inside");
  }
  CHECK(r.empty(), "empty exactly when all is consumed");
  CHECK(r.size() == want.size(), "reading keeps the content");
  checkBytes(r.data(), want, "reading keeps the content");
  sym_reach("sequence");
}
extern "C" void h_C01() { c01_body((unsigned)sym_arg(0)); }

// Long arrays and a long prefix.  args: kind of array, elements, bytes already present, kind of the next value
extern "C" void h_C01_long() {
  unsigned n = (unsigned)sym_arg(1), pre = (unsigned)sym_arg(2);
  Item a; a.kind = sym_arg(0) ? WORDS : BYTES; a.n = n; a.v = 0; a.raw = big_vec(sym_arg(0) ? 2 * n : n, "elements"); a.image = a.raw;
  Item b = mk((unsigned)sym_arg(3)), c = mk(U32);
  Bytes want = big_vec(pre, "prefix");
  Buffer w = pre ? Buffer(want) : Buffer((size_t)sym_choice(2, "capacity") * 7);
  put(w, c); put(w, a); put(w, b); put(w, c);
  cat(want, c.image); cat(want, a.image); cat(want, b.image); cat(want, c.image);
  checkBytes(w.data(), want, "wire image");
  Buffer r(want);
  Bytes skip(pre); r >> skip;
  size_t pos = pre;
  for (const Item *it : {&c, &a, &b, &c}) { CHECK(r.empty() == (pos == want.size()), "empty exactly when all is consumed"); take(r, *it); pos += it->image.size(); CHECK(r.pos() == pos, "position advances by the image"); }
  CHECK(r.empty() && r.isValid(), "empty when all is consumed");
  sym_reach("sequence");
}
// Writing and reading alternate on one buffer.
extern "C" void h_C01_mix() {
  Item a = mk((unsigned)sym_arg(0)), b = mk((unsigned)sym_arg(1)), c = mk(U16);
  Buffer w;
  put(w, a); put(w, c);
  take(w, a);
  CHECK(w.pos() == a.image.size() && !w.empty(), "position advances by the image");
  put(w, b);
  CHECK(w.pos() == a.image.size(), "writing keeps the position");
  take(w, c);
  CHECK(w.empty() == b.image.empty(), "empty exactly when all is consumed");
  take(w, b);
  put(w, a);
  take(w, a);
  CHECK(w.empty() && w.isValid(), "empty when all is consumed");
  Bytes want = a.image; cat(want, c.image); cat(want, b.image); cat(want, a.image);
  checkBytes(w.data(), want, "wire image");
  sym_reach("sequence");
}
// Reading past the end: never valid afterwards, never empty==false
extern "C" void h_C01_end() {
  unsigned n = (unsigned)sym_arg(0);
  Bytes d = sym_vec(n, "data");
  Buffer b(d);
  Item it; it.kind = sym_choice(NKINDS, "kind"); it.n = 2; it.v = 0;
  static const unsigned len[NKINDS] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 4, 2, 16};
  unsigned want = len[it.kind];
  switch (it.kind) {
    case U8: { uint8_t x; b >> x; break; } case I8: { int8_t x; b >> x; break; }
    case U16: { uint16_t x; b >> x; break; } case I16: { int16_t x; b >> x; break; }
    case U32: { uint32_t x; b >> x; break; } case I32: { int32_t x; b >> x; break; }
    case U64: { uint64_t x; b >> x; break; } case I64: { int64_t x; b >> x; break; }
    case F32: { float x; b >> x; break; } case F64: { double x; b >> x; break; }
    case BYTES: { Bytes x(2); b >> x; break; } case WORDS: { std::vector<uint16_t> x(2); b >> x; break; }
    case REV: { cip::CipRevision x; b >> x; break; } case ADDR: { sockets::EndPoint x("", 0); b >> x; break; }
  }
  CHECK(b.isValid() == (want <= n), "valid exactly when the value was there");
  CHECK(b.empty() == (want >= n), "empty exactly when nothing is left");
  sym_reach(want <= n ? "inside" : "past the end");
}

// ---- C32
template <class T> static void strings(unsigned lenBytes) {
  unsigned n = (unsigned)sym_arg(1);
  Bytes d = sym_vec(n, "text");
  typedef cip::CipBaseString<T> Str;
  Bytes image; le(image, n, lenBytes); cat(image, d);
  Bytes tail = sym_vec(sym_choice(3, "ntail"), "tail");
  for (int how = 0; how < 2; ++how) {
    Str s = how ? Str(std::string(d.begin(), d.end())) : Str(d);
    CHECK(s.getLength() == n, "length");
    checkBytes(s.getData(), d, "content");
    std::string t = s.toStdString();
    checkBytes(Bytes(t.begin(), t.end()), d, "text");
    Str c = s;
    CHECK(c.getLength() == n, "copy keeps length");
    Buffer b;
    b << (uint8_t)0x5a << s;
    Bytes w{0x5a}; cat(w, image);
    checkBytes(b.data(), w, "encoded");
  }
  Bytes in = image; cat(in, tail);
  Buffer r(in);
  Str q(Bytes{1});
  r >> q;
  CHECK(r.isValid(), "valid when complete");
  CHECK(q.getLength() == n, "decoded length");
  checkBytes(q.getData(), d, "decoded content");
  CHECK(r.pos() == lenBytes + n, "decoding consumes exactly the string");
  sym_observe("len", q.getLength());
  observeBytes("dec", q.getData());
  sym_reach("string");
}
extern "C" void h_C32() { if (sym_arg(0) == 1) strings<cip::CipUsint>(1); else strings<cip::CipUint>(2); }
template <class T> static void truncated(unsigned lenBytes) {
  unsigned n = (unsigned)sym_arg(1);           // bytes present
  Bytes in = sym_vec(n, "in");
  if (n >= lenBytes && sym_arg(2)) {  // bounded form: small lengths and a few large ones
    uint64_t l = rd(in.data(), lenBytes);
    ASSUME(sym_or(l <= 24, sym_or(l == 255, sym_or(l == 0x1000, l == 0xffff))));
  }
  Buffer r(in);
  cip::CipBaseString<T> q(Bytes{});
  bool threw = false;
  try { r >> q; } catch (std::exception &) { threw = true; }
  if (n < lenBytes) { CHECK(threw || !r.isValid(), "missing length is not valid"); sym_reach("no length"); return; }
  uint64_t len = rd(in.data(), lenBytes);
  if (sym_fork(len > n - lenBytes)) { CHECK(threw || !r.isValid(), "announced length exceeds the bytes"); sym_reach("too long"); }
  else {
    CHECK(!threw && r.isValid(), "complete string is valid");
    CHECK(q.getLength() == len, "length");
    CHECK(q.getData().size() == len, "size");
    sym_reach("fits");
  }
}
extern "C" void h_C32_trunc() { if (sym_arg(0) == 1) truncated<cip::CipUsint>(1); else truncated<cip::CipUint>(2); }
