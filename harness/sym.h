// Interface between the harnesses and the symbolic executor.  The same harness
// source is also compiled natively (native_rt.cpp) to replay one concrete input.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
extern "C" {
void sym_bytes(void *p, unsigned n, const char *label);
uint8_t sym_u8(const char *label);
uint16_t sym_u16(const char *label);
uint32_t sym_u32(const char *label);
uint64_t sym_u64(const char *label);
int sym_restricted();                          // second attempt: smaller bounds (see check.py)
uint64_t sym_arg(int i);                       // concrete job argument
void sym_assume(int c);
void sym_check(int c, const char *label);      // must hold for every input
void sym_check_real(double got, double want, double slack, const char *label);  // |got - want| <= slack, over the reals
void sym_eq_bytes(const void *a, const void *b, size_t n, const char *label);
[[noreturn]] void sym_fail(const char *label);
[[noreturn]] void sym_kill();                  // path outside the harness' bounds
void sym_reach(const char *label);
void sym_observe(const char *label, uint64_t v);
uint64_t sym_concretize(uint64_t v);           // one path per value
int sym_fork(int c);                           // two paths
int sym_and(int a, int b);                     // no forking
int sym_or(int a, int b);
int sym_not(int a);
uint64_t sym_ite64(int c, uint64_t a, uint64_t b);
}
#define CHECK(c, label) sym_check(!!(c), label)
#define ASSUME(c) sym_assume(!!(c))

typedef std::vector<uint8_t> Bytes;
static inline unsigned sym_choice(unsigned n, const char *label) {  // one path per value 0..n-1
  uint8_t v = sym_u8(label);
  sym_assume(v < n);
  return (unsigned)sym_concretize(v);
}
static inline Bytes sym_vec(unsigned n, const char *label) {
  Bytes v(n);
  if (n) sym_bytes(v.data(), n, label);
  return v;
}
// n bytes: all arbitrary up to 2000, else a fixed pattern with 12 arbitrary bytes
// at both ends, in the middle and around 256 and 32768
static inline Bytes big_vec(unsigned n, const char *label) {
  if (n <= 2000) return sym_vec(n, label);
  Bytes v(n);
  for (unsigned i = 0; i < n; ++i) v[i] = (uint8_t)(i * 7 + (i >> 8) * 13);
  Bytes s = sym_vec(12, label);
  const unsigned at[12] = {0u, 1u, n - 2, n - 1, n / 2, n / 2 + 1, 255u, 256u, 1023u, n > 32769 ? 32767u : 3u, n > 32769 ? 32768u : 4u, n - 255};
  for (unsigned i = 0; i < 12; ++i) v[at[i]] = s[i];
  return v;
}
static inline void checkBytes(const Bytes &got, const Bytes &want, const char *label) {
  CHECK(got.size() == want.size(), label);
  if (!want.empty()) sym_eq_bytes(got.data(), want.data(), want.size(), label);
}
static inline void observeBytes(const char *label, const Bytes &b) {
  sym_observe(label, b.size());
  for (auto x : b) sym_observe(label, x);
}
// little-endian reference encoding
static inline void le(Bytes &o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) o.push_back((uint8_t)(v >> (8 * i))); }
static inline uint64_t rd(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)p[i] << (8 * i); return v; }
static inline void cat(Bytes &o, const Bytes &b) { o.insert(o.end(), b.begin(), b.end()); }
// result of running library code: 0 returned, 1 std::exception, 2 runtime_error/system_error (subset of 1)
#include <stdexcept>
#include <system_error>
enum Outcome { RETURNED = 0, THREW_STD = 1, THREW_RUNTIME = 2, THREW_SYSTEM = 3 };
template <class F> static Outcome run(F f) {
  try { f(); return RETURNED; }
  catch (const std::system_error &) { return THREW_SYSTEM; }
  catch (const std::runtime_error &) { return THREW_RUNTIME; }
  catch (const std::exception &) { return THREW_STD; }
}
