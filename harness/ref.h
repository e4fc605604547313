// Reference readers for the wire formats, written from the protocol description.
#pragma once
#include "sym.h"
struct RefItem { uint16_t type; Bytes data; };
struct RefCommon { bool ok; std::vector<RefItem> items; };
// Makes a length field concrete (one path per value), within what fits plus a few
// values that do not fit.
static inline unsigned refLen(uint64_t len, size_t left, bool first = true) {
  int inside = sym_or(len <= left + 3, sym_or(len == 0x80, len == 0x100));
  if (first) inside = sym_or(inside, len == (uint64_t)(sym_restricted() ? 0x200 : 0xffff));
  sym_assume(inside);
  return (unsigned)sym_concretize(len);
}
static inline RefCommon refCommon(const Bytes &d) {
  RefCommon r; r.ok = false;
  if (d.size() < 2) return r;
  uint64_t count = rd(&d[0], 2);
  size_t p = 2;
  for (unsigned i = 0; sym_fork(i < count); ++i) {
    if (d.size() - p < 4) return r;
    unsigned len = refLen(rd(&d[p + 2], 2), d.size() - p - 4, i == 0);
    if (d.size() - p - 4 < len) return r;
    RefItem it; it.type = (uint16_t)rd(&d[p], 2);
    it.data.assign(d.begin() + p + 4, d.begin() + p + 4 + len);
    r.items.push_back(it);
    p += 4 + len;
  }
  r.ok = true;
  return r;
}
struct RefMR { bool ok; uint8_t service, status; std::vector<uint16_t> add; Bytes data; };
static inline RefMR refMR(const Bytes &d) {
  RefMR r; r.ok = false;
  if (d.size() < 4) return r;
  r.service = d[0]; r.status = d[2];
  if (sym_fork(2u * d[3] > d.size() - 4)) return r;
  unsigned k = (unsigned)sym_concretize(d[3]);
  for (unsigned i = 0; i < k; ++i) r.add.push_back((uint16_t)rd(&d[4 + 2 * i], 2));
  r.data.assign(d.begin() + 4 + 2 * k, d.end());
  r.ok = true;
  return r;
}
static inline Bytes encapsImage(uint16_t cmd, uint32_t session, uint32_t status, const Bytes &data) {
  Bytes o; le(o, cmd, 2); le(o, data.size(), 2); le(o, session, 4); le(o, status, 4); le(o, 0, 8); le(o, 0, 4); cat(o, data);
  return o;
}
static inline void commonItem(Bytes &o, uint16_t type, const Bytes &data) { le(o, type, 2); le(o, data.size(), 2); cat(o, data); }
// path in the 16-bit or 8-bit form, n = 1 class, 2 + instance, 3 + attribute
static inline Bytes pathImage(unsigned n, uint16_t c, uint16_t i, uint16_t a, bool narrow) {
  Bytes o; uint16_t id[3] = {c, i, a}; const uint8_t seg[3] = {0x20, 0x24, 0x30};
  for (unsigned k = 0; k < n; ++k) {
    if (narrow) { o.push_back(seg[k]); o.push_back((uint8_t)id[k]); }
    else { o.push_back(seg[k] + 1); o.push_back(0); le(o, id[k], 2); }
  }
  return o;
}
