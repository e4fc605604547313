// C04 encapsulation packets, C05 common packets, C06 paths, C07 requests, C08 responses
#include "ref.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "cip/MessageRouterResponse.h"
using namespace eipScanner;
using namespace eipScanner::eip;
using namespace eipScanner::cip;

// ---- C04 ----
static Bytes encapsBytes(unsigned n, const char *label) { Bytes b = big_vec(n, label); if (n > 2000) { Bytes h = sym_vec(24, "header"); std::copy(h.begin(), h.end(), b.begin()); } return b; }
extern "C" void h_C04_expand() {          // arg: number of bytes
  unsigned n = (unsigned)sym_arg(0);
  Bytes in = encapsBytes(n, "in");
  EncapsPacket p;
  unsigned reused = sym_choice(4, "reused");
  if (reused == 1) { p.setData(Bytes(5, 9)); p.setSessionHandle(7); p.setCommand(EncapsCommands::CANCEL); }
  if (reused >= 2) {                      // an earlier image, accepted or refused
    Bytes e = sym_vec(26, "earlier"); e[2] = reused == 2 ? 2 : 3; e[3] = 0;
    CHECK(run([&] { p.expand(e); }) == (reused == 2 ? RETURNED : THREW_RUNTIME), "earlier image");
  }
  Outcome o = run([&] { p.expand(in); });
  sym_observe("outcome", o);
  bool good = n >= 24 && sym_fork(rd(&in[2], 2) == n - 24);
  if (!good) { CHECK(o == THREW_RUNTIME, "wrong length is refused"); sym_reach("refused"); return; }
  CHECK(o == RETURNED, "right length is accepted");
  CHECK((uint16_t)p.getCommand() == rd(&in[0], 2), "command");
  CHECK(p.getLength() == n - 24, "length");
  CHECK(p.getSessionHandle() == rd(&in[4], 4), "session handle");
  CHECK((uint32_t)p.getStatusCode() == rd(&in[8], 4), "status");
  checkBytes(p.getData(), Bytes(in.begin() + 24, in.end()), "payload");
  Bytes out = p.pack();
  checkBytes(out, in, "packing gives the image back");
  observeBytes("packed", out);
  EncapsPacket q;
  q.expand(out);
  CHECK(q == p, "equal after the round trip");
  CHECK(!(q != p), "not unequal after the round trip");
  sym_reach("accepted");
}
extern "C" void h_C04_pack() {            // arg: payload length
  unsigned n = (unsigned)sym_arg(0);
  uint16_t cmd = sym_u16("cmd"); uint32_t se = sym_u32("session"), st = sym_u32("status");
  Bytes d = big_vec(n, "data");
  EncapsPacket p;
  if (sym_choice(2, "order")) { p.setData(d); p.setCommand((EncapsCommands)cmd); p.setStatusCode((EncapsStatusCodes)st); p.setSessionHandle(se); }
  else { p.setData(Bytes(n + 3, 1)); p.setCommand((EncapsCommands)cmd); p.setSessionHandle(se); p.setStatusCode((EncapsStatusCodes)st); p.setData(d); }
  CHECK(p.getLength() == n, "length");
  CHECK((uint16_t)p.getCommand() == cmd, "command");
  CHECK(p.getSessionHandle() == se, "session handle");
  CHECK((uint32_t)p.getStatusCode() == st, "status");
  checkBytes(p.getData(), d, "payload");
  Bytes w = encapsImage(cmd, se, st, d);
  checkBytes(p.pack(), w, "image");
  EncapsPacket q; q.expand(w);
  CHECK(q == p, "expanding the image gives an equal packet");
  CHECK(EncapsPacket::getLengthFromHeader(w) == n, "length from header");
  sym_reach("packed");
}
extern "C" void h_C04_eq() {              // args: two payload lengths
  unsigned n = (unsigned)sym_arg(0), m = (unsigned)sym_arg(1);
  Bytes a = sym_vec(24 + n, "a"), b = sym_vec(24 + m, "b");
  a[2] = (uint8_t)n; a[3] = 0; b[2] = (uint8_t)m; b[3] = 0;
  EncapsPacket p, q;
  p.expand(a); q.expand(b);
  bool eq = p == q, ne = p != q, eq2 = q == p;
  CHECK(eq == !ne, "equality and inequality disagree");
  CHECK(eq == eq2, "equality is symmetric");
  int same = n == m;
  if (same) for (unsigned i = 0; i < a.size(); ++i) same = sym_and(same, a[i] == b[i]);
  CHECK(eq == (same != 0), "equal exactly when every field agrees");
  sym_reach(eq ? "equal" : "different");
}
extern "C" void h_C04_factory() {         // arg: data length
  unsigned n = (unsigned)sym_arg(0);
  uint32_t se = sym_u32("session"); uint16_t to = sym_u16("timeout"); Bytes d = big_vec(n, "data");
  EncapsPacketFactory f;
  uint32_t se2 = sym_u32("session2"); uint16_t to2 = sym_u16("timeout2");
  if (sym_choice(2, "usedBefore")) { f.createSendRRDataPacket(se2, to2, Bytes(3, 1)); f.createUnRegisterSessionPacket(se2); }
  checkBytes(f.createRegisterSessionPacket().pack(), encapsImage(0x65, 0, 0, Bytes{1, 0, 0, 0}), "register session");
  checkBytes(f.createUnRegisterSessionPacket(se).pack(), encapsImage(0x66, se, 0, {}), "unregister session");
  Bytes w; le(w, 0, 4); le(w, to, 2); cat(w, d);
  checkBytes(f.createSendRRDataPacket(se, to, d).pack(), encapsImage(0x6f, se, 0, w), "send RR data");
  checkBytes(f.createListIdentityPacket().pack(), encapsImage(0x63, 0, 0, {}), "list identity");
  checkBytes(f.createRegisterSessionPacket().pack(), encapsImage(0x65, 0, 0, Bytes{1, 0, 0, 0}), "register session again");
  Bytes w2; le(w2, 0, 4); le(w2, to2, 2);
  checkBytes(f.createSendRRDataPacket(se2, to2, {}).pack(), encapsImage(0x6f, se2, 0, w2), "send RR data again");
  checkBytes(f.createUnRegisterSessionPacket(se2).pack(), encapsImage(0x66, se2, 0, {}), "unregister session again");
  sym_reach("factory");
}

// ---- C05 ----
extern "C" void h_C05_pack() {            // args: payload length of each item
  unsigned k = (unsigned)sym_arg(0);
  CommonPacket p;
  Bytes w; le(w, k, 2);
  std::vector<RefItem> items;
  for (unsigned i = 0; i < k; ++i) {
    RefItem it; it.type = sym_u16("type"); it.data = big_vec((unsigned)sym_arg(1 + i), "payload");
    CommonPacketItem ci((CommonPacketItemIds)it.type, it.data);
    Bytes one; commonItem(one, it.type, it.data);
    checkBytes(ci.pack(), one, "item image");
    CHECK(ci.getLength() == it.data.size(), "item length");
    p << ci;
    commonItem(w, it.type, it.data);
    items.push_back(it);
  }
  checkBytes(p.pack(), w, "image");
  CommonPacket q;
  q << CommonPacketItem((CommonPacketItemIds)1, Bytes(3, 7));
  q.expand(w);
  CHECK(q.getItems().size() == k, "same number of items");
  for (unsigned i = 0; i < k; ++i) {
    CHECK((uint16_t)q.getItems()[i].getTypeId() == items[i].type, "type id");
    checkBytes(q.getItems()[i].getData(), items[i].data, "payload");
    CHECK(q.getItems()[i] == p.getItems()[i], "equal item");
  }
  checkBytes(q.pack(), w, "packs to the same image");
  sym_reach("packed");
}
extern "C" void h_C05_expand() {          // arg: number of bytes
  Bytes in = sym_vec((unsigned)sym_arg(0), "in");
  RefCommon r = refCommon(in);
  CommonPacket p;
  unsigned before = sym_choice(4, "before");
  if (before == 1) p << CommonPacketItem((CommonPacketItemIds)1, Bytes(3, 7)) << CommonPacketItem((CommonPacketItemIds)2, Bytes(0));
  if (before >= 2) {                      // an earlier list, complete or cut
    Bytes e; le(e, before == 2 ? 2 : 3, 2); commonItem(e, sym_u16("earlierType"), sym_vec(1, "earlier")); commonItem(e, 5, sym_vec(2, "earlier"));
    CHECK(run([&] { p.expand(e); }) == (before == 2 ? RETURNED : THREW_RUNTIME), "earlier list");
  }
  Outcome o = run([&] { p.expand(in); });
  sym_observe("outcome", o);
  if (!r.ok) { CHECK(o == THREW_RUNTIME, "announcing more than is present is refused"); sym_reach("refused"); return; }
  CHECK(o == RETURNED, "a complete list is accepted");
  CHECK(p.getItems().size() == r.items.size(), "exactly the announced items");
  for (size_t i = 0; i < r.items.size(); ++i) {
    const CommonPacketItem &c = p.getItems()[i];
    CHECK((uint16_t)c.getTypeId() == r.items[i].type, "type id");
    CHECK(c.getLength() == r.items[i].data.size(), "length");
    checkBytes(c.getData(), r.items[i].data, "payload");
  }
  sym_reach(r.items.size() > 1 ? "several items" : "accepted");
}
// A list with a large item, cut anywhere near an end.   args: item lengths a, b; bytes missing or (negative) more
extern "C" void h_C05_large() {
  Bytes w; le(w, 2, 2);
  uint16_t t1 = sym_u16("t1"), t2 = sym_u16("t2");
  Bytes a = big_vec((unsigned)sym_arg(0), "a"), b = big_vec((unsigned)sym_arg(1), "b");
  commonItem(w, t1, a); commonItem(w, t2, b);
  int64_t miss = (int64_t)sym_arg(2);
  if (miss > 0) w.resize(w.size() - (size_t)miss); else cat(w, sym_vec((unsigned)-miss, "more"));
  CommonPacket p;
  Outcome o = run([&] { p.expand(w); });
  if (miss > 0) { CHECK(o == THREW_RUNTIME, "announcing more than is present is refused"); sym_reach("refused"); return; }
  CHECK(o == RETURNED && p.getItems().size() == 2, "exactly the announced items");
  CHECK((uint16_t)p.getItems()[0].getTypeId() == t1 && (uint16_t)p.getItems()[1].getTypeId() == t2, "type id");
  checkBytes(p.getItems()[0].getData(), a, "payload"); checkBytes(p.getItems()[1].getData(), b, "payload");
  CHECK(p.getItems()[0].getLength() == a.size() && p.getItems()[1].getLength() == b.size(), "length");
  w.resize(2 + 8 + a.size() + b.size());
  checkBytes(p.pack(), w, "packs to the same image");
  sym_reach("several items");
}
// A long list of items.   args: number of items, bytes missing
extern "C" void h_C05_many() {
  unsigned k = (unsigned)sym_arg(0); size_t miss = (size_t)sym_arg(1);
  CommonPacket p;
  Bytes w; le(w, k, 2);
  std::vector<RefItem> items;
  for (unsigned i = 0; i < k; ++i) {
    bool some = i < 2 || i + 2 > k || (i > 253 && i < 258);
    RefItem it; it.type = some ? sym_u16("type") : (uint16_t)(3 * i); it.data = some ? sym_vec(1, "payload") : Bytes(i % 3, (uint8_t)i);
    p << CommonPacketItem((CommonPacketItemIds)it.type, it.data);
    commonItem(w, it.type, it.data);
    items.push_back(it);
  }
  checkBytes(p.pack(), w, "image");
  w.resize(w.size() - miss);
  CommonPacket q;
  Outcome o = run([&] { q.expand(w); });
  if (miss) { CHECK(o == THREW_RUNTIME, "announcing more than is present is refused"); sym_reach("refused"); return; }
  CHECK(o == RETURNED && q.getItems().size() == k, "exactly the announced items");
  for (unsigned i = 0; i < k; ++i) {
    CHECK((uint16_t)q.getItems()[i].getTypeId() == items[i].type, "type id");
    checkBytes(q.getItems()[i].getData(), items[i].data, "payload");
  }
  checkBytes(q.pack(), w, "packs to the same image");
  sym_reach("several items");
}
extern "C" void h_C05_items() {           // arg: data length
  Bytes d = big_vec((unsigned)sym_arg(0), "data");
  uint32_t id = sym_u32("id"), seq = sym_u32("seq");
  CommonPacketItemFactory f;
  if (sym_choice(2, "usedBefore")) { f.createConnectedDataItem(Bytes(2, 2)); f.createSequenceAddressItem(sym_u32("id0"), sym_u32("seq0")); f.createUnconnectedDataItem(Bytes(1, 1)); }
  Bytes w;
  commonItem(w, 0, {}); checkBytes(f.createNullAddressItem().pack(), w, "null address item"); w.clear();
  commonItem(w, 0xb2, d); checkBytes(f.createUnconnectedDataItem(d).pack(), w, "unconnected data item"); w.clear();
  commonItem(w, 0xb1, d); checkBytes(f.createConnectedDataItem(d).pack(), w, "connected data item"); w.clear();
  Bytes s; le(s, id, 4); le(s, seq, 4);
  commonItem(w, 0x8002, s); checkBytes(f.createSequenceAddressItem(id, seq).pack(), w, "sequenced address item");
  uint16_t t1 = sym_u16("t1"), t2 = sym_u16("t2");
  Bytes e = d.size() > 50 ? d : sym_vec((unsigned)sym_arg(0), "other");
  if (d.size() > 50) { Bytes o = sym_vec(2, "other"); e.front() = o[0]; e.back() = o[1]; }
  CommonPacketItem a((CommonPacketItemIds)t1, d), b((CommonPacketItemIds)t2, e);
  int same = t1 == t2;
  for (size_t i = 0; i < d.size(); ++i) same = sym_and(same, d[i] == e[i]);
  bool eq = a == b;
  CHECK(eq == (same != 0), "items equal exactly when type and payload agree");
  CHECK((a != b) == !eq, "inequality");
  sym_reach("items");
}

// ---- C06 ----
static EPath mkPath(unsigned n, uint16_t c, uint16_t i, uint16_t a) { return n == 0 ? EPath() : n == 1 ? EPath(c) : n == 2 ? EPath(c, i) : EPath(c, i, a); }
extern "C" void h_C06_pack() {            // args: ids named, 8-bit form
  unsigned n = (unsigned)sym_arg(0); bool narrow = sym_arg(1);
  uint16_t c = sym_u16("class"), i = sym_u16("instance"), a = sym_u16("attribute");
  if (narrow) ASSUME(sym_and(c < 256, sym_and(i < 256, a < 256)));
  EPath p = mkPath(n, c, i, a);
  CHECK(p.getClassId() == (n > 0 ? c : 0), "class id");
  CHECK(p.getObjectId() == (n > 1 ? i : 0), "instance id");
  CHECK(p.getAttributeId() == (n > 2 ? a : 0), "attribute id");
  Bytes w = pathImage(n, c, i, a, narrow), g = p.packPaddedPath(narrow);
  checkBytes(g, w, "segments");
  CHECK(p.getSizeInWords(narrow) * 2u == g.size(), "size in words is half the packed bytes");
  EPath q(9, 9, 9);
  q.expandPaddedPath(w);
  if (n > 0) CHECK(sym_or(c == 0, q.getClassId() == c), "class id after the round trip");
  if (n > 1) CHECK(sym_or(i == 0, q.getObjectId() == i), "instance id after the round trip");
  if (n > 2) CHECK(sym_or(a == 0, q.getAttributeId() == a), "attribute id after the round trip");
  int nz = 1;
  if (n > 0) nz = sym_and(nz, c != 0);
  if (n > 1) nz = sym_and(nz, i != 0);
  if (n > 2) nz = sym_and(nz, a != 0);
  if (sym_fork(nz)) {
    CHECK(q == p, "equal after the round trip");
    checkBytes(q.packPaddedPath(narrow), w, "packs to the same bytes");
    CHECK(q.getSizeInWords(narrow) * 2u == w.size(), "size after the round trip");
  }
  sym_reach("packed");
}
extern "C" void h_C06_eq() {              // args: ids named by each
  unsigned n = (unsigned)sym_arg(0), m = (unsigned)sym_arg(1);
  uint16_t x[3] = {sym_u16("c1"), sym_u16("i1"), sym_u16("a1")}, y[3] = {sym_u16("c2"), sym_u16("i2"), sym_u16("a2")};
  EPath p = mkPath(n, x[0], x[1], x[2]), q = mkPath(m, y[0], y[1], y[2]);
  int same = n == m;
  for (unsigned k = 0; k < 3; ++k) if (k < n) same = sym_and(same, x[k] == y[k]);
  bool eq = p == q;
  CHECK(eq == (same != 0), "paths equal exactly when they name the same ids");
  CHECK(eq == (q == p), "symmetric");
  sym_reach("compared");
}
extern "C" void h_C06_expand() {          // arg: number of bytes
  Bytes in = sym_vec((unsigned)sym_arg(0), "in");
  uint16_t id[3] = {0, 0, 0};
  bool ok = true;
  size_t p = 0;
  while (p < in.size()) {
    unsigned k = 3; bool wide = false;
    for (unsigned t = 0; t < 3 && k == 3; ++t) {
      const uint8_t seg[3] = {0x20, 0x24, 0x30};
      if (sym_fork(in[p] == seg[t])) k = t;
      else if (sym_fork(in[p] == seg[t] + 1)) { k = t; wide = true; }
    }
    if (k == 3) { ok = false; break; }
    size_t need = wide ? 4 : 2;
    if (in.size() - p < need) { ok = false; break; }
    id[k] = (uint16_t)(wide ? rd(&in[p + 2], 2) : in[p + 1]);
    p += need;
  }
  EPath q(3, 4, 5);
  if (sym_choice(2, "expandedBefore")) { Bytes e = sym_vec(6, "earlier"); e[0] = 0x20; e[2] = 0x25; e[3] = 0; q.expandPaddedPath(e); }
  Outcome o = run([&] { q.expandPaddedPath(in); });
  sym_observe("outcome", o);
  if (!ok) { CHECK(o == THREW_RUNTIME, "unknown or truncated segments are refused"); sym_reach("refused"); return; }
  CHECK(o == RETURNED, "well-formed segments are accepted");
  CHECK(q.getClassId() == id[0], "class id");
  CHECK(q.getObjectId() == id[1], "instance id");
  CHECK(q.getAttributeId() == id[2], "attribute id");
  CHECK(q.getSizeInWords(false) * 2u == q.packPaddedPath(false).size(), "16-bit size");
  CHECK(q.getSizeInWords(true) * 2u == q.packPaddedPath(true).size(), "8-bit size");
  sym_reach("expanded");
}

// ---- C07 ----
extern "C" void h_C07() {                 // args: ids named, 8-bit form, data length
  unsigned n = (unsigned)sym_arg(0), len = (unsigned)sym_arg(2); bool narrow = sym_arg(1);
  uint16_t c = sym_u16("class"), i = sym_u16("instance"), a = sym_u16("attribute");
  if (narrow) ASSUME(sym_and(c < 256, sym_and(i < 256, a < 256)));
  uint8_t svc = sym_u8("service"); Bytes d = big_vec(len, "data");
  Bytes path = pathImage(n, c, i, a, narrow), w;
  w.push_back(svc); w.push_back((uint8_t)(path.size() / 2)); cat(w, path); cat(w, d);
  MessageRouterRequest r(svc, mkPath(n, c, i, a), d, narrow);
  Bytes g = r.pack();
  checkBytes(g, w, "request image");
  observeBytes("request", g);
  checkBytes(r.pack(), w, "packing twice");
  // another request does not disturb it
  uint8_t svc2 = sym_u8("service2"); uint16_t c2 = sym_u16("class2");
  if (!narrow) {
    MessageRouterRequest r2(svc2, EPath(c2), Bytes{1}, false);
    Bytes w2; w2.push_back(svc2); w2.push_back(2); cat(w2, pathImage(1, c2, 0, 0, false)); w2.push_back(1);
    checkBytes(r2.pack(), w2, "second request");
    checkBytes(r.pack(), w, "packing again");
  }
  sym_reach("request");
}

// ---- C08 ----
static void checkMR(const MessageRouterResponse &m, const RefMR &r) {
  CHECK((uint8_t)m.getServiceCode() == r.service, "service code");
  CHECK((uint8_t)m.getGeneralStatusCode() == r.status, "general status");
  CHECK(m.getAdditionalStatus().size() == r.add.size(), "number of additional status words");
  for (size_t i = 0; i < r.add.size(); ++i) CHECK(m.getAdditionalStatus()[i] == r.add[i], "additional status word");
  checkBytes(m.getData(), r.data, "data");
}
extern "C" void h_C08() {                 // args: bytes of first and second reply
  unsigned n = (unsigned)sym_arg(0), m = (unsigned)sym_arg(1);
  Bytes in = big_vec(n, "in");
  if (n > 40) ASSUME(sym_or(in[3] == (n - 4) / 2, sym_or(in[3] == 0, sym_or(in[3] == (n - 4) / 2 + 1, in[3] == 128))));
  RefMR r = refMR(in);
  MessageRouterResponse p;
  Outcome o = run([&] { p.expand(in); });
  sym_observe("outcome", o);
  if (!r.ok) { CHECK(o == THREW_RUNTIME, "truncated response is refused"); sym_reach("refused"); }
  else { CHECK(o == RETURNED, "complete response is accepted"); checkMR(p, r); sym_reach(r.add.empty() ? "plain" : "additional status"); }
  if (m == 0) return;
  Bytes in2 = sym_vec(m, "in2");
  RefMR r2 = refMR(in2);
  o = run([&] { p.expand(in2); });
  if (!r2.ok) { CHECK(o == THREW_RUNTIME, "second: truncated response is refused"); return; }
  CHECK(o == RETURNED, "second: accepted");
  checkMR(p, r2);
  sym_reach("parsed again");
}
