// C02 arbitrary bytes are handled safely, C03 truncated messages are reported.
// Memory errors, failed internal assertions, endless loops and exceptions that are not a
// std::exception are reported by the executor itself; nothing else is asked for in C02.
#include "env.h"
#include "mock.h"
#include <arpa/inet.h>
#include <cstring>
#include <memory>
#include "SessionInfo.h"
#include "ConnectionManager.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "eip/CommonPacket.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/CipString.h"
#include "cip/CipRevision.h"
#include "utils/Buffer.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
using namespace eipScanner;
using namespace eipScanner::cip;
using namespace eipScanner::vendor::ra::powerFlex525;
using std::chrono::milliseconds;
using connectionManager::ConnectionParameters;

struct AnyNet : Net {                      // datagrams in order, then the receive timeout; or a byte stream
  std::vector<Bytes> in; size_t next = 0;
  Bytes stream; size_t pos = 0;
  long recvfrom(int, uint8_t *p, size_t n, int, sockaddr_in *) override {
    if (next >= in.size()) { errno = EAGAIN; return -1; }
    const Bytes &d = in[next++];
    size_t k = n < d.size() ? n : d.size();
    if (k) memcpy(p, d.data(), k);
    return (long)k;
  }
  long recv(int fd, uint8_t *p, size_t n, int) override {
    FdInfo *f = get(fd);
    if (f && f->dgram) return recvfrom(fd, p, n, 0, nullptr);
    size_t k = stream.size() - pos < n ? stream.size() - pos : n;
    if (k) memcpy(p, stream.data() + pos, k);
    pos += k;
    return (long)k;
  }
  int select(int n, fd_set *r, fd_set *, timeval *) override {
    int fd = -1;
    for (auto &f : fds) if (f.open && f.isBound) fd = f.fd;
    if (fd < 0 || !r || fd >= n || !FD_ISSET(fd, r)) return 0;
    FD_ZERO(r);
    if (next >= in.size()) return 0;
    FD_SET(fd, r);
    return 1;
  }
};
struct BytesSession : SessionInfoIf {      // every exchange is answered with the same payload
  Bytes payload; uint32_t handle = 7;
  eip::EncapsPacket sendAndReceive(const eip::EncapsPacket &) const override {
    eip::EncapsPacket r; r.setCommand(eip::EncapsCommands::SEND_RR_DATA); r.setSessionHandle(handle); r.setData(payload);
    return r;
  }
  CipUdint getSessionHandle() const override { return handle; }
  sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint("10.0.0.1", 44818); }
};
struct AnyRouter : MockRouter {            // arbitrary response data of the given lengths, one per request
  std::vector<unsigned> len; mutable size_t n = 0; size_t zeroAfter = 1000;
  std::vector<eip::CommonPacketItem> items;
  Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &x) const override {
    x = items;
    unsigned k = len.empty() ? 0 : len[n < len.size() ? n : len.size() - 1];
    n++;
    if (n > 60) sym_fail("asks without end");
    Bytes d = sym_vec(k, "reply");
    return mrReply(c.service, 0, n > zeroAfter ? Bytes(k) : d);
  }
};
static void touch(const Bytes &b) { for (auto x : b) sym_observe("byte", x); }
static void touch(const std::string &b) { for (auto x : b) sym_observe("char", (uint8_t)x); }

// Narrower bounds: the length fields a list of items holds take few values beyond what fits.
static void limitLengths(const Bytes &d, size_t from, bool header = false, size_t text = 0, bool few = false) {
  if (!sym_restricted()) return;
  if (header && d.size() >= 4) refLen(rd(&d[2], 2), d.size() > 24 ? d.size() - 24 : 0);
  if (d.size() < from) return;
  if (few) {
    for (size_t p = from + 2; p + 4 <= d.size();) {
      uint64_t len = rd(&d[p + 2], 2); size_t left = d.size() - p - 4;
      ASSUME(sym_or(sym_or(len == 0, len == 4), sym_or(len == left, len == left + 1)));
      p += 4 + sym_concretize(len);
    }
    return;
  }
  RefCommon c = refCommon(Bytes(d.begin() + (long)from, d.end()));
  if (text) for (auto &i : c.items) if (i.data.size() > text) refLen(i.data[text], i.data.size() - text - 1);
}
// args: decoder, bytes, second length
extern "C" void h_C02() {
  unsigned k = (unsigned)sym_arg(0), n = (unsigned)sym_arg(1), m = (unsigned)sym_arg(2);
  AnyNet net0; UseNet u(&net0);
  Bytes d;
  auto bytes = [&] { return d = sym_vec(n, "bytes"); };
  auto r = std::make_shared<AnyRouter>();
  r->len = {n}; if (m) r->len = {m, n};
  auto si = std::make_shared<NoSession>();
  Outcome o = run([&] {
    switch (k) {
      case 0: { bytes(); if (sym_restricted() && n >= 4) refLen(rd(&d[2], 2), n > 24 ? n - 24 : 0); eip::EncapsPacket p; p.expand(d); touch(p.getData()); break; }
      case 1: { bytes(); (void)eip::EncapsPacket::getLengthFromHeader(d); break; }
      case 2: { bytes(); limitLengths(d, 0); eip::CommonPacket p; p.expand(d); for (auto &i : p.getItems()) touch(i.getData()); break; }
      case 3: { bytes(); EPath p; p.expandPaddedPath(d); touch(p.packPaddedPath()); (void)p.toString(); break; }
      case 4: { bytes(); MessageRouterResponse p; p.expand(d); touch(p.getData()); sym_observe("additional", p.getAdditionalStatus().size()); break; }
      case 5: { bytes(); if (n > 24) sym_concretize(d[24]); connectionManager::ForwardOpenResponse p; p.expand(d); touch(p.getApplicationReplay()); break; }
      case 6: { bytes(); if (m) { d[24] = 1; d[25] = 0; d[28] = (uint8_t)(n - 30); d[29] = (uint8_t)((n - 30) >> 8); } limitLengths(d, 24, true, 32); net0.in.push_back(d); auto v = DiscoveryManager("10.0.0.255", 44818, milliseconds(10)).discover(); for (auto &x : v) touch(x.identityObject.getProductName()); break; }
      case 7: { IdentityObject p(1, si, r); touch(p.getProductName()); break; }
      case 8: { FileObject f(1, si, r); f.beginUpload(si, [](GeneralStatusCodes, const Bytes &c) { touch(c); }); for (int i = 0; i < 3 && f.handleTransfers(si); ++i); break; }
      case 9: { DPIFaultObject p(1, si, r); touch(p.getFullInformation().faultText.toStdString()); break; }
      case 10: { DPIFaultManager p(true, true, m & 1); r->len = {n}; r->zeroAfter = m & 1 ? 5 : 2; int c = 0; p.setNewFaultListener([&](const DPIFaultParameter &) { c++; }); p.handleFaultParameters(si, r); break; }
      case 11: { Yaskawa_EPath p; p.expandPaddedPath(d = bytes()); touch(p.packPaddedPath()); (void)p.toString(); break; }
      case 12: { auto s = std::make_shared<BytesSession>(); s->payload = bytes(); limitLengths(d, 6); auto x = MessageRouter().sendRequest(s, 1, EPath(1, 1, 1), {1}); touch(x.getData()); for (auto &i : x.getAdditionalPacketItems()) touch(i.getData()); break; }
      case 13: { auto s = std::make_shared<BytesSession>(); s->payload = bytes(); limitLengths(d, 6); auto x = Yaskawa_MessageRouter().sendRequest(s, 1, Yaskawa_EPath(1, 1, 1), {1}); touch(x.getData()); break; }
      case 14: { net0.stream = bytes(); if (sym_restricted() && n >= 4) { unsigned l = refLen(rd(&d[2], 2), n > 24 ? n - 24 : 0); if (n >= 28 + l) refLen(rd(&d[26 + l], 2), n > 48 + l ? n - 48 - l : 0); } SessionInfo s("10.0.0.1", 44818, milliseconds(10)); eip::EncapsPacket q; auto p = s.sendAndReceive(q); touch(p.getData()); break; }
      case 15: { bytes(); if (sym_restricted() && n) { unsigned l = refLen(d[0], n - 1); if (n >= l + 3) refLen(rd(&d[l + 1], 2), n - l - 3); } utils::Buffer b(d); CipShortString s; b >> s; touch(s.toStdString()); CipString t; b >> t; sym_observe("valid", b.isValid()); break; }
      case 16: { bytes(); utils::Buffer b(d); sockets::EndPoint e("", 0); CipRevision v; Bytes w(m); std::vector<uint16_t> x(m); CipLreal l; CipReal f; CipLint i; b >> e >> v >> w >> x >> l >> f >> i; sym_observe("valid", b.isValid()); break; }
      case 17: {                           // an open reply with any additional item
        r->items.push_back(eip::CommonPacketItem((eip::CommonPacketItemIds)sym_u16("type"), sym_vec(m, "address")));
        r->len = {n};
        ConnectionManager c(r); ConnectionParameters p; p.connectionTimeoutMultiplier = sym_u8("multiplier");
        auto w = c.forwardOpen(si, p, m & 1);
        c.handleConnections(milliseconds(0));
        c.forwardClose(si, w);
        break;
      }
      default: sym_kill();
    }
  });
  sym_observe("outcome", o);
  sym_reach(o == RETURNED ? "decoded" : "refused");
}
// Parameters: lengths of the link path and the texts are bounded, everything else is arbitrary.
// args: full, data size, bytes of the reply, updates
extern "C" void h_C02_param() {
  bool full = sym_arg(0); unsigned ds = (unsigned)sym_arg(1), n = (unsigned)sym_arg(2);
  struct R : MockRouter {
    Bytes size, all; unsigned other;
    Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &) const override {
      if (c.service == 1) return mrReply(1, 0, all);
      if (c.path.size() == 12 && c.path[10] == 6) return mrReply(c.service, 0, size);
      return mrReply(c.service, 0, sym_vec(other, "attribute"));
    }
  };
  auto r = std::make_shared<R>();
  r->all = sym_vec(n, "all"); r->other = (unsigned)sym_arg(3);
  if (ds < 256) r->size.push_back((uint8_t)ds);
  size_t p = ds;
  if (p < n) { p += 1 + refLen(r->all[p], n - p - 1) + 4; if (full) for (int i = 0; i < 3 && p < n; ++i) p += 1 + refLen(r->all[p], n - p - 1); }
  auto si = std::make_shared<NoSession>();
  Outcome o = run([&] {
    ParameterObject x(5, full, si, r);
    touch(x.getName()); touch(x.getUnits()); touch(x.getHelp());
    sym_observe("flags", x.isScalable() * 2 + x.isReadOnly());
    if (ds >= 4) { sym_observe("value", x.getActualValue<CipUdint>()); sym_observe("max", x.getMaxValue<CipUdint>()); }
    if (ds >= 1) { sym_observe("min", (uint8_t)x.getMinValue<CipSint>()); sym_observe("default", x.getDefaultValue<CipUsint>()); }
    x.updateValue(si);
    if (ds >= 1) sym_observe("updated", x.getActualValue<CipUsint>());
  });
  sym_observe("outcome", o);
  sym_reach(o == RETURNED ? "parameter" : "parameter refused");
}
// Any datagrams for an open connection.  args: class index, header, fixed, bytes of each
extern "C" void h_C02_io() {
  AnyNet n; UseNet u(&n);
  struct R : MockRouter {
    uint32_t id;
    Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &) const override {
      Bytes o; le(o, 1, 4); le(o, id, 4); le(o, 1, 2); le(o, 1, 2); le(o, 1, 4); le(o, 1000000, 4); le(o, 1000000, 4); le(o, 0, 2);
      return mrReply(c.service, 0, o);
    }
  };
  auto r = std::make_shared<R>();
  r->id = sym_u32("id");
  static const uint8_t cl[3] = {0, 1, 3};
  ConnectionParameters p;
  p.transportTypeTrigger = cl[sym_arg(0)]; p.t2oRealTimeFormat = sym_arg(1) != 0; p.t2oNetworkConnectionParams = sym_arg(2) ? 3 : 0x200 | 8;
  auto si = std::make_shared<NoSession>();
  for (int i = 3; i < 5; ++i) if (sym_arg(i)) { n.in.push_back(sym_vec((unsigned)sym_arg(i) - 1, "datagram")); limitLengths(n.in.back(), 0, false, 0, true); }
  int got = 0;
  Outcome o = run([&] {
    ConnectionManager c(r);
    auto w = c.forwardOpen(si, p);
    if (auto x = w.lock()) x->setReceiveDataListener([&](CipUdint h, CipUint s, const Bytes &d) { got++; sym_observe("header", h); sym_observe("sequence", s); touch(d); });
    c.handleConnections(milliseconds(0));
    c.handleConnections(milliseconds(0));
  });
  sym_observe("outcome", o);
  CHECK(o == RETURNED, "nothing escapes");
  sym_reach(got ? "data" : "no data");
}

// ---- C03 ----
// args: decoder, shape a, b, c
static void message(bool mutate) {
  unsigned k = (unsigned)sym_arg(0), a = (unsigned)sym_arg(1), b = (unsigned)sym_arg(2), c = (unsigned)sym_arg(3);
  Bytes d;                                 // the complete message
  size_t min = 0;                          // shortest complete message
  unsigned filled = 0;
  static const uint8_t some[11] = {0, 1, 0, 2, 0, 0, 3, 0, 5, 0, 200};
  auto fill = [&](unsigned n, const char *l) { if (!mutate) return sym_vec(n, l); Bytes v(n); for (auto &x : v) x = some[filled++ % 11]; return v; };
  auto sv = [&](unsigned n, const char *l) { cat(d, fill(n, l)); };
  auto u16 = [&](const char *l) -> uint16_t { return mutate && sym_restricted() ? 0xa1 : sym_u16(l); };
  auto u32 = [&](const char *l) -> uint32_t { return mutate && sym_restricted() ? 0xa1 : sym_u32(l); };
  auto u8 = [&](const char *l) -> uint8_t { return mutate && sym_restricted() ? 0xa1 : sym_u8(l); };
  bool trailing = true;                    // further bytes are allowed
  AnyNet net0; UseNet u(&net0);
  switch (k) {
    case 0: d = encapsImage(u16("command"), u32("handle"), u32("status"), fill(a, "payload")); trailing = false; break;
    case 1: le(d, b + (c ? 1 : 0), 2); for (unsigned i = 0; i < b; ++i) commonItem(d, u16("type"), fill(a + i, "item")); if (c) commonItem(d, u16("type"), fill(c - 1, "item")); break;
    case 2: d = pathImage(a, u16("class"), u16("instance"), u16("attribute"), b != 0); trailing = false; break;
    case 3: d = {u8("service"), u8("reserved"), u8("status"), (uint8_t)a}; sv(2 * a, "additional"); min = d.size(); sv(b, "data"); break;
    case 4: sv(24, "fields"); d.push_back((uint8_t)a); sv(1, "reserved"); sv(2 * a, "application"); break;
    case 5: sv(14, "fields"); d.push_back((uint8_t)a); sv(a, "name"); break;
    case 6: case 7: {
      bool full = k == 7;
      sv(a, "value"); d.push_back((uint8_t)b); sv(b, "link"); d.push_back(c & 1 ? 4 : 0); d.push_back(u8("descriptor")); sv(1, "type");
      if (full) {
        d.push_back((uint8_t)a);
        for (int i = 0; i < 3; ++i) { d.push_back((uint8_t)(c / 2 + i)); sv(c / 2 + i, "text"); }
        sv(3 * a, "limits"); if (!(c & 1)) min = d.size(); sv(16, "scaling"); sv(1, "precision");
      }
      break;
    }
    case 8: sv(30, "record"); break;
    case 9: sv(2, "value"); break;
    case 10: d = {2}; break;
    case 11: sv(4, "file_size"); d.push_back((uint8_t)a); break;
    case 12: d = {0, (uint8_t)(b ? 2 : 0)}; sv(a + (b ? 2 : 0), "content"); if (b) min = 4; break;
    case 13: case 14: {
      Bytes mr = {u8("service"), 0, u8("status"), (uint8_t)b}; cat(mr, fill(2 * b + a, "data"));
      sv(4, "interface"); sv(2, "timeout"); le(d, 2 + c, 2); commonItem(d, 0, {}); commonItem(d, 0xb2, mr);
      for (unsigned i = 0; i < c; ++i) commonItem(d, u16("type"), fill(i, "item"));
      break;
    }
    case 15: d = pathImage(a, u8("class"), u8("instance"), u8("attribute"), true); trailing = false; break;
    case 16: d = encapsImage(0x65, u32("handle"), 0, {1, 0, 0, 0}); break;
    default: sym_kill();
  }
  if (!min) min = d.size();
  unsigned cut = (unsigned)d.size();
  if (mutate) {                            // two neighbouring bytes take other values
    unsigned n = (unsigned)d.size(), head = n - 1 < 44 ? n - 1 : 44, tail = n > 48 ? 4 : 0;
    if (n < 2) sym_kill();
    unsigned at = sym_choice(head + tail, "position");
    if (at >= head) at = n - 1 - (at - head + 1);
    for (unsigned i = 0; i < 2; ++i) {
      uint8_t v = sym_u8("changed");
      ASSUME(sym_or(sym_or(v < 6, sym_or(v == 8, v == 16)), sym_or(sym_or(v == 0x40, v == 0x7f), sym_or(v == 0x80, v > 0xfd))));
      if (sym_restricted()) v = (uint8_t)sym_concretize(v);
      d[at + i] = v;
    }
  } else { cut = sym_u16("cut");
  ASSUME(cut < d.size() + 3);
  cut = (unsigned)sym_concretize(cut); }
  if (cut > d.size()) { if (!trailing) sym_kill(); sv(cut - (unsigned)d.size(), "more"); }
  else d.resize(cut);
  bool complete = cut >= min;
  if (k == 2 || k == 15) {                 // whole segments alone are a path
    unsigned seg = k == 15 || b ? 2 : 4;
    complete = cut % seg == 0;
    if (cut == 0) sym_kill();
  }
  if (k == 9 && complete && !mutate) { ASSUME(d[0] == 0 && d[1] == 0); }
  auto si = std::make_shared<NoSession>();
  auto r = std::make_shared<ScriptRouter>();
  int errors = 0, done = 0;
  auto handler = [&](GeneralStatusCodes s, const Bytes &x) { (int)s ? (CHECK(x.empty(), "no content with an error"), errors++) : done++; };
  bool isParam = false;
  Outcome o = run([&] {
    switch (k) {
      case 0: { eip::EncapsPacket p; p.expand(d); break; }
      case 1: { eip::CommonPacket p; p.expand(d); if (!mutate) CHECK(p.getItems().size() == b + (c ? 1 : 0), "every item"); break; }
      case 2: { EPath p; p.expandPaddedPath(d); break; }
      case 3: { MessageRouterResponse p; p.expand(d); break; }
      case 4: { connectionManager::ForwardOpenResponse p; p.expand(d); break; }
      case 5: { r->replies.push_back(mrReply(1, 0, d)); IdentityObject p(1, si, r); break; }
      case 6: case 7: {
        isParam = true;
        r->replies = {mrReply(0x0e, 0, {(uint8_t)a}), mrReply(1, 0, d)};
        for (int i = 0; i < 4; ++i) r->replies.push_back(mrReply(0x0e, 0, {1, 0}));
        ParameterObject p(1, k == 7, si, r);
        break;
      }
      case 8: { r->replies.push_back(mrReply(0x0e, 0, d)); DPIFaultObject p(1, si, r); break; }
      case 9: {                            // the parameters of a fault, the a-th reply is the one judged
        for (unsigned i = 0; i < 4; ++i) r->replies.push_back(mrReply(0x0e, 0, i == a ? d : Bytes{2, 0}));
        DPIFaultParameter p(si, r, 1 + (int)b, true); break;
      }
      case 10: { r->replies.push_back(mrReply(0x0e, 0, d)); FileObject p(1, si, r); break; }
      case 11: { r->replies = {mrReply(0x0e, 0, {2}), mrReply(0x4b, 0, d)}; FileObject p(1, si, r); p.beginUpload(si, handler); break; }
      case 12: { Bytes i; le(i, a, 4); i.push_back((uint8_t)a); r->replies = {mrReply(0x0e, 0, {2}), mrReply(0x4b, 0, i), mrReply(0x4f, 0, d)}; FileObject p(1, si, r); p.beginUpload(si, handler); p.handleTransfers(si); break; }
      case 13: { auto s = std::make_shared<BytesSession>(); s->payload = d; MessageRouter().sendRequest(s, 1, EPath(1, 1, 1), {1}); break; }
      case 14: { auto s = std::make_shared<BytesSession>(); s->payload = d; Yaskawa_MessageRouter().sendRequest(s, 1, Yaskawa_EPath(1, 1, 1), {1}); break; }
      case 15: { Yaskawa_EPath p; p.expandPaddedPath(d); break; }
      case 16: { net0.stream = d; SessionInfo s("10.0.0.1", 44818, milliseconds(10)); break; }
    }
  });
  sym_observe("outcome", o);
  if (mutate) { sym_reach("changed"); return; }
  if (complete) {
    if (k == 12 && b && cut != d.size()) return;   // other lengths only change the size
    if (k == 12 && b) { CHECK(o == RETURNED, "a complete message is accepted"); sym_reach("complete"); return; }
    CHECK(o == RETURNED && errors == 0, "a complete message is accepted");
    sym_reach("complete");
  } else {
    if (k == 11 || k == 12) CHECK((o != RETURNED && !errors && !done) || (errors == 1 && !done), "a truncated message is reported");
    else CHECK(o != RETURNED, "a truncated message is reported");
    sym_reach("truncated");
  }
}

extern "C" void h_C03() { message(false); }
extern "C" void h_C02_changed() { message(true); }
