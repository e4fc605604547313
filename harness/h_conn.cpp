// C14 open/close requests, C15 connection parameters and open replies, C16 opening,
// C17 the set of open connections, C18 received data, C19 produced data, C20 timeouts
#include "env.h"
#include "mock.h"
#include <cstring>
#include <arpa/inet.h>
#include "ConnectionManager.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
using namespace eipScanner;
using namespace eipScanner::cip::connectionManager;
using eip::CommonPacketItem;
using eip::CommonPacketItemIds;
using std::chrono::milliseconds;
typedef NetworkConnectionParametersBuilder NCP;

// ---- C14 ----
static ConnectionParameters symParams(unsigned pathWords) {
  ConnectionParameters p;
  p.priorityTimeTick = sym_u8("priorityTimeTick");
  p.timeoutTicks = sym_u8("timeoutTicks");
  p.o2tNetworkConnectionId = sym_u32("o2tId");
  p.t2oNetworkConnectionId = sym_u32("t2oId");
  p.connectionSerialNumber = sym_u16("serial");
  p.originatorVendorId = sym_u16("vendor");
  p.originatorSerialNumber = sym_u32("origSerial");
  p.connectionTimeoutMultiplier = sym_u8("multiplier");
  p.o2tRPI = sym_u32("o2tRPI");
  p.o2tNetworkConnectionParams = sym_u32("o2tParams");
  p.t2oRPI = sym_u32("t2oRPI");
  p.t2oNetworkConnectionParams = sym_u32("t2oParams");
  p.transportTypeTrigger = sym_u8("trigger");
  p.connectionPath = sym_vec(2 * pathWords, "path");
  p.connectionPathSize = (uint8_t)pathWords;
  return p;
}
struct OpenImage { uint64_t o2tId, t2oId, serial, o2tP, t2oP; };
static Bytes openImage(const ConnectionParameters &p, const OpenImage &i, bool large, unsigned words) {
  Bytes o; unsigned n = large ? 4 : 2;
  le(o, p.priorityTimeTick, 1); le(o, p.timeoutTicks, 1); le(o, i.o2tId, 4); le(o, i.t2oId, 4); le(o, i.serial, 2);
  le(o, p.originatorVendorId, 2); le(o, p.originatorSerialNumber, 4); le(o, p.connectionTimeoutMultiplier, 1); le(o, 0, 3);
  le(o, p.o2tRPI, 4); le(o, i.o2tP, n); le(o, p.t2oRPI, 4); le(o, i.t2oP, n);
  le(o, p.transportTypeTrigger, 1); le(o, words, 1); cat(o, p.connectionPath);
  return o;
}
static Bytes closeImage(uint64_t serial, uint64_t vendor, uint64_t orig, const Bytes &path) {
  Bytes o; le(o, 0, 2); le(o, serial, 2); le(o, vendor, 2); le(o, orig, 4); le(o, path.size() / 2, 1); le(o, 0, 1); cat(o, path);
  return o;
}
extern "C" void h_C14() {                 // args: 0 open, 1 large, 2 close ; path words
  unsigned w = (unsigned)sym_arg(1);
  ConnectionParameters p = symParams(w);
  Bytes got;
  if (sym_arg(0) == 2) {
    ForwardCloseRequest r;
    r.setConnectionSerialNumber(p.connectionSerialNumber); r.setOriginatorVendorId(p.originatorVendorId);
    r.setOriginatorSerialNumber(p.originatorSerialNumber); r.setConnectionPath(p.connectionPath);
    got = r.pack();
    checkBytes(got, closeImage(p.connectionSerialNumber, p.originatorVendorId, p.originatorSerialNumber, p.connectionPath), "close request");
    checkBytes(r.pack(), got, "packing again");
    sym_reach("close");
  } else {
    bool large = sym_arg(0) == 1;
    OpenImage i = {p.o2tNetworkConnectionId, p.t2oNetworkConnectionId, p.connectionSerialNumber, p.o2tNetworkConnectionParams, p.t2oNetworkConnectionParams};
    if (large) { LargeForwardOpenRequest r(p); got = r.pack(); checkBytes(r.pack(), got, "packing again"); }
    else { ForwardOpenRequest r(p); got = r.pack(); checkBytes(r.pack(), got, "packing again"); }
    checkBytes(got, openImage(p, i, large, w), large ? "large open request" : "open request");
    sym_reach(large ? "large open" : "open");
  }
  observeBytes("image", got);
}

// ---- C15 ----
extern "C" void h_C15_build() {           // arg: large
  bool large = sym_arg(0);
  unsigned owner = sym_u8("owner"), type = sym_u8("type"), prio = sym_u8("priority"), var = sym_u8("variable"); uint16_t size = sym_u16("size");
  ASSUME(sym_and(sym_and(owner < 2, type < 4), sym_and(prio < 4, var < 2)));
  if (!large) ASSUME(size < 512);
  NCP b(0, large);
  // every order in which the fields are set, each set once
  unsigned perm = sym_choice(120, "order"), left[5] = {0, 1, 2, 3, 4};
  for (unsigned n = 5; n > 0; --n) {
    unsigned k = perm % n; perm /= n;
    unsigned f = left[k]; left[k] = left[n - 1];
    NCP *r = nullptr;
    switch (f) {
      case 0: r = &b.setRedundantOwner((NCP::RedundantOwner)owner); break;
      case 1: r = &b.setConnectionType((NCP::ConnectionType)type); break;
      case 2: r = &b.setPriority((NCP::Priority)prio); break;
      case 3: r = &b.setType((NCP::Type)var); break;
      default: r = &b.setConnectionSize(size); break;
    }
    CHECK(r == &b, "setters chain on the same builder");
  }
  uint32_t v = b.build();
  uint32_t want = large ? ((uint32_t)owner << 31 | (uint32_t)type << 29 | (uint32_t)prio << 26 | (uint32_t)var << 25 | size)
                        : ((uint32_t)owner << 15 | (uint32_t)type << 13 | (uint32_t)prio << 10 | (uint32_t)var << 9 | size);
  sym_observe("value", v);
  CHECK(v == want, "each field occupies its prescribed bits");
  CHECK((unsigned)b.getRedundantOwner() == owner, "owner");
  CHECK((unsigned)b.getConnectionType() == type, "connection type");
  CHECK((unsigned)b.getPriority() == prio, "priority");
  CHECK((unsigned)b.getType() == var, "size type");
  CHECK(b.getConnectionSize() == size, "size");
  sym_reach("built");
}
extern "C" void h_C15_get() {             // arg: large
  bool large = sym_arg(0);
  uint32_t v = sym_u32("value");
  NCP b(v, large);
  CHECK(b.build() == v, "value");
  CHECK((unsigned)b.getRedundantOwner() == (large ? v >> 31 & 1 : v >> 15 & 1), "owner");
  CHECK((unsigned)b.getConnectionType() == (large ? v >> 29 & 3 : v >> 13 & 3), "connection type");
  CHECK((unsigned)b.getPriority() == (large ? v >> 26 & 3 : v >> 10 & 3), "priority");
  CHECK((unsigned)b.getType() == (large ? v >> 25 & 1 : v >> 9 & 1), "size type");
  CHECK(b.getConnectionSize() == (large ? v & 0xffff : v & 0x1ff), "size");
  sym_observe("type", (uint64_t)b.getConnectionType());
  sym_reach("decoded");
}
extern "C" void h_C15_response() {        // args: length, length of an earlier reply + 1 (0: none)
  Bytes d = sym_vec((unsigned)sym_arg(0), "reply");
  ForwardOpenResponse r;
  if (sym_arg(1)) { Bytes e = sym_vec((unsigned)sym_arg(1) - 1, "earlier"); if (e.size() > 24) ASSUME(sym_or(e[24] < 4, e[24] == 128)); run([&] { r.expand(e); }); }
  Outcome o = run([&] { r.expand(d); });
  sym_observe("outcome", o);
  bool ok = d.size() >= 26;
  if (ok) ok = !sym_fork(2u * d[24] > d.size() - 26);
  if (!ok) { CHECK(o != RETURNED, "a truncated reply is reported"); sym_reach("refused"); return; }
  CHECK(o == RETURNED, "a complete reply is accepted");
  CHECK(r.getO2TNetworkConnectionId() == rd(&d[0], 4), "o2t id");
  CHECK(r.getT2ONetworkConnectionId() == rd(&d[4], 4), "t2o id");
  CHECK(r.getConnectionSerialNumber() == rd(&d[8], 2), "serial number");
  CHECK(r.getOriginatorVendorId() == rd(&d[10], 2), "vendor id");
  CHECK(r.getOriginatorSerialNumber() == rd(&d[12], 4), "originator serial number");
  CHECK(r.getO2TApi() == rd(&d[16], 4), "o2t packet interval");
  CHECK(r.getT2OApi() == rd(&d[20], 4), "t2o packet interval");
  CHECK(r.getApplicationReplaySize() == d[24], "reply size");
  unsigned k = (unsigned)sym_concretize(d[24]);
  checkBytes(r.getApplicationReplay(), Bytes(d.begin() + 26, d.begin() + 26 + 2 * k), "application reply");
  sym_reach(k ? "with application reply" : "plain");
}

// ---- the I/O side of C16..C20 ----
struct Dgram { int fd; Bytes data; sockaddr_in to; };
struct IoNet : Net {
  int64_t clock = 0;                       // ns
  uint32_t seed = 4;
  std::vector<Dgram> sent;
  std::vector<Bytes> in; size_t inPos = 0; // datagrams waiting, in order, and how many of them were taken
  std::vector<unsigned> on; std::vector<bool> taken; // the receiving socket each arrives on
  bool sendFails = false;
  const char *failing = nullptr; int failAfter = 0;  // a call that fails, after that many which do not
  int fail(const char *call, int) override {
    if (!failing || strcmp(call, failing) || failAfter-- > 0) return 0;
    failing = nullptr;
    return EMFILE;
  }
  int64_t now() override { return clock; }
  uint32_t random() override { return seed; }
  long sendto(int fd, const uint8_t *p, size_t n, int, const sockaddr_in *t) override {
    Dgram d; d.fd = fd; d.data.assign(p, p + n); d.to = *t; sent.push_back(d);
    if (sendFails) { errno = ENETUNREACH; return -1; }
    return (long)n;
  }
  std::vector<int> bounds() { std::vector<int> r; for (auto &f : fds) if (f.open && f.isBound && f.bound.sin_port == htons(2222)) r.push_back(f.fd); return r; }
  int next(int fd) {                         // the datagram the socket has to give
    std::vector<int> b = bounds();
    for (size_t i = 0; i < in.size(); ++i) if (!taken[i] && on[i] < b.size() && b[on[i]] == fd) return (int)i;
    return -1;
  }
  long recvfrom(int fd, uint8_t *p, size_t n, int, sockaddr_in *) override {
    int i = next(fd);
    if (i < 0) sym_fail("receives without data");
    taken[i] = true; inPos++;
    Bytes &d = in[i];
    size_t k = d.size() < n ? d.size() : n;
    if (k) memcpy(p, d.data(), k);
    return (long)k;
  }
  int boundFd() { std::vector<int> b = bounds(); return b.empty() ? -1 : b.back(); }
  int select(int n, fd_set *r, fd_set *, timeval *) override {
    std::vector<int> b = bounds();
    if (b.empty()) sym_fail("waits for the receiving socket");
    for (int fd : b) if (fd >= n || !FD_ISSET(fd, r)) sym_fail("waits for every receiving socket");
    FD_ZERO(r);
    int ready = 0;
    for (int fd : b) if (next(fd) >= 0) { FD_SET(fd, r); ready++; }
    return ready;
  }
  void arrive(const Bytes &d, unsigned which = 0) { in.push_back(d); on.push_back(which); taken.push_back(false); }
};
struct Grant { uint32_t o2t, t2o; uint16_t serial; uint16_t vendor; uint32_t orig; uint32_t o2tApi, t2oApi; };
static Bytes grantImage(const Grant &g) {
  Bytes o; le(o, g.o2t, 4); le(o, g.t2o, 4); le(o, g.serial, 2); le(o, g.vendor, 2); le(o, g.orig, 4); le(o, g.o2tApi, 4); le(o, g.t2oApi, 4); le(o, 0, 2);
  return o;
}
struct OpenRouter : MockRouter {
  uint8_t status = 0; Grant grant; std::vector<CommonPacketItem> items;
  bool lost = false;                         // the session breaks down
  Bytes answer(const Call &c, std::vector<CommonPacketItem> &x) const override {
    if (lost) throw std::runtime_error("lost");
    if (c.service == 0x4E) { Bytes b; le(b, grant.serial, 2); le(b, 0, 8); return mrReply(c.service, status, status ? Bytes() : b); }
    if (!status) x = items;
    return mrReply(c.service, status, status ? Bytes() : grantImage(grant));
  }
};
static Bytes ioDatagram(uint32_t id, uint32_t encSeq, const Bytes &payload) {
  Bytes o, a; le(a, id, 4); le(a, encSeq, 4); le(o, 2, 2); commonItem(o, 0x8002, a); commonItem(o, 0x00B1, payload);
  return o;
}
static const uint8_t kClass[3] = {0, 1, 3};

// args: large, reply (0 plain, 1 address item, 2 wildcard address item, 3 error), class index, path words
extern "C" void h_C16() {
  bool large = sym_arg(0); int mode = (int)sym_arg(1); unsigned words = (unsigned)sym_arg(3);
  IoNet n; UseNet u(&n);
  n.seed = sym_u32("random");
  auto r = std::make_shared<OpenRouter>();
  auto si = std::make_shared<NoSession>();
  ConnectionManager m(r);
  ConnectionParameters p = symParams(words);
  ASSUME(p.connectionTimeoutMultiplier < 8);
  p.connectionPathSize = sym_u8("callersPathSize");    // computed by the library
  p.transportTypeTrigger = (uint8_t)((p.transportTypeTrigger & 0xf0) | kClass[sym_arg(2)]);
  p.o2tRealTimeFormat = sym_choice(2, "o2tHeader"); p.t2oRealTimeFormat = sym_choice(2, "t2oHeader");
  uint32_t mask = large ? 0xffff : 0x1ff;
  ASSUME(sym_and((p.o2tNetworkConnectionParams & mask) + 6 <= mask, (p.t2oNetworkConnectionParams & mask) + 6 <= mask));
  if (!large) ASSUME(sym_and(p.o2tNetworkConnectionParams < 65536, p.t2oNetworkConnectionParams < 65536));
  Grant g; g.o2t = sym_u32("grantedO2t"); g.t2o = sym_u32("grantedT2o"); g.serial = sym_u16("grantedSerial"); g.vendor = sym_u16("echoVendor"); g.orig = sym_u32("echoOrig");
  g.o2tApi = sym_u32("o2tApi"); g.t2oApi = sym_u32("t2oApi");
  r->grant = g; r->status = 0;
  uint32_t addr = mode == 2 ? 0 : sym_u32("addr"); uint16_t port = sym_u16("port");
  if (mode == 1) ASSUME(addr != 0);
  if (mode == 1 || mode == 2) {
    Bytes a{0, 2, (uint8_t)(port >> 8), (uint8_t)port, (uint8_t)(addr >> 24), (uint8_t)(addr >> 16), (uint8_t)(addr >> 8), (uint8_t)addr}; a.resize(16);
    if (sym_choice(2, "otherItemFirst")) r->items.push_back(CommonPacketItem(CommonPacketItemIds::T2O_SOCKADDR_INFO, sym_vec(16, "t2oItem")));
    r->items.push_back(CommonPacketItem(CommonPacketItemIds::O2T_SOCKADDR_INFO, a));
  }
  if (mode == 3) { r->status = sym_u8("status"); ASSUME(r->status != 0); }
  IOConnection::WPtr w = large && sym_choice(2, "viaLarge") ? m.largeForwardOpen(si, p) : m.forwardOpen(si, p, large);
  // the request
  CHECK(r->calls.size() == 1, "one open request");
  Call c = r->calls[0];
  CHECK(c.service == (large ? 0x5B : 0x54), "service code");
  checkBytes(c.path, pathImage(2, 6, 1, 0, false), "to the connection manager object");
  CHECK(c.extra.empty() && c.session == si.get(), "over the given session");
  CHECK(c.data.size() >= 12, "request");
  unsigned seqBytes = sym_arg(2) ? 2 : 0, o2tType = (large ? p.o2tNetworkConnectionParams >> 29 : p.o2tNetworkConnectionParams >> 13) & 3, t2oType = (large ? p.t2oNetworkConnectionParams >> 29 : p.t2oNetworkConnectionParams >> 13) & 3;
  OpenImage i;
  i.o2tId = rd(&c.data[2], 4); i.t2oId = rd(&c.data[6], 4); i.serial = rd(&c.data[10], 2);
  i.o2tP = p.o2tNetworkConnectionParams + seqBytes + (p.o2tRealTimeFormat ? 4 : 0);
  i.t2oP = p.t2oNetworkConnectionParams + seqBytes + (p.t2oRealTimeFormat ? 4 : 0);
  bool genO = o2tType == 1, genT = t2oType == 2;
  if (!genO) CHECK(i.o2tId == p.o2tNetworkConnectionId, "the caller's o2t id");
  if (!genT) CHECK(i.t2oId == p.t2oNetworkConnectionId, "the caller's t2o id");
  checkBytes(c.data, openImage(p, i, large, words), "the caller's parameters with enlarged sizes");
  sym_observe("o2tParams", i.o2tP);
  if (mode == 3) {
    CHECK(w.expired() && !m.hasOpenConnections(), "an error status creates no connection");
    sym_reach("refused");
    r->status = 0;
  } else {
    CHECK(!w.expired() && m.hasOpenConnections(), "the connection is open");
    CHECK(n.boundFd() >= 0, "receives on port 2222");
  }
  size_t before = n.sent.size();
  CHECK(before == 0, "opening sends no I/O data");
  // a second connection: fresh serial number and ids
  ConnectionParameters p2 = p;
  r->grant.t2o = sym_u32("secondT2o"); r->grant.o2tApi = 0xffffffff; r->grant.t2oApi = 0xffffffff;
  ASSUME(r->grant.t2o != g.t2o);
  IOConnection::WPtr w2 = m.forwardOpen(si, p2, large);
  CHECK(r->calls.size() == 2, "one request each");
  Call c2 = r->calls[1];
  CHECK(c2.data.size() == c.data.size(), "request");
  CHECK(rd(&c2.data[10], 2) != i.serial, "fresh serial number");
  if (genO) CHECK(rd(&c2.data[2], 4) != i.o2tId, "generated o2t ids differ");
  if (genT) CHECK(rd(&c2.data[6], 4) != i.t2oId, "generated t2o ids differ");
  int bound = 0;
  for (auto &f : n.fds) bound += f.open && f.isBound;
  CHECK(bound > 0, "still receives");
  if (mode == 3) return;
  // what was granted is used
  ASSUME(sym_or(p.connectionTimeoutMultiplier == 0, p.connectionTimeoutMultiplier == 7));
  sym_concretize(p.connectionTimeoutMultiplier);
  IOConnection::SPtr io = w.lock();
  unsigned size = p.o2tNetworkConnectionParams & mask, variable = large ? p.o2tNetworkConnectionParams >> 25 & 1 : p.o2tNetworkConnectionParams >> 9 & 1;
  if (!variable) ASSUME(size == 3);
  Bytes out = sym_vec(3, "out");
  io->setDataToSend(out);
  bool closed = false;
  io->setCloseListener([&] { closed = true; });
  ASSUME(sym_and(g.o2tApi <= g.t2oApi, g.o2tApi != 0xffffffff));
  if (sym_choice(2, "early")) {
    ASSUME(g.o2tApi > 0);
    n.clock += (int64_t)(uint32_t)(g.o2tApi - 1) * 1000;
    m.handleConnections(milliseconds(0));
    CHECK(n.sent.empty() && !closed, "nothing is sent before the granted interval");
    sym_reach("early");
    return;
  }
  n.clock += (int64_t)g.o2tApi * 1000;
  m.handleConnections(milliseconds(0));
  CHECK(n.sent.size() == 1 && !closed, "sent at the granted interval");
  const Dgram &d = n.sent[0];
  CHECK(d.data.size() == 2 + 12 + 4 + seqBytes + (p.o2tRealTimeFormat ? 4 : 0) + 3, "size of the datagram");
  CHECK(rd(&d.data[6], 4) == g.o2t, "carries the granted id");
  CHECK(d.to.sin_port == htons(mode ? port : 2222), "to the named port");
  CHECK(d.to.sin_addr.s_addr == (mode == 1 ? htonl(addr) : htonl(0x0A000001)), "to the named address, else to the session's host");
  r->calls.clear();
  m.forwardClose(si, w);
  CHECK(r->calls.size() == 1, "closed");
  checkBytes(r->calls[0].data, closeImage(g.serial, p.originatorVendorId, p.originatorSerialNumber, p.connectionPath), "closed with the granted serial number");
  sym_reach("opened");
}

// Many connections, opened and partly closed: fresh serial numbers, generated ids differ.
// args: connections, large (2: normal and large ones), close every n-th before the next open (0: none), managers
extern "C" void h_C16_many() {
  IoNet n; UseNet u(&n);
  n.seed = sym_u32("random");
  auto r = std::make_shared<OpenRouter>();
  auto si = std::make_shared<NoSession>();
  ConnectionManager m1(r);
  n.seed = sym_u32("random");
  ConnectionManager m2(r);
  unsigned every = (unsigned)sym_arg(2);
  std::vector<uint64_t> serials, ids, o2ts;
  std::vector<bool> open;
  IOConnection::WPtr last;
  for (unsigned i = 0; i < sym_arg(0); ++i) {
    ConnectionParameters p;
    bool large = sym_arg(1) == 2 ? i / 2 % 2 : sym_arg(1);
    ConnectionManager &m = sym_arg(3) == 2 && i / 4 % 2 ? m2 : m1;
    bool both = i % 2 == 0;                // the o2t id is generated for multicast, the t2o id for point to point
    uint32_t o2tType = both ? 1 : 2, t2oType = 2;
    p.o2tNetworkConnectionParams = large ? o2tType << 29 | 2 : o2tType << 13 | 2; p.t2oNetworkConnectionParams = large ? t2oType << 29 | 2 : t2oType << 13 | 2;
    p.o2tNetworkConnectionId = 0x1234; p.t2oNetworkConnectionId = 0x77;
    p.connectionTimeoutMultiplier = 1;
    Grant g; g.o2t = i; g.t2o = 1000 + i; g.serial = (uint16_t)i; g.vendor = 0; g.orig = 0; g.o2tApi = g.t2oApi = 0xffffffff;
    r->grant = g; r->calls.clear();
    r->status = i % 5 == 3 ? 1 : 0;       // some opens are refused
    IOConnection::WPtr w = m.forwardOpen(si, p, large);
    CHECK(w.expired() == (r->status != 0), "opened unless refused");
    CHECK(r->calls.size() == 1, "one request");
    const Bytes &d = r->calls[0].data;
    serials.push_back(rd(&d[10], 2)); ids.push_back(rd(&d[6], 4)); open.push_back(!w.expired());
    if (both) o2ts.push_back(rd(&d[2], 4)); else CHECK(rd(&d[2], 4) == 0x1234, "the caller's o2t id");
    last = w;
    if (every && i % every == every - 1 && !w.expired()) { r->status = 0; m.forwardClose(si, w); CHECK(w.expired(), "closed"); }
  }
  uint64_t lastOf = serials.size() - 1;
  // compared with their neighbours, and with the first ones, for every random start
  for (size_t i = 1; i < serials.size(); ++i) {
    CHECK(serials[i] != serials[i - 1] && serials[i] != serials[0], "fresh serial number");
    CHECK(ids[i] != ids[i - 1] && ids[i] != ids[0], "generated t2o ids differ");
    if (i < o2ts.size()) CHECK(o2ts[i] != o2ts[i - 1] && o2ts[i] != o2ts[0], "generated o2t ids differ");
    for (size_t j = i + 1; j < serials.size() && j < i + 40; ++j) CHECK(sym_and(serials[i] != serials[j], ids[i] != ids[j]), "all of them differ");
  }
  (void)lastOf;
  sym_reach("many");
}

// ---- C17 ----
struct Conn {
  IOConnection::WPtr w; IOConnection::SPtr keep;
  Grant g; ConnectionParameters p;
  bool open; int64_t last, timeout;        // ns
  int closes, received, sends;
};
struct World {
  IoNet n; UseNet u; std::shared_ptr<OpenRouter> r; std::shared_ptr<NoSession> si; ConnectionManager m;
  std::vector<Conn> c;
  World() : u(&n), r(std::make_shared<OpenRouter>()), si(std::make_shared<NoSession>()), m(r) { c.reserve(8); }
  // opens a connection: granted intervals in us
  Conn &open(uint32_t t2o, uint32_t o2tApi, uint32_t t2oApi, uint8_t mult, uint8_t trigger, uint32_t o2tParams, uint32_t t2oParams, bool keep) {
    Conn k;
    k.p.connectionPath = Bytes{0x20, 0x04, 0x24, (uint8_t)c.size()};
    k.p.originatorVendorId = (uint16_t)(0x1100 + c.size()); k.p.originatorSerialNumber = 0x22330000u + (uint32_t)c.size();
    k.p.transportTypeTrigger = trigger; k.p.connectionTimeoutMultiplier = mult;
    k.p.o2tNetworkConnectionParams = o2tParams; k.p.t2oNetworkConnectionParams = t2oParams;
    k.g.o2t = 0x50 + (uint32_t)c.size(); k.g.t2o = t2o; k.g.serial = (uint16_t)(0x700 + c.size()); k.g.vendor = (uint16_t)(0x3300 + c.size()); k.g.orig = 0x44550000u + (uint32_t)c.size();   // a reply is no source for what is the caller's
    k.g.o2tApi = o2tApi; k.g.t2oApi = t2oApi;
    r->grant = k.g; r->status = 0;
    k.w = m.forwardOpen(si, k.p);
    k.open = true; k.last = n.clock; k.timeout = (int64_t)t2oApi * ((int64_t)4 << mult) * 1000; k.closes = k.received = k.sends = 0;
    CHECK(!k.w.expired(), "opened");
    if (keep) k.keep = k.w.lock();
    c.push_back(k);
    return c.back();
  }
  void close(Conn &k, uint8_t status) {
    r->calls.clear();
    r->grant = k.g; r->status = status;
    bool was = k.open;
    k.open = false;
    m.forwardClose(si, k.keep ? IOConnection::WPtr(k.keep) : k.w);
    r->status = 0;
    if (!was) { CHECK(r->calls.empty(), "closing a closed connection sends nothing"); return; }
    CHECK(r->calls.size() == 1, "one close request");
    CHECK(r->calls[0].service == 0x4E, "close service");
    checkBytes(r->calls[0].path, pathImage(2, 6, 1, 0, false), "to the connection manager object");
    checkBytes(r->calls[0].data, closeImage(k.g.serial, k.p.originatorVendorId, k.p.originatorSerialNumber, k.p.connectionPath), "this connection's serial number, vendor, originator and path");
  }
  void tick(int64_t ns) {
    n.clock += ns;
    m.handleConnections(milliseconds(0));
    for (auto &k : c) if (k.open && n.clock - k.last > k.timeout) k.open = false;
  }
  void check() {
    bool any = false;
    for (auto &k : c) {
      any |= k.open;
      if (k.open) CHECK(!k.w.expired(), "an open connection stays open");
      else if (!k.keep) CHECK(k.w.expired(), "a closed connection is released");
    }
    CHECK(m.hasOpenConnections() == any, "open connections are reported exactly");
  }
};
// args: steps, user keeps references
extern "C" void h_C17() {
  World w;
  bool keep = sym_arg(1);
  for (unsigned s = 0; s < sym_arg(0); ++s) {
    unsigned what = sym_choice(6, "step");
    if (what <= 1) {
      uint32_t id = sym_u32("t2o");
      for (auto &k : w.c) if (k.open) ASSUME(id != k.g.t2o);
      w.open(id, 0xffffffff, what ? 1000 : 0xffffffff, 0, 0, 0, 0, keep);
      sym_reach("open");
    } else if (what == 2) {
      w.r->status = sym_u8("status"); ASSUME(w.r->status != 0);
      auto x = w.m.forwardOpen(w.si, ConnectionParameters());
      w.r->status = 0;
      CHECK(x.expired(), "a refused open gives an empty reference");
      sym_reach("open refused");
    } else if (what == 3) {
      if (w.c.empty()) sym_kill();
      Conn &k = w.c[sym_choice((unsigned)w.c.size(), "which")];
      uint8_t st = sym_choice(2, "peerRefuses") ? sym_u8("status") : 0;
      sym_reach(k.open ? st ? "close refused by the peer" : "close" : "close again");
      w.close(k, st);
    } else w.tick(what == 4 ? 1000000 : 10000000000LL);
    w.check();
  }
  if (!w.c.empty() && !w.c[0].open && w.m.hasOpenConnections()) sym_reach("closed next to an open one");
}
// A listener of one connection closes another one (or its own) while they are handled.
// args: listener 0 send, 1 receive, 2 close ; connection with the listener ; connection it closes ; connections ; user keeps references
extern "C" void h_C17_reenter() {
  World w;
  unsigned which = (unsigned)sym_arg(0), a = (unsigned)sym_arg(1), b = (unsigned)sym_arg(2), cnt = (unsigned)sym_arg(3);
  bool keep = sym_arg(4), thirdTimesOut = sym_choice(2, "othersTimeOut");
  for (unsigned i = 0; i < cnt; ++i) {
    uint32_t id = sym_u32("t2o");
    for (auto &k : w.c) ASSUME(id != k.g.t2o);
    bool shortLife = which == 2 ? (i == a || (i != b && thirdTimesOut)) : false;
    w.open(id, 5000, shortLife ? 1000 : 0xffffffff, 0, 0, 0x200, 0x200, keep);
  }
  bool done = false;
  auto act = [&] { if (done) return; done = true; w.close(w.c[b], 0); };
  auto io = w.c[a].w.lock();
  std::vector<int> closes(cnt), sends(cnt), recvs(cnt);
  for (unsigned i = 0; i < cnt; ++i) {
    auto x = w.c[i].w.lock();
    x->setCloseListener([&, i] { closes[i]++; if (which == 2 && i == a) act(); });
    x->setSendDataListener([&, i](std::vector<uint8_t> &) { sends[i]++; if (which == 0 && i == a) act(); });
    x->setReceiveDataListener([&, i](cip::CipUdint, cip::CipUint, const std::vector<uint8_t> &) { recvs[i]++; if (which == 1 && i == a) act(); });
  }
  io.reset();
  if (which == 1) { w.n.arrive(ioDatagram(w.c[a].g.t2o, 1, Bytes{1, 2})); w.n.arrive(ioDatagram(w.c[b].g.t2o, 2, Bytes{3})); }
  bool bFirst = false; (void)bFirst;
  w.tick(6000000);
  CHECK(done, "the listener was called");
  for (unsigned i = 0; i < cnt; ++i) if (which == 2 && i == a) w.c[i].open = false;
  w.check();
  for (unsigned i = 0; i < cnt; ++i) if (i != b && !(which == 2 && (i == a || thirdTimesOut))) CHECK(closes[i] == 0 && sends[i] == 1, "the others are handled as usual");
  size_t sentBefore = w.n.sent.size(); int bs = sends[b], br = recvs[b];
  w.n.arrive(ioDatagram(w.c[b].g.t2o, 3, Bytes{3}));
  w.tick(6000000);
  CHECK(sends[b] == bs && recvs[b] == br, "nothing happens on a closed connection");
  (void)sentBefore;
  w.check();
  sym_reach("listener closes");
}

// Connections to two devices, one of which cannot be opened or closed at first.
// args: why the first attempt fails (0 it does not, 1 session, 2 socket, 3 receiving socket, 4 bind, 5 option), second device (1: the same), attempts that fail
extern "C" void h_C17_hosts() {
  World w;
  unsigned why = (unsigned)sym_arg(0);
  static const char *const hosts[3] = {"10.0.0.2", "10.0.0.1", "1.0.0.1"};
  auto second = std::make_shared<NoSession>(hosts[sym_arg(1)]);
  uint32_t id[2] = {sym_u32("t2o"), sym_u32("t2o")};
  ASSUME(id[0] != id[1]);
  int got[2] = {0, 0}, closes[2] = {0, 0};
  auto listen = [&](unsigned i) {
    auto io = w.c[i].w.lock();
    io->setReceiveDataListener([&got, i](cip::CipUdint, cip::CipUint, const std::vector<uint8_t> &d) { got[i]++; CHECK(d.size() == 2 + i, "its own data"); });
    io->setCloseListener([&closes, i] { closes[i]++; });
  };
  w.open(id[0], 0xffffffff, 0xffffffff, 0, 0, 0, 0x200, false);
  listen(0);
  size_t sentBefore = w.n.sent.size();
  if (why) for (unsigned k = 0; k < sym_arg(2); ++k) {
    IOConnection::WPtr x;
    Grant g; g.o2t = 0x51; g.t2o = id[1]; g.serial = 0x701; g.vendor = 1; g.orig = 2; g.o2tApi = 1000; g.t2oApi = sym_choice(2, "long") ? 0xffffffff : 1000;
    w.r->grant = g; w.r->lost = why == 1;
    w.n.failing = why == 2 || why == 3 ? "socket" : why == 4 ? "bind" : why == 5 ? "setsockopt" : nullptr;
    w.n.failAfter = why == 3 ? 1 : 0;
    ConnectionParameters p;
    run([&] { x = w.m.forwardOpen(second, p); });
    w.r->lost = false;
    bool happened = why == 1 || !w.n.failing;        // a device that is already known needs no new receiving socket
    w.n.failing = nullptr;
    if (!happened) sym_kill();
    CHECK(x.expired(), "an open that fails gives no connection");
    sym_reach("open fails");
    w.check();
    w.tick(5000000);
    CHECK(w.n.sent.size() == sentBefore && closes[0] == 0, "nothing is sent for it");
  }
  std::swap(w.si, second);
  w.open(id[1], 0xffffffff, 0xffffffff, 0, 0, 0, 0x200, false);
  std::swap(w.si, second);
  listen(1);
  w.check();
  unsigned nb = (unsigned)w.n.bounds().size();
  CHECK(nb > 0, "receives on port 2222");
  // data for both, on any of the receiving sockets
  unsigned where = sym_choice(nb * nb, "where");
  w.n.arrive(ioDatagram(id[0], 1, Bytes{1, 2}), where % nb);
  w.n.arrive(ioDatagram(id[1], 1, Bytes{1, 2, 3}), where / nb);
  w.tick(1000000); w.tick(1000000);
  CHECK(got[0] == 1 && got[1] == 1 && w.n.inPos == 2, "each gets its own data");
  w.check();
  // the close request cannot be sent at first
  unsigned victim = sym_choice(2, "victim");
  if (sym_choice(2, "closeFails")) {
    w.r->lost = true; w.r->calls.clear();
    run([&] { w.m.forwardClose(w.si, w.c[victim].w); });
    w.r->lost = false;
    CHECK(w.r->calls.size() == 1, "one close request");
    CHECK(!w.c[1 - victim].w.expired() && w.m.hasOpenConnections(), "the other connection stays open");
    if (w.c[victim].w.expired()) w.c[victim].open = false;
    sym_reach("close fails");
  }
  w.close(w.c[victim], 0);
  w.check();
  w.n.arrive(ioDatagram(id[0], 2, Bytes{1, 2}), where % nb);
  w.n.arrive(ioDatagram(id[1], 2, Bytes{1, 2, 3}), where / nb);
  w.tick(1000000); w.tick(1000000);
  CHECK(got[victim] == 1 && got[1 - victim] == 2, "only the open one gets data");
  w.close(w.c[1 - victim], 0);
  w.check();
  CHECK(!w.n.badUse, "no closed socket is used");
  sym_reach("two devices");
}

// ---- C18 ----
// args: class index, t2o header, fixed, datagram length, user size
extern "C" void h_C18() {
  World w;
  uint8_t trig = (uint8_t)((sym_u8("trigger") & 0xf0) | kClass[sym_arg(0)]);
  bool hdr = sym_arg(1), fixed = sym_arg(2);
  unsigned size = (unsigned)sym_arg(4);
  uint32_t id[2] = {sym_u32("t2o"), sym_u32("t2o2")};
  ASSUME(id[0] != id[1]);
  struct Got { int n; uint32_t header; uint16_t seq; Bytes data; } got[2];
  for (int i = 0; i < 2; ++i) {
    got[i].n = 0;
    Conn k;
    ConnectionParameters p;
    p.transportTypeTrigger = i ? 0 : trig; p.t2oRealTimeFormat = i ? 0 : hdr;
    p.t2oNetworkConnectionParams = i ? 0x200 : (fixed ? 0 : 0x200) | size;
    Grant g; g.o2t = 1; g.t2o = id[i]; g.serial = 1; g.vendor = 0; g.orig = 0; g.o2tApi = g.t2oApi = 0xffffffff;
    w.r->grant = g;
    auto x = w.m.forwardOpen(w.si, p).lock();
    CHECK(!!x, "opened");
    auto *gp = &got[i];
    x->setReceiveDataListener([gp](cip::CipUdint h, cip::CipUint s, const std::vector<uint8_t> &d) { gp->n++; gp->header = h; gp->seq = s; gp->data = d; });
    x->setCloseListener([] { sym_fail("closed"); });
  }
  Bytes d = sym_vec((unsigned)sym_arg(3), "datagram");
  RefCommon rc = refCommon(d);
  w.n.arrive(d);
  // and a regular one for the other connection in the same step
  Bytes second = sym_vec(2, "second");
  w.n.arrive(ioDatagram(id[1], 9, second));
  Outcome o = run([&] { w.m.handleConnections(milliseconds(5)); });
  sym_observe("outcome", o);
  CHECK(o == RETURNED, "nothing escapes from handling the connections");
  CHECK(w.n.inPos == 2, "both datagrams are taken");
  unsigned head = (sym_arg(0) ? 2 : 0) + (hdr ? 4 : 0);
  bool to0 = false, to1 = false, must = true;
  if (rc.ok && rc.items.size() >= 2 && rc.items[0].data.size() >= 4) {
    uint64_t a = rd(rc.items[0].data.data(), 4);
    to0 = sym_fork(a == id[0]); to1 = !to0 && sym_fork(a == id[1]);
    bool seqd = sym_fork(rc.items[0].type == 0x8002) && rc.items[0].data.size() == 8;
    bool plain = !seqd && sym_fork(rc.items[0].type == 0x00A1) && rc.items[0].data.size() == 4;
    must = (seqd || plain) && rc.items.size() == 2 && sym_fork(rc.items[1].type == 0x00B1);   // other item types may be dropped
    const Bytes &pl = rc.items[1].data;
    if (to0) {
      bool fits = pl.size() >= head && (!fixed || pl.size() - head == size);
      if (!fits) to0 = false;
      else if (must || got[0].n) {
        CHECK(got[0].n == 1, "delivered once");
        unsigned at = 0;
        if (sym_arg(0)) { CHECK(got[0].seq == rd(&pl[0], 2), "sequence count"); at = 2; }
        if (hdr) { CHECK(got[0].header == rd(&pl[at], 4), "run/idle header"); at += 4; }
        checkBytes(got[0].data, Bytes(pl.begin() + head, pl.end()), "payload");
        sym_reach("delivered");
      }
    }
  }
  if (!to0) { CHECK(got[0].n == 0, "dropped, or it is for another connection"); sym_reach("not for it"); }
  CHECK(got[1].n == 1 || (to1 && got[1].n == 2) , "the other connection gets its own data");
  if (to1 && must) { CHECK(got[1].n == 2, "delivered to the other one"); sym_reach("delivered to the other one"); }
  checkBytes(got[1].data, second, "the other connection's data is intact");
  CHECK(w.m.hasOpenConnections(), "still open");
  if (!rc.ok) sym_reach("malformed");
}

// Well-formed datagrams in a row for the same connection, whatever their sequence numbers, between datagrams for another one.
// args: class index, t2o header, fixed, user size, payload of the first, of the second, of the third (beyond 9000: none), handled in (0 one step, 1 separate steps)
extern "C" void h_C18_row() {
  World w;
  uint8_t cls = kClass[sym_arg(0)]; bool hdr = sym_arg(1), fixed = sym_arg(2);
  unsigned size = (unsigned)sym_arg(3), head = (cls ? 2 : 0) + (hdr ? 4 : 0);
  uint32_t id[2] = {sym_u32("t2o"), sym_u32("t2o2")};
  ASSUME(id[0] != id[1]);
  struct Got { uint32_t header; uint16_t seq; Bytes data; };
  std::vector<Got> got[2], want[2];
  unsigned listenerCalls = 0;
  IOConnection::SPtr io[2];
  for (int i = 0; i < 2; ++i) {
    ConnectionParameters p;
    p.transportTypeTrigger = (uint8_t)((sym_u8("trigger") & 0xf0) | cls); p.t2oRealTimeFormat = hdr;
    p.t2oNetworkConnectionParams = (fixed ? 0 : 0x200) | (size & 0x1ff);
    Grant g; g.o2t = 1; g.t2o = id[i]; g.serial = 1; g.vendor = 0; g.orig = 0; g.o2tApi = g.t2oApi = 0xffffffff;
    w.r->grant = g;
    io[i] = w.m.forwardOpen(w.si, p).lock();
    CHECK(!!io[i], "opened");
    auto *gp = &got[i];
    io[i]->setReceiveDataListener([gp, &listenerCalls](cip::CipUdint h, cip::CipUint s, const std::vector<uint8_t> &d) { listenerCalls++; gp->push_back(Got{h, s, d}); });
    io[i]->setCloseListener([] { sym_fail("closed"); });
  }
  bool steps = sym_arg(7); unsigned other = sym_choice(3, "forTheOther");     // none, the second, all but the first
  unsigned count = 0;
  for (int k = 0; k < 3; ++k) {
    if (sym_arg(4 + k) > 9000) break;
    Bytes pl = big_vec((unsigned)sym_arg(4 + k), "payload");
    int to = k && (other == 2 || (other == 1 && k == 1)) ? 1 : 0;
    uint32_t enc = sym_u32("encapsulationSequence");
    w.n.arrive(ioDatagram(id[to], enc, pl));
    count++;
    bool fits = pl.size() >= head && (!fixed || pl.size() - head == size);
    if (fits) {
      Got g; unsigned at = 0;
      g.seq = cls ? (uint16_t)rd(&pl[0], 2) : 0; at += cls ? 2 : 0;
      g.header = hdr ? (uint32_t)rd(&pl[at], 4) : 0;
      g.data.assign(pl.begin() + head, pl.end());
      want[to].push_back(g);
    }
    if (steps) { w.n.clock += 1000000; w.m.handleConnections(milliseconds(5)); CHECK(w.n.inPos == w.n.in.size(), "taken"); }
  }
  w.m.handleConnections(milliseconds(5));
  CHECK(w.n.inPos == count, "every datagram is taken");
  for (int i = 0; i < 2; ++i) {
    CHECK(got[i].size() == want[i].size(), "each datagram that fits is delivered exactly once");
    for (size_t k = 0; k < got[i].size() && k < want[i].size(); ++k) {
      if (cls) CHECK(got[i][k].seq == want[i][k].seq, "sequence count");
      if (hdr) CHECK(got[i][k].header == want[i][k].header, "run/idle header");
      checkBytes(got[i][k].data, want[i][k].data, "payload, in order of arrival");
    }
  }
  sym_observe("calls", listenerCalls);
  sym_reach("in a row");
}

// ---- C19 ----
// args: class index, o2t header, fixed, size of the data set, steps
extern "C" void h_C19() {
  World w;
  uint8_t cls = kClass[sym_arg(0)]; bool hdr = sym_arg(1), fixed = sym_arg(2);
  const unsigned size = 3;
  uint32_t api = sym_u32("api"), o2t = sym_u32("o2t");
  w.n.clock = (int64_t)sym_u32("start") * 1000;
  ConnectionParameters p;
  p.transportTypeTrigger = (uint8_t)((sym_u8("trigger") & 0xf0) | cls);
  p.o2tRealTimeFormat = hdr; p.connectionTimeoutMultiplier = 7;
  p.o2tNetworkConnectionParams = (fixed ? 0 : 0x200) | size;
  Grant g; g.o2t = o2t; g.t2o = 77; g.serial = 1; g.vendor = 0; g.orig = 0; g.o2tApi = api; g.t2oApi = 0xffffffff;
  w.r->grant = g;
  auto io = w.m.forwardOpen(w.si, p).lock();
  CHECK(!!io, "opened");
  Bytes out = sym_vec((unsigned)sym_arg(3), "data");
  io->setDataToSend(out);
  int calls = 0; unsigned edit = sym_choice(3, "listener");
  Bytes fresh = sym_vec(size, "fresh");
  io->setSendDataListener([&](std::vector<uint8_t> &d) {
    calls++;
    if (edit == 1) { d = fresh; }                    // replaced just before it is sent
    if (edit == 2) { io->setDataToSend(fresh); }
  });
  io->setCloseListener([] { sym_fail("closed"); });
  int64_t acc = 0;                                   // us since the last production
  bool gap = true; uint32_t lastSeq = 0; uint16_t lastCount = 0;
  for (unsigned s = 0; s < sym_arg(4); ++s) {
    if (edit == 0 && s && sym_choice(2, "newData")) { out = sym_vec(sym_choice(2, "rightSize") ? size : 2, "data"); io->setDataToSend(out); }
    uint32_t us = sym_u32("elapsed");
    w.n.clock += (int64_t)us * 1000;
    w.n.sendFails = edit == 0 && sym_choice(2, "sendFails");
    size_t before = w.n.sent.size(); int cb = calls;
    Outcome o = run([&] { w.m.handleConnections(milliseconds(0)); });
    CHECK(o == RETURNED, "handling returns");
    if (edit) out = calls ? fresh : out;
    acc += us;
    bool due = sym_fork(acc >= (int64_t)api);
    if (!due) { CHECK(w.n.sent.size() == before && calls == cb, "nothing is sent before the interval is over"); sym_reach("not due"); continue; }
    acc = 0;
    CHECK(calls == cb + 1, "the send listener is called once per production");
    if (fixed && out.size() != size) { CHECK(w.n.sent.size() == before, "data of the wrong size is not sent"); gap = true; sym_reach("wrong size"); continue; }
    CHECK(w.n.sent.size() == before + 1, "exactly one datagram");
    const Bytes &d = w.n.sent.back().data;
    unsigned head = (cls ? 2 : 0) + (hdr ? 4 : 0);
    CHECK(d.size() == 2 + 12 + 4 + head + out.size(), "size of the datagram");
    uint32_t seq = (uint32_t)rd(&d[10], 4); uint16_t count = cls ? (uint16_t)rd(&d[18], 2) : 0;
    Bytes pl; if (cls) le(pl, count, 2); if (hdr) le(pl, 1, 4); cat(pl, out);
    checkBytes(d, ioDatagram(o2t, seq, pl), "address item with the granted id, data item with header and the user's data");
    if (!gap) { CHECK(seq == lastSeq + 1, "the sequence number grows by one"); if (cls) CHECK(count == (uint16_t)(lastCount + 1), "the sequence count grows by one"); sym_reach("next one"); }
    lastSeq = seq; lastCount = count; gap = w.n.sendFails;
    sym_observe("size", d.size());
    sym_reach("sent");
  }
}

// Two connections with their own intervals side by side; the second may be closed on the way.
// args: class and header of the first (class index + 3 * header), of the second, sizes of their data, steps
extern "C" void h_C19_two() {
  World w;
  w.n.clock = (int64_t)sym_u32("start") * 1000;
  struct Side { uint8_t cls; bool hdr; uint32_t api, id; Bytes out; IOConnection::SPtr io; int calls; int64_t acc; bool first; uint32_t seq; uint16_t count; } v[2];
  for (unsigned i = 0; i < 2; ++i) {
    Side &x = v[i];
    x.cls = kClass[sym_arg(i) % 3]; x.hdr = sym_arg(i) >= 3; x.api = sym_u32("api"); x.id = sym_u32("id");
    x.calls = 0; x.acc = 0; x.first = true; x.seq = 0; x.count = 0;
    ConnectionParameters p;
    p.transportTypeTrigger = x.cls; p.o2tRealTimeFormat = x.hdr; p.connectionTimeoutMultiplier = 7;
    p.o2tNetworkConnectionParams = (uint32_t)(i ? 0x200 : 0) | (uint32_t)(sym_arg(2 + i) & 0x1ff);
    Grant g; g.o2t = x.id; g.t2o = 77 + i; g.serial = (uint16_t)i; g.vendor = 0; g.orig = 0; g.o2tApi = x.api; g.t2oApi = 0xffffffff;
    w.r->grant = g;
    x.io = w.m.forwardOpen(w.si, p).lock();
    CHECK(!!x.io, "opened");
    x.out = big_vec((unsigned)sym_arg(2 + i), "data");
    x.io->setDataToSend(x.out);
    Side *xp = &x;
    x.io->setSendDataListener([xp](std::vector<uint8_t> &) { xp->calls++; });
    x.io->setCloseListener([] { sym_fail("closed"); });
  }
  ASSUME(v[0].id != v[1].id);
  bool closed = false;
  for (unsigned s = 0; s < sym_arg(4); ++s) {
    if (s && !closed && sym_choice(2, "closeTheOther")) {
      w.r->grant.serial = 1; w.m.forwardClose(w.si, v[1].io); closed = true;
    }
    uint32_t us = sym_u32("elapsed");
    w.n.clock += (int64_t)us * 1000;
    w.n.sent.clear(); v[0].calls = v[1].calls = 0;
    w.m.handleConnections(milliseconds(0));
    size_t expected = 0, taken = 0;
    for (unsigned i = 0; i < 2; ++i) {
      Side &x = v[i];
      x.acc += us;
      bool due = !(i && closed) && sym_fork(x.acc >= (int64_t)x.api);
      CHECK(x.calls == (due ? 1 : 0), "its listener is called exactly when its own interval is over");
      if (!due) continue;
      x.acc = 0; expected++;
      const Bytes *d = nullptr;
      for (auto &g : w.n.sent) if (g.data.size() >= 14 && sym_fork(rd(&g.data[6], 4) == x.id)) { CHECK(!d, "one datagram each"); d = &g.data; }
      CHECK(d != nullptr, "sent");
      if (!d) return;
      taken++;
      unsigned head = (x.cls ? 2 : 0) + (x.hdr ? 4 : 0);
      CHECK(d->size() == 18 + head + x.out.size(), "size of the datagram");
      uint32_t seq = (uint32_t)rd(&(*d)[10], 4); uint16_t count = x.cls ? (uint16_t)rd(&(*d)[18], 2) : 0;
      Bytes pl; if (x.cls) le(pl, count, 2); if (x.hdr) le(pl, 1, 4); cat(pl, x.out);
      checkBytes(*d, ioDatagram(x.id, seq, pl), "its own id and data");
      if (!x.first) { CHECK(seq == x.seq + 1, "its own sequence number grows by one"); if (x.cls) CHECK(count == (uint16_t)(x.count + 1), "its own sequence count grows by one"); }
      x.first = false; x.seq = seq; x.count = count;
    }
    CHECK(w.n.sent.size() == expected, "nothing else is sent");
  }
  sym_reach("side by side");
}

// The counters wrap around without disturbing anything.   arg: steps
extern "C" void h_C19_wrap() {
  World w;
  ConnectionParameters p;
  p.transportTypeTrigger = 1; p.connectionTimeoutMultiplier = 7; p.o2tNetworkConnectionParams = 1;
  Grant g; g.o2t = 9; g.t2o = 77; g.serial = 1; g.vendor = 0; g.orig = 0; g.o2tApi = 0; g.t2oApi = 0xffffffff;
  w.r->grant = g;
  auto io = w.m.forwardOpen(w.si, p).lock();
  CHECK(!!io, "opened");
  uint8_t v = sym_u8("value");
  io->setDataToSend(Bytes{v});
  uint32_t seq = 0; uint16_t count = 0;
  for (unsigned s = 0; s < sym_arg(0); ++s) {
    w.n.sent.clear();
    w.m.handleConnections(milliseconds(0));
    if (w.n.sent.size() != 1 || w.n.sent[0].data.size() != 21) sym_fail("one datagram per step");
    const Bytes &d = w.n.sent[0].data;
    uint32_t q = (uint32_t)rd(&d[10], 4); uint16_t c = (uint16_t)rd(&d[18], 2);
    if (s && (q != seq + 1 || c != (uint16_t)(count + 1))) sym_fail("running sequence numbers");
    seq = q; count = c;
    CHECK(d[20] == v, "data");
  }
  sym_reach("wrapped");
}

// ---- C20 ----
// args: timeout multiplier, steps, fixed size
extern "C" void h_C20() {
  World w;
  unsigned mult = (unsigned)sym_arg(0);
  uint32_t api = sym_u32("api");
  w.n.clock = (int64_t)sym_u32("start") * 1000;
  Conn &bystander = w.open(5, 0xffffffff, 0xffffffff, 7, 0, 0x200, 0x200, false);
  bystander.w.lock()->setCloseListener([] { sym_fail("the other connection is closed"); });
  uint32_t id = 0x10005;
  Conn &k = w.open(id, 0, api, (uint8_t)mult, 0, 0x200, 2, false);
  int closes = 0, recvs = 0, sends = 0;
  {
    auto io = k.w.lock();
    io->setCloseListener([&] { closes++; });
    io->setReceiveDataListener([&](cip::CipUdint, cip::CipUint, const std::vector<uint8_t> &) { recvs++; });
    io->setSendDataListener([&](std::vector<uint8_t> &) { sends++; });
  }
  uint64_t limit = (uint64_t)api * (4u << mult), silent = 0;          // us
  bool open = true;
  for (unsigned s = 0; s < sym_arg(1); ++s) {
    uint64_t us = sym_u32("elapsed");
    if (sym_choice(2, "long")) us *= 128;
    w.n.clock += (int64_t)us * 1000;
    silent += us;
    unsigned data = sym_choice(3, "data");            // 0 nothing, 1 accepted data, 2 refused data
    if (data) w.n.arrive(ioDatagram(id, s, sym_vec(data == 1 ? 2 : 3, "payload")));
    int rb = recvs, sb = sends;
    w.m.handleConnections(milliseconds(0));
    if (!open) { CHECK(closes == 1 && recvs == rb && sends == sb, "nothing happens on a closed connection"); sym_reach("stays closed"); continue; }
    if (data == 1) { CHECK(recvs == rb + 1, "delivered"); silent = 0; }
    else CHECK(recvs == rb, "nothing delivered");
    bool over = sym_fork(silent > limit);
    CHECK(closes == (over ? 1 : 0), over ? "closed once when silent for longer than the timeout" : "not closed before");
    CHECK(k.w.expired() == over, "and released");
    if (over) open = false;
    CHECK(w.m.hasOpenConnections() && !w.c[0].w.expired(), "other connections stay open");
    sym_reach(over ? "timed out" : data == 1 ? "kept alive" : "still open");
  }
}

// Two connections with their own timeouts: data for one does not keep the other alive.   args: multipliers, steps
extern "C" void h_C20_two() {
  World w;
  w.n.clock = (int64_t)sym_u32("start") * 1000;
  struct Side { uint32_t id, api; uint64_t limit, silent; bool open; int closes, recvs; } v[2];
  ConnectionManager &m = w.m;
  for (unsigned i = 0; i < 2; ++i) {
    Side &x = v[i];
    x.id = sym_u32("t2o"); x.api = sym_u32("api"); x.silent = 0; x.open = true; x.closes = x.recvs = 0;
    if (i) ASSUME(x.id != v[0].id);
    unsigned mult = (unsigned)sym_arg(i);
    x.limit = (uint64_t)x.api * (4u << mult);
    Conn &k = w.open(x.id, 0xffffffff, x.api, (uint8_t)mult, 0, 0x200, 2, false);
    auto io = k.w.lock();
    Side *xp = &x;
    io->setCloseListener([xp] { xp->closes++; });
    io->setReceiveDataListener([xp](cip::CipUdint, cip::CipUint, const std::vector<uint8_t> &) { xp->recvs++; });
  }
  for (unsigned s = 0; s < sym_arg(2); ++s) {
    uint64_t us = sym_u32("elapsed");
    w.n.clock += (int64_t)us * 1000;
    unsigned to = sym_choice(4, "data");              // 0 none, 1 first, 2 second, 3 both
    for (unsigned i = 0; i < 2; ++i) { v[i].silent += us; if (to >> i & 1) w.n.arrive(ioDatagram(v[i].id, s, sym_vec(2, "payload"))); }
    int rb[2] = {v[0].recvs, v[1].recvs};
    m.handleConnections(milliseconds(5));
    for (unsigned i = 0; i < 2; ++i) {
      Side &x = v[i];
      bool arrived = x.open && (to >> i & 1);
      CHECK(x.recvs == rb[i] + (arrived ? 1 : 0), "its own data only, and only while open");
      if (arrived) x.silent = 0;
      if (x.open && sym_fork(x.silent > x.limit)) x.open = false;
      CHECK(x.closes == (x.open ? 0 : 1), "closed exactly once, by its own timeout");
      CHECK(w.c[i].w.expired() == !x.open, "and released");
    }
    CHECK(m.hasOpenConnections() == (v[0].open || v[1].open), "reported");
  }
  sym_reach("two timeouts");
}
