// C21 discovery, C22 file upload.
#include "mock.h"
#include "env.h"
#include <arpa/inet.h>
#include <cstring>
#include "DiscoveryManager.h"
#include "FileObject.h"
using namespace eipScanner;

// ---- C21 ----
struct DiscNet : Net {
  std::vector<Bytes> in; size_t next = 0;
  int endErr = EAGAIN;                  // after the last datagram
  const char *failing = "";
  int sendMode = 0;
  int sends = 0; Bytes out; sockaddr_in to; bool sentBcast = false; size_t minAsked = 100000;
  int fail(const char *call, int) override { return strcmp(call, failing) ? 0 : EACCES; }
  long sendto(int fd, const uint8_t *p, size_t n, int, const sockaddr_in *t) override {
    sends++; out.assign(p, p + n); to = *t;
    FdInfo *f = get(fd);
    sentBcast = f && f->bcast && f->rcvTimeoSet;
    if (sendMode == 1) { errno = ENETUNREACH; return -1; }
    if (sendMode == 2) return (long)n - 1;
    return (long)n;
  }
  long recvfrom(int, uint8_t *p, size_t n, int, sockaddr_in *) override {
    if (n < minAsked) minAsked = n;
    if (next >= in.size()) { errno = endErr; return -1; }
    const Bytes &d = in[next++];
    size_t k = n < d.size() ? n : d.size();
    if (k) memcpy(p, d.data(), k);
    return (long)k;
  }
  long recv(int fd, uint8_t *p, size_t n, int) override { return recvfrom(fd, p, n, 0, nullptr); }
};
struct Want { uint32_t addr; uint16_t port, vendor, type, code, status; uint8_t maj, min; uint32_t serial; Bytes name; };
static uint64_t be(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = (v << 8) | p[i]; return v; }
// what one datagram contributes
static void refDatagram(const Bytes &d, std::vector<Want> &w) {
  if (d.size() < 24) return;
  RefCommon c = refCommon(Bytes(d.begin() + 24, d.end()));
  if (!c.ok) return;
  for (auto &it : c.items) {
    if (!sym_fork(it.type == 0x0c)) continue;
    const Bytes &b = it.data;
    if (b.size() < 33) continue;
    unsigned len = refLen(b[32], b.size() - 33);
    if (len > b.size() - 33) continue;
    Want x;
    x.port = (uint16_t)be(&b[4], 2); x.addr = (uint32_t)be(&b[6], 4);
    x.vendor = (uint16_t)rd(&b[18], 2); x.type = (uint16_t)rd(&b[20], 2); x.code = (uint16_t)rd(&b[22], 2);
    x.maj = b[24]; x.min = b[25]; x.status = (uint16_t)rd(&b[26], 2); x.serial = (uint32_t)rd(&b[28], 4);
    x.name.assign(b.begin() + 33, b.begin() + 33 + len);
    w.push_back(x);
  }
}
static Bytes header(size_t n) { Bytes h; le(h, 0x63, 2); le(h, n, 2); cat(h, sym_vec(4, "session")); le(h, 0, 4); cat(h, sym_vec(8, "context")); le(h, 0, 4); return h; }
static Bytes fixedAnswer() {
  Bytes p; le(p, 1, 2);
  for (uint8_t b : {0, 2, 0xaf, 0x12, 10, 1, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0}) p.push_back(b);
  le(p, 0x1234, 2); le(p, 0x2345, 2); le(p, 0x3456, 2); p.push_back(4); p.push_back(5); le(p, 0x4567, 2); le(p, 0x87654321u, 4);
  p.push_back(3); p.push_back('a'); p.push_back('b'); p.push_back('c'); p.push_back(3);
  Bytes c; le(c, 1, 2); commonItem(c, 0x0c, p);
  Bytes h; le(h, 0x63, 2); le(h, c.size(), 2); le(h, 0, 4); le(h, 0, 4); le(h, 0, 8); le(h, 0, 4); cat(h, c);
  return h;
}
// kind * 100000 + a * 1000 + b
static Bytes datagram(unsigned code) {
  unsigned kind = code / 100000, a = code / 1000 % 100, b = code % 1000;
  if (kind == 0) return sym_vec(b, "raw");             // b arbitrary bytes, possibly shorter than a header
  if (kind == 9) return fixedAnswer();
  Bytes c;
  if (kind == 1) c = sym_vec(b, "common");             // header + b arbitrary bytes
  else if (kind == 2) { le(c, 1, 2); commonItem(c, sym_u16("type"), sym_vec(b, "item")); }
  else if (kind == 3) { le(c, 2, 2); commonItem(c, sym_u16("type"), sym_vec(a, "item")); commonItem(c, sym_u16("type2"), sym_vec(b, "item2")); }
  else if (kind == 4) { le(c, 1 + a, 2); commonItem(c, 0x0c, sym_vec(b, "item")); }     // a items too few
  else if (kind == 5) { le(c, 1, 2); commonItem(c, 0x0c, sym_vec(b, "item")); cat(c, sym_vec(a, "trailing")); }
  else if (kind == 6) {                                 // a items, every third of any type, the last one of b bytes
    le(c, a, 2);
    for (unsigned i = 0; i < a; ++i) {
      bool id = i % 3 != 1;
      Bytes it = sym_vec(i + 1 == a ? b : id ? 34 : 5, "item");
      if (id) it[32] = (uint8_t)(it.size() - 33);
      commonItem(c, id ? 0x0c : sym_u16("type"), it);
    }
  }
  Bytes h = header(c.size());
  cat(h, c);
  return h;
}
static void checkDevices(const std::vector<Want> &w, const IdentityItem::Vec &v) {
  CHECK(v.size() == w.size(), "one entry per identity item");
  for (size_t i = 0; i < w.size() && i < v.size(); ++i) {
    const IdentityObject &o = v[i].identityObject;
    const sockets::EndPoint &e = v[i].socketAddress;
    CHECK(ntohl(e.getAddr().sin_addr.s_addr) == w[i].addr && ntohs(e.getAddr().sin_port) == w[i].port && e.getPort() == w[i].port, "address");
    in_addr ia; ia.s_addr = htonl(w[i].addr);
    CHECK(e.getHost() == std::string(inet_ntoa(ia)), "host");
    CHECK(o.getVendorId() == w[i].vendor, "vendor id");
    CHECK(o.getDeviceType() == w[i].type, "device type");
    CHECK(o.getProductCode() == w[i].code, "product code");
    CHECK(o.getRevision().getMajorRevision() == w[i].maj && o.getRevision().getMinorRevision() == w[i].min, "revision");
    CHECK(o.getStatus() == w[i].status, "status");
    CHECK(o.getSerialNumber() == w[i].serial, "serial number");
    std::string n = o.getProductName();
    checkBytes(Bytes(n.begin(), n.end()), w[i].name, "product name");
  }
}
extern "C" void h_C21() {                 // args: number of datagrams, their codes
  DiscNet n; UseNet u(&n);
  unsigned k = (unsigned)sym_arg(0);
  std::vector<Want> want;
  for (unsigned i = 0; i < k; ++i) n.in.push_back(datagram((unsigned)sym_arg(1 + (int)i)));
  for (auto &d : n.in) refDatagram(d, want);
  IdentityItem::Vec v;
  Outcome o = run([&] { DiscoveryManager m("10.255.255.255", 44818, std::chrono::milliseconds(1500)); v = m.discover(); });
  sym_observe("outcome", o);
  CHECK(o == RETURNED, "the timeout ends discovery normally");
  CHECK(n.next == k, "receives until the timeout");
  CHECK(n.minAsked >= 504, "datagrams are received whole");
  checkDevices(want, v);
  CHECK(n.sends == 1, "one request");
  CHECK(n.openCount() == 0 && !n.badUse, "the socket is closed");
  if (want.empty()) sym_reach("no devices"); else sym_reach("devices");
}
// The same manager discovers twice (and another one in between).   args: codes of the datagrams of both rounds, -1 ends a round
extern "C" void h_C21_again() {
  DiscNet n; UseNet u(&n);
  DiscoveryManager m("10.255.255.255", 44818, std::chrono::milliseconds(1500));
  int a = 0;
  for (int round = 0; round < 3; ++round) {
    n.in.clear(); n.next = 0; n.sends = 0; n.out.clear();
    std::vector<Want> want;
    if (round == 1 && sym_choice(2, "another")) { DiscoveryManager other("10.2.255.255", 44818, std::chrono::milliseconds(10)); n.in.push_back(fixedAnswer()); CHECK(other.discover().size() == 1, "another manager"); n.in.clear(); n.next = 0; n.sends = 0; }
    for (; sym_arg(a) != 77; ++a) n.in.push_back(datagram((unsigned)sym_arg(a)));
    a++;
    for (auto &d : n.in) refDatagram(d, want);
    IdentityItem::Vec v;
    Outcome o = run([&] { v = m.discover(); });
    CHECK(o == RETURNED, "the timeout ends discovery normally");
    CHECK(n.next == n.in.size(), "receives until the timeout");
    checkDevices(want, v);
    CHECK(n.sends == 1 && n.openCount() == 0 && !n.badUse, "one request; the socket is closed");
  }
  sym_reach("again");
}
extern "C" void h_C21_request() {         // what is sent, to whom, and how long is waited
  DiscNet n; UseNet u(&n);
  uint32_t a = sym_u32("addr"); int port = sym_u16("port");
  uint32_t ms = sym_u32("timeout");
  ASSUME(a != 0 && ms > 0);
  in_addr ia; ia.s_addr = htonl(a);
  Outcome o = run([&] { DiscoveryManager m(inet_ntoa(ia), port, std::chrono::milliseconds(ms)); m.discover(); });
  CHECK(o == RETURNED, "returns");
  Bytes w; le(w, 0x63, 2); le(w, 0, 8); le(w, 0, 8); le(w, 0, 6);
  checkBytes(n.out, w, "a list-identity request");
  CHECK(n.sends == 1, "sent once");
  CHECK(n.sentBcast, "broadcast and timeout are set up before");
  CHECK(n.to.sin_family == AF_INET && n.to.sin_addr.s_addr == ia.s_addr && n.to.sin_port == htons((uint16_t)port), "to the configured address");
  CHECK(n.fds.size() == 1 && n.fds[0].dgram && n.fds[0].rcvSec == (long)(ms / 1000) && n.fds[0].rcvUsec == (long)(ms % 1000) * 1000, "the receive timeout");
  CHECK(n.openCount() == 0 && !n.badUse, "the socket is closed");
  sym_reach("request");
}
extern "C" void h_C21_error() {           // args: datagrams before the error, what fails
  DiscNet n; UseNet u(&n);
  unsigned k = (unsigned)sym_arg(0), what = (unsigned)sym_arg(1);
  for (unsigned i = 0; i < k; ++i) n.in.push_back(fixedAnswer());
  bool err = true;
  if (what == 0) { uint8_t e = sym_u8("errno"); ASSUME(e >= 1 && e <= 133); n.endErr = e; }
  if (what == 1) n.failing = "socket";
  if (what == 2) n.failing = "setsockopt";
  if (what == 3) n.sendMode = 1;
  if (what == 4) n.sendMode = 2;
  IdentityItem::Vec v;
  Outcome o = run([&] { DiscoveryManager m("10.255.255.255", 44818, std::chrono::milliseconds(1500)); v = m.discover(); });
  sym_observe("outcome", o);
  if (what == 0) err = sym_fork(n.endErr != EAGAIN);
  CHECK(n.openCount() == 0 && !n.badUse, "the socket is closed");
  if (err) { CHECK(o == THREW_SYSTEM, "a socket error is reported"); sym_reach("socket error"); }
  else { CHECK(o == RETURNED && v.size() == k, "the timeout ends discovery"); sym_reach("timeout"); }
}

// ---- C22 ----
// Answers like a device holding a file, with the faults a job asks for.
struct FileDevice : MockRouter {
  uint16_t inst = 0;
  uint8_t state = 2, stateStatus = 0; Bytes stateData; bool rawState = false;
  uint32_t fileSize = 0; uint8_t transferSize = 0; uint8_t initStatus = 0; int initCut = -1;
  std::vector<Bytes> transfers; std::vector<uint8_t> transferStatus;
  mutable size_t next = 0;
  mutable int others = 0;
  Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &) const override {
    if (c.service == 0x0e) {
      checkBytes(c.path, pathImage(3, 0x37, inst, 1, false), "the state attribute is read");
      CHECK(c.data.empty(), "no request data");
      return mrReply(c.service, stateStatus, rawState ? stateData : Bytes(1, state));
    }
    if (c.service == 0x4b) {
      checkBytes(c.path, pathImage(2, 0x37, inst, 0, false), "upload is initiated at the instance");
      checkBytes(c.data, Bytes(1, 255), "largest transfer");
      Bytes d; le(d, fileSize, 4); d.push_back(transferSize);
      if (initCut >= 0) d.resize((size_t)initCut);
      return mrReply(c.service, initStatus, initStatus ? Bytes() : d);
    }
    if (c.service == 0x4f) {
      checkBytes(c.path, pathImage(2, 0x37, inst, 0, false), "transfer at the instance");
      if (next >= transfers.size()) sym_fail("transfer requested after the end");
      CHECK(c.data.size() == 1 && c.data[0] == (uint8_t)next, "the next consecutive transfer number");
      size_t i = next++;
      uint8_t st = i < transferStatus.size() ? transferStatus[i] : 0;
      return mrReply(c.service, st, transfers[i]);
    }
    sym_fail("unexpected service");
  }
};
struct Handled { int n = 0; uint8_t status = 0; Bytes content; };
static fileObject::EndUploadHandler handlerOf(Handled &h) {
  return [&h](cip::GeneralStatusCodes s, const std::vector<uint8_t> &c) { h.n++; h.status = (uint8_t)s; h.content = c; };
}
extern "C" void h_C22_state() {           // arg: bytes of the state reply
  auto d = std::make_shared<FileDevice>();
  d->inst = sym_u16("inst");
  d->rawState = true; d->stateData = sym_vec((unsigned)sym_arg(0), "state");
  d->stateStatus = sym_u8("status");
  auto si = std::make_shared<NoSession>();
  Handled h;
  std::unique_ptr<FileObject> f;
  Outcome o = run([&] { f.reset(new FileObject(d->inst, si, d)); });
  sym_observe("outcome", o);
  CHECK(d->calls.size() == 1, "one request");
  if (sym_fork(d->stateStatus != 0)) { CHECK(o != RETURNED, "an error status is reported"); sym_reach("state error"); return; }
  if (d->stateData.empty()) { CHECK(o != RETURNED, "a truncated state is reported"); sym_reach("state truncated"); return; }
  uint8_t s = d->stateData[0];
  if (sym_fork(sym_or(s == 4, s > 5))) { CHECK(o != RETURNED, "a state without upload is reported"); sym_reach("state unknown"); return; }
  CHECK(o == RETURNED, "a known state is accepted");
  d->fileSize = 1; d->transferSize = 1;
  Outcome b = run([&] { f->beginUpload(si, handlerOf(h)); });
  CHECK(b == RETURNED, "upload can be asked for");
  if (sym_fork(s < 2)) {
    CHECK(d->calls.size() == 1 && h.n == 0, "no file, no upload");
    Outcome t = run([&] { CHECK(!f->handleTransfers(si), "nothing to transfer"); });
    CHECK(t == RETURNED && d->calls.size() == 1, "no transfer requested");
    sym_reach("no file");
  } else {
    CHECK(d->calls.size() == 2 && d->calls[1].service == 0x4b && h.n == 0, "upload starts");
    sym_reach("file");
  }
}
extern "C" void h_C22_begin() {           // arg: length of the reply (5 complete)
  auto d = std::make_shared<FileDevice>();
  d->inst = sym_u16("inst");
  d->initStatus = sym_u8("status");
  d->fileSize = sym_u32("fileSize"); d->transferSize = sym_u8("transferSize");
  unsigned n = (unsigned)sym_arg(0);
  if (n != 5) d->initCut = (int)n;
  auto si = std::make_shared<NoSession>();
  Handled h;
  FileObject f(d->inst, si, d);
  Outcome o = run([&] { f.beginUpload(si, handlerOf(h)); });
  sym_observe("outcome", o);
  CHECK(d->calls.size() == 2, "one request to initiate");
  if (sym_fork(d->initStatus != 0)) {
    CHECK(o == RETURNED && h.n == 1 && h.status == d->initStatus && h.content.empty(), "one error report");
    Outcome t = run([&] { CHECK(!f.handleTransfers(si), "nothing to transfer"); });
    CHECK(t == RETURNED && d->calls.size() == 2 && h.n == 1, "the upload is over");
    sym_reach("initiation fails");
    return;
  }
  if (n < 5) {
    CHECK((o != RETURNED && h.n == 0) || (o == RETURNED && h.n == 1 && h.status != 0 && h.content.empty()), "a truncated reply is reported");
    sym_reach("initiation truncated");
    return;
  }
  CHECK(o == RETURNED && h.n == 0, "upload initiated");
  sym_reach("initiated");
}
// The whole upload.  args: chunks, transfer size, bytes in the last chunk, fault kind, chunk with the fault, parameter
// fault 0 none, 1 error status, 2 wrong number, 3 cut to parameter bytes, 4 unknown type, 5 announced size differs
extern "C" void h_C22() {
  auto d = std::make_shared<FileDevice>();
  d->inst = sym_u16("inst");
  unsigned k = (unsigned)sym_arg(0), ts = (unsigned)sym_arg(1), last = (unsigned)sym_arg(2), fault = (unsigned)sym_arg(3), at = (unsigned)sym_arg(4), par = (unsigned)sym_arg(5);
  Bytes content;
  uint8_t badStatus = 0;
  for (unsigned i = 0; i < k; ++i) {
    bool end = i + 1 == k;
    Bytes c = sym_vec(end ? last : ts, "chunk");
    cat(content, c);
    Bytes t;
    uint8_t number = (uint8_t)i, type = end ? (k == 1 ? 4 : 2) : (i ? 1 : 0);
    if (k <= 5 && (fault == 0 || fault == 6)) type = end ? (sym_choice(2, "lastType") ? 4 : 2) : (sym_choice(2, "type") ? 1 : 0);   // the content is that of the chunks in order, however they are labelled
    if (fault == 2 && i == at) { number = sym_u8("number"); ASSUME(number != (uint8_t)i); }
    if (fault == 4 && i == at) { type = sym_u8("type"); ASSUME(sym_or(type == 3, type > 4)); }
    t.push_back(number); t.push_back(type); cat(t, c);
    if (end) cat(t, sym_vec(2, "crc"));
    else if (fault == 6) cat(t, sym_vec(par, "trailing"));
    if (fault == 3 && i == at) t.resize(par);
    uint8_t st = 0;
    if (fault == 1 && i == at) { badStatus = st = sym_u8("status"); ASSUME(st != 0); t.resize(par); }
    d->transfers.push_back(t); d->transferStatus.push_back(st);
  }
  d->transferSize = (uint8_t)ts;
  d->fileSize = (uint32_t)content.size();
  if (fault == 5) { d->fileSize = sym_u32("fileSize"); ASSUME(d->fileSize != content.size()); }
  auto si = std::make_shared<NoSession>();
  Handled h;
  FileObject f(d->inst, si, d);
  f.beginUpload(si, handlerOf(h));
  bool threw = false, more = true;
  unsigned steps = 0;
  while (more && !threw && steps < k) {
    steps++;
    threw = run([&] { more = f.handleTransfers(si); }) != RETURNED;
    if (more && !threw) CHECK(h.n == 0, "still in progress until the report");
  }
  sym_observe("handled", (uint64_t)h.n);
  if (fault == 0 || fault == 6) {
    CHECK(!threw && !more && steps == k && h.n == 1, "delivered once, at the last transfer");
    CHECK(h.status == 0, "success");
    checkBytes(h.content, content, "the file's content");
    sym_reach("uploaded");
  } else if (fault == 5) {
    CHECK(!threw && !more && steps == k && h.n == 1 && h.status != 0 && h.content.empty(), "a wrong size is reported as an error");
    sym_reach("wrong size");
  } else if (fault == 1) {
    CHECK(!threw && !more && steps == at + 1 && h.n == 1 && h.status == badStatus && h.content.empty(), "an error status ends the upload with one report");
    sym_reach("error status");
  } else if (fault == 2) {
    CHECK(!threw && !more && steps == at + 1 && h.n == 1 && h.status != 0 && h.content.empty(), "a wrong number ends the upload with one report");
    sym_reach("wrong number");
  } else if (fault == 4) {
    CHECK(steps == at + 1 && ((threw && h.n == 0) || (!threw && !more && h.n == 1 && h.status != 0 && h.content.empty())), "an unknown transfer type is reported");
    sym_reach("unknown type");
  } else {
    CHECK(steps == at + 1 && ((threw && h.n == 0) || (!threw && !more && h.n == 1 && h.status != 0 && h.content.empty())), "a truncated transfer is reported");
    sym_reach("truncated");
  }
}

// Two uploads side by side, of different files by different instances.
// args: chunks of the first, of the second, transfer size, 1 = the first one fails at its last transfer
extern "C" void h_C22_two() {
  std::shared_ptr<FileDevice> d[2]; std::unique_ptr<FileObject> f[2]; Handled h[2]; Bytes content[2];
  auto si = std::make_shared<NoSession>();
  unsigned ts = (unsigned)sym_arg(2);
  uint8_t bad = 0;
  for (unsigned i = 0; i < 2; ++i) {
    d[i] = std::make_shared<FileDevice>();
    d[i]->inst = sym_u16("inst");
    unsigned k = (unsigned)sym_arg((int)i);
    for (unsigned c = 0; c < k; ++c) {
      bool end = c + 1 == k;
      Bytes data = sym_vec(end ? 1 : ts + i, "chunk"), t;
      cat(content[i], data);
      t.push_back((uint8_t)c); t.push_back(end ? (k == 1 ? 4 : 2) : (c ? 1 : 0)); cat(t, data);
      if (end) cat(t, sym_vec(2, "crc"));
      d[i]->transfers.push_back(t);
      uint8_t st = 0;
      if (end && !i && sym_arg(3)) { st = bad = sym_u8("status"); ASSUME(st != 0); }
      d[i]->transferStatus.push_back(st);
    }
    d[i]->transferSize = (uint8_t)(ts + i); d[i]->fileSize = (uint32_t)content[i].size();
    f[i].reset(new FileObject(d[i]->inst, si, d[i]));
  }
  unsigned first = sym_choice(2, "first");
  f[first]->beginUpload(si, handlerOf(h[first])); f[1 - first]->beginUpload(si, handlerOf(h[1 - first]));
  bool more[2] = {true, true};
  for (unsigned step = 0; step < 2 * (sym_arg(0) + sym_arg(1)) && (more[0] || more[1]); ++step) {
    unsigned i = (step + first) % 2;
    if (!more[i]) continue;
    CHECK(run([&] { more[i] = f[i]->handleTransfers(si); }) == RETURNED, "handled");
    CHECK(h[i].n == (more[i] ? 0 : 1), "reported at its own last transfer");
    CHECK(h[1 - i].n == (more[1 - i] ? 0 : 1), "the other one is not touched");
  }
  for (unsigned i = 0; i < 2; ++i) {
    CHECK(!more[i] && h[i].n == 1, "each is reported once");
    if (!i && sym_arg(3)) CHECK(h[i].status == bad && h[i].content.empty(), "the error of the first");
    else { CHECK(h[i].status == 0, "success"); checkBytes(h[i].content, content[i], "its own content"); }
  }
  sym_reach("side by side");
}
