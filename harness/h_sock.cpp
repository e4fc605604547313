// C10 TCP exchange, C11 session life cycle, C12 descriptors, C13 datagrams,
// C26 end points, C30 waiting, C31 logging
#include "env.h"
#include "ref.h"
#include <cstring>
#include <set>
#include <map>
#include <arpa/inet.h>
#include "SessionInfo.h"
#include "DiscoveryManager.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "utils/Logger.h"
using namespace eipScanner;
using sockets::EndPoint;
using sockets::BaseSocket;
using std::chrono::milliseconds;

// A TCP peer: a byte stream delivered in arbitrary pieces, then an end.
struct StreamNet : Net {
  Bytes in; size_t pos = 0;
  int end = 0;                 // 0 peer closes, else errno
  int partials = 0, eintrs = 0;
  bool trickle = false;        // one byte at a time
  Bytes out; int sends = 0;
  int sendMode = 0;            // 0 complete, 1 fails, 2 first send partial, 3 first send interrupted
  int sendErrno = EPIPE;
  size_t room = 0;             // bytes the partial send takes
  bool overread = false;
  long recv(int, uint8_t *p, size_t n, int fl) override {
    if (fl & MSG_PEEK) sym_fail("peeking is not modelled");
    if (eintrs > 0 && sym_choice(2, "interrupt")) { eintrs--; errno = EINTR; return -1; }
    if (n == 0) return 0;
    if (pos == in.size()) { if (end) { errno = end; return -1; } return 0; }
    size_t k = n < in.size() - pos ? n : in.size() - pos;
    if (trickle) k = 1;
    else if (partials > 0 && k > 1) { partials--; k = 1 + sym_choice((unsigned)k, "piece"); }
    memcpy(p, in.data() + pos, k);
    pos += k;
    return (long)k;
  }
  long send(int, const uint8_t *p, size_t n, int) override {
    sends++;
    if (sendMode == 1) { errno = sendErrno; return -1; }
    if (sendMode == 3 && sends == 1) { errno = EINTR; return -1; }
    size_t k = sendMode == 2 && sends == 1 && room < n ? room : n;
    out.insert(out.end(), p, p + k);
    return (long)k;
  }
};
static Bytes regReply(uint32_t handle) { return encapsImage(0x65, handle, 0, Bytes{1, 0, 0, 0}); }

// args: stream length after registration, end kind, partial reads, interrupts, send mode, trickle
extern "C" void h_C10() {
  StreamNet n; UseNet u(&n);
  uint32_t handle = sym_u32("handle");
  ASSUME(handle != 0);
  n.in = regReply(handle);
  {
    SessionInfo si("10.0.0.7", 0xAF12, milliseconds(500));
    n.in = sym_vec((unsigned)sym_arg(0), "stream"); n.pos = 0; n.out.clear(); n.sends = 0;
    n.end = sym_arg(1) == 0 ? 0 : sym_arg(1) == 1 ? ECONNRESET : EAGAIN;
    n.partials = (int)sym_arg(2); n.eintrs = (int)sym_arg(3); n.sendMode = (int)sym_arg(4); n.trickle = sym_arg(5);
    eip::EncapsPacket req;
    req.setCommand(eip::EncapsCommands::SEND_RR_DATA);
    req.setSessionHandle(handle);
    Bytes body = sym_vec(3, "body");
    req.setData(body);
    Bytes image = encapsImage(0x6f, handle, 0, body);
    if (n.sendMode == 2) n.room = sym_choice((unsigned)image.size(), "room");
    unsigned len = 0; bool whole = n.in.size() >= 24;
    if (whole) { len = refLen(rd(&n.in[2], 2), n.in.size() - 24); whole = n.in.size() >= 24 + len; }
    Bytes stream = n.in;
    eip::EncapsPacket rep;
    Outcome o = run([&] { rep = si.sendAndReceive(req); });
    sym_observe("outcome", o);
    if (o == RETURNED) checkBytes(n.out, image, "the request is sent completely and unmodified");
    else CHECK(o >= THREW_RUNTIME, "failures are runtime_error or system_error");
    if (n.sendMode == 1) { CHECK(o != RETURNED, "a failing send is reported"); sym_reach("send fails"); n.sendMode = 0; return; }
    if (n.sendMode) { sym_reach("send is cut short"); if (o != RETURNED) { n.sendMode = 0; return; } }
    bool good = whole && sym_fork(sym_and(rd(&stream[8], 4) == 0, rd(&stream[4], 4) == handle));
    if (!good) { CHECK(o != RETURNED, "an incomplete, failed or foreign reply is reported"); sym_reach("bad reply"); return; }
    CHECK(o == RETURNED, "the reply is delivered under any segmentation");
    Bytes want(stream.begin(), stream.begin() + 24 + len);
    checkBytes(rep.pack(), want, "exactly the packet the peer sent");
    observeBytes("reply", rep.pack());
    CHECK(n.pos == 24 + len, "later bytes stay unread");
    sym_reach(n.in.size() > 24 + len ? "later bytes" : "reply");
  }
}
// Large requests and replies in coarse pieces.  args: body, reply payload, bytes per read, bytes per send (0 all), later bytes
struct CoarseNet : Net {
  Bytes in; size_t pos = 0, piece = 100000, sendPiece = 0; Bytes out; int reads = 0; int interruptAt = -1;
  long recv(int, uint8_t *p, size_t n, int) override {
    if (reads++ == interruptAt) { errno = EINTR; return -1; }
    size_t k = std::min(std::min(n, piece), in.size() - pos);
    if (k) memcpy(p, in.data() + pos, k);
    pos += k;
    return (long)k;
  }
  long send(int, const uint8_t *p, size_t n, int) override { size_t k = sendPiece && sendPiece < n ? sendPiece : n; out.insert(out.end(), p, p + k); return (long)k; }
};
extern "C" void h_C10_large() {
  CoarseNet n; UseNet u(&n);
  uint32_t handle = sym_u32("handle"); ASSUME(handle != 0);
  n.in = regReply(handle);
  SessionInfo si("10.0.0.7", 0xAF12, milliseconds(500));
  n.out.clear(); n.pos = 0; n.reads = 0;
  n.piece = (size_t)sym_arg(2); n.sendPiece = (size_t)sym_arg(3);
  if (sym_choice(2, "interrupted")) n.interruptAt = 1;
  Bytes body = big_vec((unsigned)sym_arg(0), "body"), payload = big_vec((unsigned)sym_arg(1), "payload");
  n.in = encapsImage(sym_u16("command"), handle, 0, payload);
  for (unsigned i = 12; i < 24; ++i) n.in[i] = sym_u8("context");
  Bytes want = n.in;
  size_t end = n.in.size();
  cat(n.in, sym_vec((unsigned)sym_arg(4), "later"));
  eip::EncapsPacket req; req.setCommand(eip::EncapsCommands::SEND_UNIT_DATA); req.setSessionHandle(handle); req.setData(body);
  eip::EncapsPacket rep;
  Outcome o = run([&] { rep = si.sendAndReceive(req); });
  sym_observe("outcome", o);
  if (n.sendPiece && o != RETURNED) { CHECK(o >= THREW_RUNTIME, "failures are runtime_error or system_error"); sym_reach("large"); return; }
  CHECK(o == RETURNED, "the reply is delivered under any segmentation");
  checkBytes(n.out, encapsImage(0x70, handle, 0, body), "the request is sent completely and unmodified");
  checkBytes(rep.pack(), want, "exactly the packet the peer sent");
  CHECK(n.pos == end, "later bytes stay unread");
  sym_reach("large");
}
// A history of exchanges on one connection: each starts where the one before stopped.
// args: exchanges; for each: payload, kind (0 good, 1 error status, 2 foreign handle) ; partial reads
extern "C" void h_C10_history() {
  StreamNet n; UseNet u(&n);
  uint32_t handle = sym_u32("handle"); ASSUME(handle != 0);
  n.in = regReply(handle);
  SessionInfo si("10.0.0.7", 0xAF12, milliseconds(500));
  unsigned cnt = (unsigned)sym_arg(0);
  n.in.clear(); n.pos = 0;
  std::vector<Bytes> p;
  for (unsigned i = 0; i < cnt; ++i) {
    unsigned kind = (unsigned)sym_arg(2 + 2 * (int)i);
    uint32_t st = 0, h = handle;
    if (kind == 1) { st = sym_u32("status"); ASSUME(st != 0); }
    if (kind == 2) { h = sym_u32("foreign"); ASSUME(h != handle); }
    p.push_back(encapsImage(sym_u16("cmd"), h, st, sym_vec((unsigned)sym_arg(1 + 2 * (int)i), "payload")));
    cat(n.in, p.back());
  }
  n.partials = (int)sym_arg(1 + 2 * (int)cnt);
  size_t at = 0;
  for (unsigned i = 0; i < cnt; ++i) {
    eip::EncapsPacket req, rep; req.setCommand(eip::EncapsCommands::SEND_RR_DATA); req.setSessionHandle(handle);
    Bytes body = sym_vec(i + 1, "body"); req.setData(body);
    n.out.clear();
    Outcome o = run([&] { rep = si.sendAndReceive(req); });
    checkBytes(n.out, encapsImage(0x6f, handle, 0, body), "the request is sent completely and unmodified");
    at += p[i].size();
    CHECK(n.pos == at, "exactly one packet is taken");
    if (sym_arg(2 + 2 * (int)i)) { CHECK(o == THREW_RUNTIME || o == THREW_SYSTEM, "a failed or foreign reply is reported"); continue; }
    CHECK(o == RETURNED, "the reply is delivered");
    checkBytes(rep.pack(), p[i], "exactly the packet the peer sent");
  }
  sym_reach("history");
}
// Two exchanges on one connection: the second one starts where the first stopped.
extern "C" void h_C10_two() {             // args: first payload, second payload, partial reads
  StreamNet n; UseNet u(&n);
  uint32_t handle = sym_u32("handle");
  ASSUME(handle != 0);
  n.in = regReply(handle);
  SessionInfo si("10.0.0.7", 0xAF12, milliseconds(500));
  unsigned a = (unsigned)sym_arg(0), b = (unsigned)sym_arg(1);
  Bytes p1 = encapsImage(sym_u16("cmd1"), handle, 0, sym_vec(a, "payload1")), p2 = encapsImage(sym_u16("cmd2"), handle, 0, sym_vec(b, "payload2"));
  n.in = p1; cat(n.in, p2); n.pos = 0; n.partials = (int)sym_arg(2);
  eip::EncapsPacket req;
  checkBytes(si.sendAndReceive(req).pack(), p1, "first reply");
  checkBytes(si.sendAndReceive(req).pack(), p2, "second reply");
  sym_reach("two exchanges");
}

// ---- C11 ----  args: stream length, send mode at registration, send mode at destruction, error that ends the stream
extern "C" void h_C11() {
  StreamNet n; UseNet u(&n);
  n.in = sym_vec((unsigned)sym_arg(0), "reply");
  n.sendMode = (int)sym_arg(1); n.end = (int)sym_arg(3); n.partials = 1;
  bool whole = n.in.size() >= 24;
  unsigned len = 0;
  if (whole) { len = refLen(rd(&n.in[2], 2), n.in.size() - 24); whole = n.in.size() >= 24 + len; }
  bool good = whole && n.sendMode == 0 && sym_fork(rd(&n.in[8], 4) == 0);
  uint32_t handle = whole ? (uint32_t)rd(&n.in[4], 4) : 0;
  SessionInfo *si = nullptr;
  Outcome o = run([&] { si = sym_arg(4) ? new SessionInfo("10.0.0.7", 0xAF12) : new SessionInfo("10.0.0.7", 0xAF12, milliseconds(700)); });
  sym_observe("outcome", o);
  Bytes reg = encapsImage(0x65, 0, 0, Bytes{1, 0, 0, 0});
  if (!good) {
    CHECK(o == THREW_RUNTIME || o == THREW_SYSTEM, "a failed registration throws");
    CHECK(n.openCount() == 0, "no connection is left");
    CHECK(n.out.size() <= reg.size(), "nothing but the register request was sent");
    CHECK(!n.badUse, "descriptors are used only while open");
    sym_reach("registration fails");
    return;
  }
  CHECK(o == RETURNED, "a successful registration gives a session");
  checkBytes(n.out, reg, "one register request");
  CHECK(si->getSessionHandle() == handle, "the granted handle is adopted");
  CHECK(n.fds.size() == 1 && n.fds[0].peer.sin_port == htons(0xAF12), "connected to the requested port");
  CHECK(n.fds[0].rcvTimeoSet && n.fds[0].rcvSec == (sym_arg(4) ? 1 : 0) && n.fds[0].rcvUsec == (sym_arg(4) ? 0 : 700000), "receive timeout");
  CHECK(si->getRemoteEndPoint().getPort() == 0xAF12, "remote port");
  CHECK(si->getRemoteEndPoint().getHost() == "10.0.0.7", "remote host");
  n.out.clear(); n.sends = 0; n.sendMode = (int)sym_arg(2);
  Outcome d = run([&] { delete si; });
  CHECK(d == RETURNED, "destruction does not throw");
  if (n.sendMode == 0) { CHECK(n.sends == 1, "one unregister request"); checkBytes(n.out, encapsImage(0x66, handle, 0, {}), "unregister request"); }
  else CHECK(n.sends >= 1, "unregistering is tried");
  CHECK(n.openCount() == 0, "the connection is closed");
  CHECK(!n.badUse && n.fds[0].closes == 1, "closed exactly once and not used afterwards");
  sym_reach("registered");
}

// Two sessions at a time: each has its own connection and handle.   args: destruction order, send fails when the first one is destroyed, which registration fails (0 none)
struct PairNet : Net {
  Bytes in[3]; size_t pos[3] = {0, 0, 0}; Bytes out[3]; int sends[3] = {0, 0, 0}; bool fails = false;
  int idx(int fd) { for (size_t i = 0; i < fds.size(); ++i) if (fds[i].fd == fd) return (int)i; sym_fail("unknown descriptor"); }
  long recv(int fd, uint8_t *p, size_t n, int) override { int i = idx(fd); size_t k = std::min(n, in[i].size() - pos[i]); if (k) memcpy(p, in[i].data() + pos[i], k); pos[i] += k; return (long)k; }
  long send(int fd, const uint8_t *p, size_t n, int) override { int i = idx(fd); sends[i]++; if (fails) { errno = EPIPE; return -1; } out[i].insert(out[i].end(), p, p + n); return (long)n; }
};
extern "C" void h_C11_two() {
  PairNet n; UseNet u(&n);
  uint32_t h[3]; uint32_t st[3] = {0, 0, 0};
  unsigned bad = (unsigned)sym_arg(2);
  if (bad) { st[bad - 1] = sym_u32("status"); ASSUME(st[bad - 1] != 0); }
  for (int i = 0; i < 3; ++i) { h[i] = sym_u32("handle"); ASSUME(h[i] != 0); n.in[i] = encapsImage(0x65, h[i], st[i], Bytes{1, 0, 0, 0}); }
  Bytes reg = encapsImage(0x65, 0, 0, Bytes{1, 0, 0, 0});
  std::unique_ptr<SessionInfo> s[3];
  for (int i = 0; i < 2; ++i) {
    Outcome o = run([&] { s[i].reset(new SessionInfo("10.0.0.7", (uint16_t)(1000 + i), milliseconds(500))); });
    CHECK((o == RETURNED) == (st[i] == 0), "a registration succeeds or throws");
    checkBytes(n.out[i], reg, "one register request");
  }
  for (int i = 0; i < 2; ++i) if (s[i]) {
    CHECK(s[i]->getSessionHandle() == h[i], "the granted handle is adopted");
    CHECK(s[i]->getRemoteEndPoint().getPort() == 1000 + i, "remote port");
    Bytes d = sym_vec(2, "data"), rep = encapsImage(0x6f, h[i], 0, d);
    n.in[i] = rep; n.pos[i] = 0; n.out[i].clear();
    eip::EncapsPacket req; req.setCommand(eip::EncapsCommands::SEND_RR_DATA); req.setSessionHandle(s[i]->getSessionHandle());
    checkBytes(s[i]->sendAndReceive(req).pack(), rep, "the reply of its own peer");
    checkBytes(n.out[i], encapsImage(0x6f, h[i], 0, {}), "sent to its own peer");
  }
  for (int k = 0; k < 2; ++k) {
    int i = sym_arg(0) ? 1 - k : k;
    if (!s[i]) continue;
    for (int j = 0; j < 3; ++j) { n.out[j].clear(); n.sends[j] = 0; }
    n.fails = k == 0 && sym_arg(1);
    CHECK(run([&] { s[i].reset(); }) == RETURNED, "destruction does not throw");
    if (!n.fails) { CHECK(n.sends[i] == 1, "one unregister request"); checkBytes(n.out[i], encapsImage(0x66, h[i], 0, {}), "unregister request"); }
    CHECK(n.sends[1 - i] == 0, "nothing is sent to the other peer");
    CHECK(!n.fds[(size_t)i].open && n.fds[(size_t)i].closes == 1, "the connection is closed");
    if (k == 0 && s[1 - i]) CHECK(n.fds[(size_t)(1 - i)].open, "the other connection stays open");
  }
  n.fails = false;
  // a new session after the old ones
  if (n.fds.size() == 2) {
    n.out[2].clear();
    s[2].reset(new SessionInfo("10.0.0.7", 1002, milliseconds(500)));
    checkBytes(n.out[2], reg, "one register request");
    CHECK(s[2]->getSessionHandle() == h[2], "the granted handle is adopted");
    s[2].reset();
  }
  CHECK(n.openCount() == 0 && !n.badUse, "every connection is closed");
  sym_reach("two sessions");
}

// ---- C12 ----
struct FailNet : Net {
  int failAt = -1, seen = 0;
  int err = 0;
  int conn = 0;                // errno of connect
  int sel[4]; int nsel = 0, maxsel = 4; // result of each wait: 0 timeout, 1 ready, <0 -errno
  int soErr = 0;
  int eintrs = 0;
  bool failed = false, waitFailed = false, timedOut = false;
  milliseconds want{0};
  bool checkWait = true;
  int fail(const char *, int) override { if (seen++ == failAt) { failed = true; return err; } return 0; }
  int connect(int, const sockaddr_in *) override { return conn; }
  int soError(int) override { return soErr; }
  int select(int nfds, fd_set *r, fd_set *w, timeval *tv) override {
    if (nsel == 4) sym_fail("waits for the connection again and again");
    if (!w) sym_fail("waiting for a connect means waiting for writability");
    int fd = fds.back().fd;
    CHECK(nfds == fd + 1, "nfds covers the descriptor");
    CHECK(FD_ISSET(fd, w), "waits for the connecting descriptor");
    CHECK(tv && tv->tv_sec * 1000 + tv->tv_usec / 1000 <= want.count(), "waits at most the connect timeout");
    int v = sel[nsel++];
    if (v < 0) { if (v != -EINTR) waitFailed = true; errno = -v; return -1; }
    if (v == 0) { timedOut = true; FD_ZERO(w); return 0; }
    return 1;
  }
};
static int symErrno() {
  uint32_t e = sym_u32("errno");
  ASSUME(sym_and(e >= 1, sym_and(e <= 133, e != EINPROGRESS)));
  return (int)e;
}
static void checkClosed(FailNet &n) {
  CHECK(n.openCount() == 0, "every descriptor is closed");
  CHECK(!n.badUse, "descriptors are used only while open");
  for (auto &f : n.fds) CHECK(f.closes == 1, "closed exactly once");
}
// args: call that fails (-1 none), connect outcome 0 at once / 1 in progress / 2 error
extern "C" void h_C12_tcp() {
  FailNet n; UseNet u(&n);
  static const int first[] = {5, 0, 1000};
  n.firstFd = first[sym_choice(3, "descriptor")];
  n.failAt = (int)(int64_t)sym_arg(0);
  n.err = symErrno();
  int mode = (int)sym_arg(1);
  n.conn = mode == 0 ? 0 : mode == 1 ? EINPROGRESS : symErrno();
  uint32_t ms = sym_u32("timeout");
  ASSUME(ms <= 100000);
  n.want = milliseconds(ms);
  bool interrupted = false;
  if (mode == 1) {
    unsigned e = sym_choice(3, "interrupts");
    for (unsigned i = 0; i < e; ++i) { n.sel[i] = -EINTR; interrupted = true; }
    unsigned w = sym_choice(3, "wait");
    n.sel[e] = w == 2 ? -symErrno() : (int)w;
    if (w == 2) ASSUME(n.sel[e] != -EINTR);
    n.sel[e + 1] = 0; if (e < 2) n.sel[e + 2] = 0;
    n.soErr = sym_choice(2, "refused") ? symErrno() : 0;
  }
  uint16_t port = sym_u16("port");
  sockets::TCPSocket *s = nullptr;
  bool viaHost = mode == 0 && sym_choice(2, "viaHost");
  if (viaHost) n.want = milliseconds(1000);
  Outcome o = run([&] { s = viaHost ? new sockets::TCPSocket("10.1.2.3", port) : new sockets::TCPSocket(EndPoint("10.1.2.3", port), milliseconds(ms)); });
  sym_observe("outcome", o);
  bool ok = !n.failed && (mode == 0 || (mode == 1 && !n.waitFailed && !n.timedOut && n.soErr == 0));
  if (interrupted && o != RETURNED) ok = false;    // giving up after a signal is allowed
  if (!ok) { CHECK(o == THREW_SYSTEM, "the failure is reported as system_error"); checkClosed(n); sym_reach(n.failed ? "call fails" : n.timedOut ? "connect timeout" : "refused"); return; }
  CHECK(o == RETURNED, "the connection is made");
  CHECK(n.openCount() == 1 && s->getSocketFd() == n.fds[0].fd, "owns the descriptor");
  FdInfo &f = n.fds[0];
  CHECK(!f.dgram, "stream socket");
  CHECK(!f.nonblock, "blocking mode is restored");
  CHECK(f.connected, "connected");
  CHECK(f.peer.sin_family == AF_INET && f.peer.sin_port == htons(port) && f.peer.sin_addr.s_addr == htonl(0x0A010203), "connected to the requested address");
  CHECK(s->getRemoteEndPoint().getPort() == port, "remote end point");
  delete s;
  checkClosed(n);
  sym_reach("connected");
}
// args: kind 0 UDP, 1 bound UDP, 2 discovery ; call that fails
struct Disc : DiscoveryManager { using DiscoveryManager::DiscoveryManager; BaseSocket::SPtr make() const { return makeSocket(); } };
extern "C" void h_C12_udp() {
  FailNet n; UseNet u(&n);
  static const int first[] = {5, 0, 1000};
  n.firstFd = first[sym_choice(3, "descriptor")];
  n.failAt = (int)(int64_t)sym_arg(1); n.err = symErrno();
  uint16_t port = sym_u16("port");
  int kind = (int)sym_arg(0);
  BaseSocket::SPtr s;
  Disc d("255.255.255.255", port, milliseconds(300));
  Outcome o = run([&] {
    if (kind == 0) { if (sym_choice(2, "viaHost")) s = std::make_shared<sockets::UDPSocket>("10.1.2.3", port); else s = std::make_shared<sockets::UDPSocket>(EndPoint("10.1.2.3", port)); }
    else if (kind == 1) { if (sym_choice(2, "viaHost")) s = std::make_shared<sockets::UDPBoundSocket>("10.1.2.3", port); else s = std::make_shared<sockets::UDPBoundSocket>(EndPoint("10.1.2.3", port)); }
    else s = d.make();
  });
  sym_observe("outcome", o);
  bool tolerated = kind == 2 && n.failed && o == RETURNED && !n.fds.empty() && !n.fds[0].rcvTimeoSet;  // the timeout option alone
  if (n.failed && !tolerated) { CHECK(o == THREW_SYSTEM, "the failure is reported as system_error"); checkClosed(n); sym_reach("call fails"); return; }
  CHECK(o == RETURNED, "the socket is made");
  FdInfo &f = n.fds[0];
  CHECK(f.dgram, "datagram socket");
  CHECK(n.openCount() == 1 && s->getSocketFd() == f.fd, "owns the descriptor");
  if (kind == 1) CHECK(f.isBound && f.bound.sin_port == htons(port) && f.bound.sin_addr.s_addr == 0 && f.bound.sin_family == AF_INET, "bound to the port on every interface");
  if (kind == 2) CHECK(f.bcast && (tolerated || (f.rcvSec == 0 && f.rcvUsec == 300000)), "broadcast with a receive timeout");
  s.reset();
  checkClosed(n);
  sym_reach("made");
}

// Several sockets at a time: closing one leaves the others alone.   args: kinds (0 TCP, 1 UDP, 2 bound UDP) of three sockets, order of destruction
extern "C" void h_C12_many() {
  FailNet n; UseNet u(&n);
  n.firstFd = sym_choice(2, "descriptor") ? 0 : 7;
  n.want = milliseconds(10);
  BaseSocket::SPtr s[3];
  for (int i = 0; i < 3; ++i) {
    int k = (int)sym_arg(i); uint16_t port = sym_u16("port");
    EndPoint e("10.1.2.3", port);
    if (k == 0) s[i] = std::make_shared<sockets::TCPSocket>(e, milliseconds(10));
    else if (k == 1) s[i] = std::make_shared<sockets::UDPSocket>(e);
    else s[i] = std::make_shared<sockets::UDPBoundSocket>(e);
    CHECK(s[i]->getRemoteEndPoint().getPort() == port, "remote end point");
  }
  CHECK(n.openCount() == 3, "three descriptors");
  for (int i = 0; i < 3; ++i) CHECK(s[i]->getSocketFd() == n.fds[(size_t)i].fd, "owns its descriptor");
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k = 0; k < 3; ++k) {
    int i = perm[sym_arg(3)][k];
    s[i].reset();
    CHECK(!n.fds[(size_t)i].open && n.openCount() == 2 - k, "closes its own descriptor only");
  }
  checkClosed(n);
  sym_reach("made");
}

// ---- C13 ----
struct DgramNet : Net {
  int mode = 0;                // send: 0 ok, 1 fails, 2 short
  int sends = 0; Bytes out; sockaddr_in to;
  long got = 0; Bytes dg; sockaddr_in from; int recvErr = 0; int recvs = 0; size_t asked = 0;
  long sendto(int, const uint8_t *p, size_t n, int, const sockaddr_in *t) override {
    sends++; out.assign(p, p + n); to = *t;
    if (mode == 1) { errno = ENETUNREACH; return -1; }
    if (mode == 2) return (long)n - 1;
    return (long)n;
  }
  long recvfrom(int, uint8_t *p, size_t n, int, sockaddr_in *f) override {
    recvs++; asked = n;
    if (recvErr) { errno = recvErr; return -1; }
    size_t k = n < dg.size() ? n : dg.size();
    if (k) memcpy(p, dg.data(), k);
    if (f) *f = from;
    return (long)k;
  }
  long recv(int fd, uint8_t *p, size_t n, int) override { return recvfrom(fd, p, n, 0, nullptr); }
};
static sockaddr_in mkAddr(uint32_t a, uint16_t port) { sockaddr_in s; memset((void *)&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(a); return s; }
extern "C" void h_C13_send() {            // args: length, mode, kind
  DgramNet n; UseNet u(&n);
  uint32_t a = sym_u32("addr"); uint16_t port = sym_u16("port");
  Bytes d = big_vec((unsigned)sym_arg(0), "data");
  n.mode = (int)sym_arg(1);
  sockaddr_in t = mkAddr(a, port);
  EndPoint ep(t);
  BaseSocket::SPtr s;
  if (sym_arg(2)) s = std::make_shared<sockets::UDPBoundSocket>(ep); else s = std::make_shared<sockets::UDPSocket>(ep);
  Outcome o = run([&] { s->Send(d); });
  sym_observe("outcome", o);
  CHECK(n.sends == 1, "one datagram");
  checkBytes(n.out, d, "the complete data");
  CHECK(n.to.sin_family == AF_INET && n.to.sin_port == t.sin_port && n.to.sin_addr.s_addr == t.sin_addr.s_addr, "to the configured address");
  if (n.mode) { CHECK(o == THREW_SYSTEM, "a failing send is reported"); sym_reach("send fails"); }
  else { CHECK(o == RETURNED, "sent"); sym_reach("sent"); }
}
extern "C" void h_C13_recv() {            // args: datagram length, requested size, fails, with sender
  DgramNet n; UseNet u(&n);
  n.dg = big_vec((unsigned)sym_arg(0), "datagram");
  uint32_t a = sym_u32("addr"); uint16_t port = sym_u16("port");
  n.from = mkAddr(a, port);
  size_t want = (size_t)sym_arg(1);
  if (sym_arg(2)) { n.recvErr = symErrno(); }
  sockets::UDPSocket s("10.1.2.3", 2222);
  Bytes g; EndPoint from("", 0);
  Outcome o = run([&] { g = sym_arg(3) ? s.ReceiveFrom(want, from) : s.Receive(want); });
  sym_observe("outcome", o);
  if (sym_arg(2)) {
    bool again = false;
    CHECK(o == THREW_SYSTEM, "a failing receive is reported"); (void)again;
    sym_reach("receive fails"); return;
  }
  CHECK(o == RETURNED, "received");
  Bytes w = n.dg; if (w.size() > want) w.resize(want);
  checkBytes(g, w, "exactly the datagram");
  CHECK(n.recvs == 1, "one datagram is taken");
  if (sym_arg(3)) CHECK(from.getAddr().sin_port == n.from.sin_port && from.getAddr().sin_addr.s_addr == n.from.sin_addr.s_addr && from.getPort() == port, "the sender's address");
  sym_reach("received");
}
// Several datagrams through one socket.   args: lengths of three, requested size, socket kind
extern "C" void h_C13_many() {
  DgramNet n; UseNet u(&n);
  uint16_t port = sym_u16("port");
  EndPoint ep("10.1.2.3", port);
  BaseSocket::SPtr s;
  std::shared_ptr<sockets::UDPSocket> us;
  if (sym_arg(4)) us = std::make_shared<sockets::UDPBoundSocket>(ep); else us = std::make_shared<sockets::UDPSocket>(ep);
  s = us;
  size_t want = (size_t)sym_arg(3);
  unsigned failed = sym_choice(4, "failed");
  for (unsigned i = 0; i < 3; ++i) {
    Bytes d = big_vec((unsigned)sym_arg((int)i), "data");
    n.mode = failed == i ? 1 : 0; n.sends = 0;
    Outcome o = run([&] { s->Send(d); });
    CHECK(n.sends == 1, "one datagram");
    checkBytes(n.out, d, "the complete data");
    CHECK(n.to.sin_port == htons(port) && n.to.sin_addr.s_addr == htonl(0x0A010203), "to the configured address");
    CHECK(o == (failed == i ? THREW_SYSTEM : RETURNED), "a failing send is reported");
    n.dg = big_vec((unsigned)sym_arg((int)i), "datagram"); n.recvErr = failed == i ? 111 : 0; n.recvs = 0;
    n.from = mkAddr(0x0A010204 + i, (uint16_t)(7 + i));
    Bytes g; EndPoint from("", 0);
    bool rf = i == 1;
    o = run([&] { g = rf ? us->ReceiveFrom(want, from) : s->Receive(want); });
    CHECK(n.recvs == 1, "one datagram is taken");
    if (failed == i) { CHECK(o == THREW_SYSTEM, "a failing receive is reported"); continue; }
    CHECK(o == RETURNED, "received");
    Bytes w = n.dg; if (w.size() > want) w.resize(want);
    checkBytes(g, w, "exactly the datagram");
    if (rf) CHECK(from.getPort() == 7 + (int)i && from.getAddr().sin_addr.s_addr == n.from.sin_addr.s_addr, "the sender's address");
  }
  sym_reach("received");
}
extern "C" void h_C13_errcode() {         // the error number is the operating system's
  DgramNet n; UseNet u(&n);
  n.recvErr = symErrno();
  sockets::UDPSocket s("10.1.2.3", 2222);
  int code = 0;
  try { s.Receive(10); } catch (const std::system_error &e) { code = e.code().value(); }
  CHECK(code == n.recvErr, "carries the system's error number");
  sym_reach("error number");
}

// ---- C26 ----
struct Ep { EndPoint e; std::string host; int port; };
static Ep mkEp(unsigned kind, const char *tag) {
  if (kind == 0) {
    uint32_t a = sym_u32("addr"); uint16_t port = sym_u16("port");
    sockaddr_in s = mkAddr(a, port);
    EndPoint e(s);
    in_addr ia; ia.s_addr = s.sin_addr.s_addr;
    std::string h(inet_ntoa(ia));
    return Ep{e, h, port};
  }
  uint16_t port = sym_u16("port");
  if (kind == 1) {            // numeric text
    uint32_t a = sym_u32("addr");
    ASSUME(a != 0);
    in_addr ia; ia.s_addr = htonl(a);
    std::string h(inet_ntoa(ia));
    return Ep{EndPoint(h, port), h, port};
  }
  unsigned n = kind - 2;      // any other text of n characters
  std::string h;
  Bytes b = sym_vec(n, "text");
  for (auto c : b) { ASSUME(c != 0); h.push_back((char)c); }
  return Ep{EndPoint(h, port), h, port};
}
extern "C" void h_C26_keep() {            // arg: kind
  unsigned kind = (unsigned)sym_arg(0);
  Ep p = mkEp(kind, "a");
  CHECK(p.e.getPort() == p.port, "port");
  CHECK(p.e.getAddr().sin_port == htons((uint16_t)p.port), "port in the address structure");
  CHECK(p.e.getAddr().sin_family == AF_INET, "address family");
  CHECK(p.e.getHost() == p.host, "host");
  if (kind < 2) {
    in_addr ia; memset((void *)&ia, 0, sizeof ia);
    inet_aton(p.host.c_str(), &ia);
    CHECK(p.e.getAddr().sin_addr.s_addr == ia.s_addr, "address agrees with the host");
    sockaddr_in s = p.e.getAddr();
    EndPoint again(s);
    CHECK(again == p.e, "rebuilding from the address gives an equal end point");
    CHECK(!(again != p.e), "and not an unequal one");
  }
  EndPoint copy = p.e;
  CHECK(copy == p.e && !(copy < p.e) && !(p.e < copy), "a copy is equal and not ordered");
  sym_reach("kept");
}
extern "C" void h_C26_pair() {            // args: kinds
  Ep a = mkEp((unsigned)sym_arg(0), "a"), b = mkEp((unsigned)sym_arg(1), "b");
  bool same = a.host == b.host && a.port == b.port;
  CHECK((a.e == b.e) == same, "equal exactly for same host and port");
  CHECK((b.e == a.e) == same, "symmetric");
  CHECK((a.e != b.e) == !same, "inequality is the negation");
  bool ab = a.e < b.e, ba = b.e < a.e;
  CHECK(!(ab && ba), "asymmetric");
  CHECK((ab || ba) == !same, "distinct end points are ordered, equal ones are not");
  sym_reach("pair");
}
extern "C" void h_C26_triple() {          // args: kinds
  Ep a = mkEp((unsigned)sym_arg(0), "a"), b = mkEp((unsigned)sym_arg(1), "b"), c = mkEp((unsigned)sym_arg(2), "c");
  bool ab = a.e < b.e, bc = b.e < c.e, ac = a.e < c.e;
  CHECK(!(ab && bc) || ac, "transitive");
  bool ba = b.e < a.e, cb = c.e < b.e, ca = c.e < a.e;
  CHECK(!(!ab && !ba && !bc && !cb) || (!ac && !ca), "incomparability is transitive");
  sym_reach("triple");
}
extern "C" void h_C26_map() {             // args: kinds
  Ep a = mkEp((unsigned)sym_arg(0), "a"), b = mkEp((unsigned)sym_arg(1), "b"), c = mkEp((unsigned)sym_arg(2), "c");
  std::map<EndPoint, int> m;
  m[a.e] = 1; m[b.e] = 2; m[c.e] = 3;
  bool sab = a.host == b.host && a.port == b.port, sac = a.host == c.host && a.port == c.port, sbc = b.host == c.host && b.port == c.port;
  unsigned distinct = 3 - ((sab || sac) ? 1 : 0) - (sbc ? 1 : 0);
  if (sab && sac) distinct = 1;
  CHECK(m.size() == distinct, "every distinct end point is a distinct key");
  CHECK(m.at(c.e) == 3, "found again");
  CHECK(m.at(b.e) == (sbc ? 3 : 2), "found again");
  CHECK(m.at(a.e) == (sac ? 3 : sab ? 2 : 1), "found again");
  sym_reach("map");
}

// ---- C30 ----
struct FakeSocket : BaseSocket {
  FakeSocket(int fd) : BaseSocket("10.0.0.1", 1) { _sockedFd = fd; }
  void Send(const std::vector<uint8_t> &) const override {}
  std::vector<uint8_t> Receive(size_t) const override { return {}; }
};
struct WaitNet : Net {
  std::vector<int> sfds; std::vector<int> served; std::vector<int> expect;
  int64_t clock = 0, start = 0, limitNs = 0;
  int rounds = 0, maxRounds = 3, err = 0;
  bool done = false, failed = false, timeUp = false;
  int64_t now() override { return clock; }
  // landmarks relative to what is left: nothing, a little, just before, exactly, just after, long after
  void advance() {
    int64_t left = start + limitNs - clock, d = 0;
    switch (sym_choice(6, "elapsed")) {
      case 0: d = 0; break;
      case 1: d = left / 2 + 1000; break;
      case 2: d = left - 1000; break;
      case 3: d = left; break;
      case 4: d = left + 1000; break;
      default: d = left + 3000000000LL; break;
    }
    if (d > 0) clock += d;
  }
  int select(int nfds, fd_set *r, fd_set *w, timeval *tv) override {
    rounds++;
    CHECK(!done, "does not wait again after nothing was ready");
    CHECK(rounds == 1 || !sym_fork(clock >= start + limitNs), "does not wait again after the timeout");
    CHECK(served == expect, "every ready socket was served before waiting again");
    if (!r || !tv) sym_fail("waits for readability with a time limit");
    int maxfd = 0;
    for (int f : sfds) { if (f > maxfd) maxfd = f; CHECK(FD_ISSET(f, r), "waits for every socket"); }
    fd_set want; FD_ZERO(&want);
    for (int f : sfds) FD_SET(f, &want);
    for (int f = 0; f <= maxfd / 64; ++f) CHECK(((uint64_t *)r)[f] == ((uint64_t *)&want)[f], "waits for nothing else");
    CHECK(nfds > maxfd, "nfds covers every socket");
    int64_t left = start + limitNs - clock, wait = (int64_t)tv->tv_sec * 1000000000 + (int64_t)tv->tv_usec * 1000;
    CHECK(tv->tv_usec < 1000000 && tv->tv_usec >= 0 && tv->tv_sec >= 0, "valid time limit");
    CHECK(sym_or(sym_and(left < 0, wait == 0), wait <= left), "never waits longer than the remaining time");
    CHECK(wait + 1000000 > left, "waits for the remaining time");
    FD_ZERO(r);
    advance();
    unsigned k = rounds > maxRounds ? 0 : sym_choice(3, "result");   // 0 nothing, 1 some, 2 error
    if (k == 2) { failed = true; err = sym_u32("errno") & 0x7f; errno = err; return -1; }
    if (k == 0) { done = true; return 0; }
    int n = 0;
    unsigned mask = sym_choice(1u << sfds.size(), "ready");
    ASSUME(mask != 0);
    for (size_t i = 0; i < sfds.size(); ++i) if (mask >> i & 1) { FD_SET(sfds[i], r); n++; expect[i]++; }
    return n;
  }
};
extern "C" void h_C30() {                 // args: sockets, rounds with data
  unsigned k = (unsigned)sym_arg(0);
  WaitNet n; UseNet u(&n);
  n.maxRounds = (int)sym_arg(1);
  static const int64_t limits[] = {0, 1, 250, 999, 1000, 1001, 2500, 60000};
  int64_t ms = k < 5 && !sym_arg(3) ? limits[sym_choice(8, "timeout")] : 250;
  n.limitNs = ms * 1000000;
  n.clock = n.start = k < 5 && sym_choice(2, "start") ? 1234567891000LL : 0;
  static const int orders[2][3][7] = {{{5, 9, 33, 1, 2, 3, 4}, {33, 5, 9, 1, 2, 3, 4}, {9, 33, 5, 1, 2, 3, 4}}, {{64, 3, 1023, 1, 127, 128, 0}, {1023, 64, 3, 0, 1, 127, 128}, {0, 1023, 64, 1, 3, 127, 128}}};
  const int (*order)[7] = orders[sym_arg(2)];
  unsigned perm = k > 1 ? sym_choice(3, "order") : 0;
  std::vector<BaseSocket::SPtr> v;
  n.served.resize(k); n.expect.resize(k);
  for (unsigned i = 0; i < k; ++i) {
    n.sfds.push_back(order[perm][i]);
    auto s = std::make_shared<FakeSocket>(order[perm][i]);
    WaitNet *np = &n; BaseSocket *self = s.get();
    s->setBeginReceiveHandler([np, i, self](BaseSocket &b) { CHECK(&b == self, "the handler gets its own socket"); np->served[i]++; CHECK(np->served[i] <= np->expect[i], "only ready sockets are served, once"); });
    v.push_back(s);
  }
  if (sym_arg(3)) {                        // an earlier wait with other sockets
    n.maxRounds = 1;
    std::vector<BaseSocket::SPtr> first(v.begin(), v.begin() + 1);
    std::vector<int> all = n.sfds; n.sfds.resize(1); std::vector<int> se, ss;
    Outcome o = run([&] { BaseSocket::select(first, milliseconds(ms)); });
    CHECK(o == (n.failed ? THREW_SYSTEM : RETURNED), "a failing wait is reported");
    CHECK(n.served == n.expect, "every ready socket was served exactly once");
    n.sfds = all; n.rounds = 0; n.done = n.failed = false; n.maxRounds = (int)sym_arg(1);
    n.start = n.clock;
  }
  Outcome o = run([&] { BaseSocket::select(v, milliseconds(ms)); });
  sym_observe("outcome", o);
  sym_observe("rounds", (uint64_t)n.rounds);
  if (k == 0) { CHECK(o == RETURNED, "with no sockets it simply returns"); sym_reach("no sockets"); return; }
  if (n.failed) { CHECK(o == THREW_SYSTEM, "a failing wait is reported"); sym_reach("wait fails"); }
  else { CHECK(o == RETURNED, "returns"); CHECK(n.done || sym_fork(n.clock >= n.start + n.limitNs), "keeps serving while data arrives within the timeout"); sym_reach(n.done ? "nothing ready" : "time is up"); }
  CHECK(n.rounds >= 1, "looks at the sockets at least once");
  CHECK(n.served == n.expect, "every ready socket was served exactly once");
}

// ---- C31 ----
using utils::Logger;
using utils::LogLevel;
struct Count { int n[6]; int total; };
static std::string lastText;
static Count cnt[2];
struct CountAppender : utils::LogAppenderIf {
  int which;
  CountAppender(int w) : which(w) {}
  void print(LogLevel l, const std::string &text) override { lastText = text; if ((int)l < 0 || (int)l > 5) sym_fail("level of the message"); cnt[which].n[(int)l]++; cnt[which].total++; }
};
extern "C" void h_C31() {                 // args: messages; their text is chosen
  memset((void *)cnt, 0, sizeof cnt);
  Count want[2]; memset((void *)want, 0, sizeof want);
  int which = 0;
  Logger::setAppender(std::make_unique<CountAppender>(0));
  unsigned threshold = sym_choice(6, "threshold");
  Logger::setLogLevel((LogLevel)threshold);
  for (unsigned i = 0; i < sym_arg(0); ++i) {
    unsigned level = sym_choice(6, "level");
    unsigned text, act = sym_choice(4, "action");     // 0 plain, 1 threshold changes before, 2 while the message is built, 3 appender changes while it is built
    if (act == 1) { threshold = sym_choice(6, "threshold"); Logger::setLogLevel((LogLevel)threshold); }
    {
      Logger l((LogLevel)level);
      unsigned kind = sym_arg(1) ? sym_choice(4, "text") : i % 4;   // the last kind writes nothing at all
      text = kind == 3 ? 0 : kind == 2 ? 0 : kind + 1;
      if (text) l << (text == 1 ? "value=" : "") << 5;
      else if (kind == 2) l << "";
      if (act == 2) { threshold = sym_choice(6, "threshold"); Logger::setLogLevel((LogLevel)threshold); }
      if (act == 3) { which = 1 - which; Logger::setAppender(std::make_unique<CountAppender>(which)); }
      CHECK(cnt[0].total == want[0].total && cnt[1].total == want[1].total, "nothing is printed before the message is finished");
    }
    if (level != 0 && threshold != 0 && level <= threshold) { want[which].n[level]++; want[which].total++; CHECK(lastText == (text == 1 ? "value=5" : text == 2 ? "5" : ""), "with its own text"); }
    for (int w = 0; w < 2; ++w) {
      CHECK(cnt[w].total == want[w].total, "printed exactly once when enabled, never otherwise");
      for (int k = 0; k < 6; ++k) CHECK(cnt[w].n[k] == want[w].n[k], "with its own level");
    }
    sym_reach(level != 0 && level <= threshold ? "printed" : "suppressed");
  }
}
