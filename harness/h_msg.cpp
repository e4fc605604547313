// C09 explicit messaging, C29 the Yaskawa variant
#include "ref.h"
#include "MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"
using namespace eipScanner;
using namespace eipScanner::cip;
using eip::CommonPacketItem;
using eip::CommonPacketItemIds;

struct Boom : std::runtime_error { int tag; Boom(int t) : std::runtime_error("boom"), tag(t) {} };
struct FakeSession : SessionInfoIf {
  uint32_t handle; Bytes reply; int mode;   // 0 reply, 1 throw Boom, 2 throw system_error
  mutable int exchanges = 0; mutable Bytes sent;
  eip::EncapsPacket sendAndReceive(const eip::EncapsPacket &p) const override {
    exchanges++; sent = p.pack();
    if (mode == 1) throw Boom(42);
    if (mode == 2) throw std::system_error(EPIPE, std::generic_category());
    eip::EncapsPacket r; r.setCommand(eip::EncapsCommands::SEND_RR_DATA); r.setSessionHandle(handle); r.setData(reply);
    return r;
  }
  cip::CipUdint getSessionHandle() const override { return handle; }
  sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint("10.0.0.1", 44818); }
};
struct Req { unsigned n; bool narrow; uint8_t svc; uint16_t c, i, a; Bytes data; std::vector<RefItem> extra; int overload; };
template <class P> static P mkP(const Req &q) { return q.n == 0 ? P() : q.n == 1 ? P(q.c) : q.n == 2 ? P(q.c, q.i) : P(q.c, q.i, q.a); }
template <class R, class P> static MessageRouterResponse ask(const R &r, SessionInfoIf::SPtr si, const Req &q, const P &path) {
  if (q.overload == 3) return r.sendRequest(si, q.svc, path);
  if (q.overload == 4) return r.sendRequest(si, q.svc, path, q.data);
  std::vector<CommonPacketItem> x;
  for (auto &e : q.extra) x.push_back(CommonPacketItem((CommonPacketItemIds)e.type, e.data));
  return r.sendRequest(si, q.svc, path, q.data, x);
}
static Req symReq(int variant, int overload, unsigned ids, unsigned dataLen, unsigned extras) {
  Req q; q.overload = overload; q.n = ids; q.narrow = variant != 0;
  q.svc = sym_u8("service"); q.c = sym_u16("class"); q.i = sym_u16("instance"); q.a = sym_u16("attribute");
  if (q.narrow) ASSUME(sym_and(q.c < 256, sym_and(q.i < 256, q.a < 256)));
  if (q.overload >= 4) q.data = big_vec(dataLen, "data");
  if (q.overload >= 5) for (unsigned k = 0; k < extras; ++k) { RefItem it; it.type = sym_u16("xtype"); it.data = big_vec(overload == 7 ? 2 : k * 3 + (dataLen > 500 ? dataLen : 0), "xdata"); q.extra.push_back(it); }
  return q;
}
struct Expect { RefCommon rc; RefMR mr; };
static Expect expectReply(const FakeSession &s) {
  Expect e; e.rc.ok = false; e.mr.ok = false;
  const Bytes &in = s.reply;
  if (s.mode == 0 && in.size() >= 6) {
    e.rc = refCommon(Bytes(in.begin() + 6, in.end()));
    if (e.rc.ok && e.rc.items.size() >= 2) e.mr = refMR(e.rc.items[1].data);
  }
  return e;
}
static void judge(const Req &q, const FakeSession &s, const Expect &e, Outcome o, int tag, const MessageRouterResponse &got) {
  const RefCommon &rc = e.rc; const RefMR &mr = e.mr;
  sym_observe("outcome", o);
  Bytes path = pathImage(q.n, q.c, q.i, q.a, q.narrow), msg, cp, want;
  msg.push_back(q.svc); msg.push_back((uint8_t)(path.size() / 2)); cat(msg, path); cat(msg, q.data);
  le(want, 0, 4);
  CHECK(s.exchanges == 1, "exactly one exchange with the session");
  CHECK(s.sent.size() >= 30, "request size");
  want.push_back(s.sent[28]); want.push_back(s.sent[29]);   // the timeout is not prescribed
  le(want, 2 + q.extra.size(), 2);
  commonItem(want, 0, {});
  commonItem(want, 0xb2, msg);
  for (auto &x : q.extra) commonItem(want, x.type, x.data);
  checkBytes(s.sent, encapsImage(0x6f, s.handle, 0, want), "request on the wire");
  if (s.sent.size() < 500) observeBytes("sent", s.sent);
  if (s.mode == 1) { CHECK(o == THREW_RUNTIME && tag == 42, "the session's exception is passed on"); sym_reach("session error"); return; }
  if (s.mode == 2) { CHECK(o == THREW_SYSTEM, "the session's exception is passed on"); sym_reach("session error"); return; }
  if (!mr.ok) { CHECK(o == THREW_RUNTIME || o == THREW_SYSTEM, "an unusable reply is reported"); sym_reach("bad reply"); return; }
  CHECK(o == RETURNED, "a complete reply is accepted");
  CHECK((uint8_t)got.getServiceCode() == mr.service, "service code");
  CHECK((uint8_t)got.getGeneralStatusCode() == mr.status, "general status");
  CHECK(got.getAdditionalStatus().size() == mr.add.size(), "additional status");
  for (size_t i = 0; i < mr.add.size(); ++i) CHECK(got.getAdditionalStatus()[i] == mr.add[i], "additional status");
  checkBytes(got.getData(), mr.data, "data");
  const auto &ai = got.getAdditionalPacketItems();
  CHECK(ai.size() == rc.items.size() - 2, "number of additional items");
  for (size_t i = 0; i < ai.size(); ++i) {
    CHECK((uint16_t)ai[i].getTypeId() == rc.items[i + 2].type, "additional item type");
    checkBytes(ai[i].getData(), rc.items[i + 2].data, "additional item data");
  }
  sym_reach(ai.empty() ? "answer" : "answer with additional items");
}
// args: 0 wide, 1 narrow, 2 yaskawa ; overload ; ids ; data length ; extra items ; reply length ; session mode
static void exchange() {
  int variant = (int)sym_arg(0);
  Req q = symReq(variant, (int)sym_arg(1), (unsigned)sym_arg(2), (unsigned)sym_arg(3), (unsigned)sym_arg(4));
  auto s = std::make_shared<FakeSession>();
  s->handle = sym_u32("handle"); s->mode = (int)sym_arg(6); s->exchanges = 0;
  s->reply = sym_vec((unsigned)sym_arg(5), "reply");
  Expect e = expectReply(*s);
  MessageRouterResponse got;
  int tag = 0;
  auto go = [&] {
    if (variant == 2) got = ask(Yaskawa_MessageRouter(), s, q, mkP<Yaskawa_EPath>(q));
    else got = ask(variant == 1 ? MessageRouter(MessageRouter::USE_8_BIT_PATH_SEGMENTS) : MessageRouter(), s, q, mkP<EPath>(q));
  };
  Outcome o = run([&] { try { go(); } catch (const Boom &b) { tag = b.tag; throw; } });
  judge(q, *s, e, o, tag, got);
}
// Several requests through one router, each over its own or over the same session.
// args: variant ; requests ; for each: overload, ids, data length, extra items, reply kind, reply data length, extra reply items ; same session (bit per request)
// overload 7: items of equal sizes
// reply kind 0 complete, 1 session throws, 2 too short, 3 a single item, 4 the reply is a status with two additional words
static void several() {
  int variant = (int)sym_arg(0); unsigned cnt = (unsigned)sym_arg(1), same = (unsigned)sym_arg(2 + 7 * (int)cnt);
  MessageRouter wide, narrow(MessageRouter::USE_8_BIT_PATH_SEGMENTS); Yaskawa_MessageRouter yask;
  std::shared_ptr<FakeSession> s;
  std::vector<uint32_t> handles;
  for (unsigned k = 0; k < cnt; ++k) {
    auto A = [&](int j) { return (unsigned)sym_arg(2 + 7 * (int)k + j); };
    Req q = symReq(variant, (int)A(0), A(1), A(2), A(3));
    if (!s || !(same >> k & 1)) { s = std::make_shared<FakeSession>(); s->handle = sym_u32("handle"); }
    s->exchanges = 0; s->sent.clear(); s->reply.clear();
    unsigned kind = A(4);
    s->mode = kind == 1 ? 1 : 0;
    Bytes mr; mr.push_back(sym_u8("replyService")); mr.push_back(sym_u8("reserved")); mr.push_back(sym_u8("replyStatus")); mr.push_back(kind == 4 ? 2 : 0);
    if (kind == 4) cat(mr, sym_vec(4, "additional"));
    cat(mr, big_vec(A(5), "replyData"));
    Bytes &in = s->reply;
    cat(in, sym_vec(6, "interface"));
    unsigned x = A(6);
    le(in, kind == 3 ? 1 : 2 + x, 2); commonItem(in, 0, {});
    if (kind != 3) commonItem(in, sym_u16("itemType"), mr);
    for (unsigned i = 0; i < x && kind != 3; ++i) commonItem(in, sym_u16("rxType"), sym_vec(A(0) == 7 ? 1 : 2 + i, "rxData"));
    if (kind == 2) in.resize(in.size() - 1 - x * 3);
    Expect e = expectReply(*s);
    MessageRouterResponse got;
    int tag = 0;
    auto go = [&] { if (variant == 2) got = ask(yask, s, q, mkP<Yaskawa_EPath>(q)); else got = ask(variant == 1 ? narrow : wide, s, q, mkP<EPath>(q)); };
    Outcome o = run([&] { try { go(); } catch (const Boom &b) { tag = b.tag; throw; } });
    judge(q, *s, e, o, tag, got);
  }
  sym_reach("several requests");
}
extern "C" void h_C09() { exchange(); }
extern "C" void h_C29_exchange() { exchange(); }
extern "C" void h_C09_several() { several(); }
extern "C" void h_C29_several() { several(); }

static Yaskawa_EPath mkY(unsigned n, uint8_t c, uint8_t i, uint8_t a) { return n == 0 ? Yaskawa_EPath() : n == 1 ? Yaskawa_EPath(c) : n == 2 ? Yaskawa_EPath(c, i) : Yaskawa_EPath(c, i, a); }
extern "C" void h_C29_path() {            // arg: ids named
  unsigned n = (unsigned)sym_arg(0);
  uint8_t c = sym_u8("class"), i = sym_u8("instance"), a = sym_u8("attribute"), svc = sym_u8("service");
  Yaskawa_EPath p = mkY(n, c, i, a);
  CHECK(p.getClassId() == (n > 0 ? c : 0), "class id");
  CHECK(p.getObjectId() == (n > 1 ? i : 0), "instance id");
  CHECK(p.getAttributeId() == (n > 2 ? a : 0), "attribute id");
  Bytes w = pathImage(n, c, i, a, true);
  checkBytes(p.packPaddedPath(), w, "segments");
  CHECK(p.getSizeInWords() * 2u == w.size(), "size in words");
  EPath std8 = n == 0 ? EPath() : n == 1 ? EPath(c) : n == 2 ? EPath(c, i) : EPath(c, i, a);
  checkBytes(p.packPaddedPath(), std8.packPaddedPath(true), "same bytes as the standard 8-bit path");
  CHECK(p.getSizeInWords() == std8.getSizeInWords(true), "same size as the standard 8-bit path");
  Bytes d = sym_vec((unsigned)sym_arg(1), "data"), m;
  m.push_back(svc); m.push_back((uint8_t)(w.size() / 2)); cat(m, w); cat(m, d);
  checkBytes(Yaskawa_MessageRouterRequest(svc, p, d).pack(), m, "request image");
  Yaskawa_EPath q(3, 4, 5);
  q.expandPaddedPath(w);
  int nz = 1;
  if (n > 0) nz = sym_and(nz, c != 0);
  if (n > 1) nz = sym_and(nz, i != 0);
  if (n > 2) nz = sym_and(nz, a != 0);
  if (sym_fork(nz)) CHECK(q == p, "equal after the round trip");
  uint8_t c2 = sym_u8("c2"), i2 = sym_u8("i2"), a2 = sym_u8("a2");
  unsigned m2 = sym_choice(4, "ids2");
  Yaskawa_EPath r = mkY(m2, c2, i2, a2);
  int same = n == m2;
  if (n > 0) same = sym_and(same, c == c2);
  if (n > 1) same = sym_and(same, i == i2);
  if (n > 2) same = sym_and(same, a == a2);
  bool eq = p == r;
  CHECK(eq == (same != 0), "paths equal exactly when they name the same ids");
  sym_reach("path");
}
extern "C" void h_C29_expand() {          // arg: number of bytes; same result as the standard path
  Bytes in = sym_vec((unsigned)sym_arg(0), "in");
  EPath s(1, 2, 3); Yaskawa_EPath y(4, 5, 6);
  Outcome a = run([&] { s.expandPaddedPath(in); }), b = run([&] { y.expandPaddedPath(in); });
  CHECK(a == b, "accepts what the standard path accepts");
  if (a != RETURNED) { CHECK(b == THREW_RUNTIME, "refusal is a runtime_error"); sym_reach("path refused"); return; }
  CHECK((uint8_t)s.getClassId() == y.getClassId(), "class id");
  CHECK((uint8_t)s.getObjectId() == y.getObjectId(), "instance id");
  CHECK((uint8_t)s.getAttributeId() == y.getAttributeId(), "attribute id");
  CHECK(y.getSizeInWords() * 2u == y.packPaddedPath().size(), "size in words");
  sym_reach("path expanded");
}
