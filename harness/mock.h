// A peer reached through a message router: records every request, answers with the
// bytes of a message-router response.
#pragma once
#include "ref.h"
#include "MessageRouter.h"
struct Call { uint8_t service; Bytes path, data; std::vector<eipScanner::eip::CommonPacketItem> extra; const eipScanner::SessionInfoIf *session; };
static inline Bytes mrReply(uint8_t service, uint8_t status, const Bytes &data) { Bytes o; o.push_back(service | 0x80); o.push_back(0); o.push_back(status); o.push_back(0); cat(o, data); return o; }
struct MockRouter : eipScanner::MessageRouter {
  mutable std::vector<Call> calls;
  virtual Bytes answer(const Call &c, std::vector<eipScanner::eip::CommonPacketItem> &items) const = 0;
  eipScanner::cip::MessageRouterResponse take(const Call &c) const {
    calls.push_back(c);
    std::vector<eipScanner::eip::CommonPacketItem> items;
    Bytes b = answer(c, items);
    eipScanner::cip::MessageRouterResponse r;
    r.expand(b);
    r.setAdditionalPacketItems(items);
    return r;
  }
  eipScanner::cip::MessageRouterResponse sendRequest(eipScanner::SessionInfoIf::SPtr si, eipScanner::cip::CipUsint service, const eipScanner::cip::EPath &path, const std::vector<uint8_t> &data, const std::vector<eipScanner::eip::CommonPacketItem> &extra) const override { return take(Call{service, path.packPaddedPath(), data, extra, si.get()}); }
  eipScanner::cip::MessageRouterResponse sendRequest(eipScanner::SessionInfoIf::SPtr si, eipScanner::cip::CipUsint service, const eipScanner::cip::EPath &path, const std::vector<uint8_t> &data) const override { return take(Call{service, path.packPaddedPath(), data, {}, si.get()}); }
  eipScanner::cip::MessageRouterResponse sendRequest(eipScanner::SessionInfoIf::SPtr si, eipScanner::cip::CipUsint service, const eipScanner::cip::EPath &path) const override { return take(Call{service, path.packPaddedPath(), {}, {}, si.get()}); }
};
// Answers every request with prepared replies in order.
struct ScriptRouter : MockRouter {
  mutable std::vector<Bytes> replies;      // message-router responses
  mutable size_t next = 0;
  Bytes answer(const Call &, std::vector<eipScanner::eip::CommonPacketItem> &) const override { if (next >= replies.size()) sym_fail("more requests than expected"); return replies[next++]; }
};
struct NoSession : eipScanner::SessionInfoIf {
  std::string host;
  NoSession(const char *h = "10.0.0.1") : host(h) {}
  eipScanner::eip::EncapsPacket sendAndReceive(const eipScanner::eip::EncapsPacket &) const override { sym_fail("the session is used past the router"); }
  eipScanner::cip::CipUdint getSessionHandle() const override { return 7; }
  eipScanner::sockets::EndPoint getRemoteEndPoint() const override { return eipScanner::sockets::EndPoint(host, 44818); }
};
