// C23 parameters, C24 scaling, C25 identity, C27 drive faults, C28 fault records and texts
#include "mock.h"
#include <memory>
#include <limits>
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
using namespace eipScanner;
using namespace eipScanner::cip;
using namespace eipScanner::vendor::ra::powerFlex525;
static std::string text(const Bytes &b) { return std::string(b.begin(), b.end()); }
static void checkText(const std::string &got, const Bytes &want, const char *label) { checkBytes(Bytes(got.begin(), got.end()), want, label); }
static void checkCall(const Call &c, uint8_t service, unsigned n, uint16_t cl, uint16_t inst, uint16_t attr, const SessionInfoIf *si) {
  CHECK(c.service == service, "service of a request");
  checkBytes(c.path, pathImage(n, cl, inst, attr, false), "path of a request");
  CHECK(c.session == si, "session of a request");
  CHECK(c.extra.empty(), "additional items of a request");
}

// ---- C25 ----
extern "C" void h_C25() {                 // args: bytes in the reply, 1 = error status
  unsigned n = (unsigned)sym_arg(0);
  uint16_t inst = sym_u16("instance");
  uint8_t status = 0;
  if (sym_arg(1)) { status = sym_u8("status"); ASSUME(status != 0); }
  Bytes d = sym_vec(n, "reply");
  auto r = std::make_shared<ScriptRouter>();
  r->replies.push_back(mrReply(1, status, d));
  auto si = std::make_shared<NoSession>();
  std::unique_ptr<IdentityObject> o;
  Outcome out = run([&] { o.reset(new IdentityObject(inst, si, r)); });
  CHECK(r->calls.size() == 1, "one request");
  checkCall(r->calls[0], 1, 2, 1, inst, 0, si.get());
  CHECK(r->calls[0].data.empty(), "data of the request");
  if (sym_arg(1)) { CHECK(out == THREW_RUNTIME, "an error status is reported"); sym_reach("error status"); return; }
  bool ok = n >= 15 && sym_not(sym_fork(15u + d[14] > n));
  if (!ok) { CHECK(out == THREW_RUNTIME || out == THREW_STD, "a truncated reply is reported"); sym_reach("truncated"); return; }
  CHECK(out == RETURNED, "a complete reply is accepted");
  unsigned len = (unsigned)sym_concretize(d[14]);
  CHECK(o->getInstanceId() == inst, "instance");
  CHECK(o->getClassId() == 1, "class");
  CHECK(o->getVendorId() == rd(&d[0], 2), "vendor");
  CHECK(o->getDeviceType() == rd(&d[2], 2), "device type");
  CHECK(o->getProductCode() == rd(&d[4], 2), "product code");
  CHECK(o->getRevision().getMajorRevision() == d[6], "major revision");
  CHECK(o->getRevision().getMinorRevision() == d[7], "minor revision");
  CHECK(o->getStatus() == rd(&d[8], 2), "status");
  CHECK(o->getSerialNumber() == rd(&d[10], 4), "serial number");
  checkText(o->getProductName(), Bytes(d.begin() + 15, d.begin() + 15 + len), "product name");
  sym_reach("read");
}
extern "C" void h_C25_set() {             // args: name length, order of the setters
  unsigned n = (unsigned)sym_arg(0), rot = (unsigned)sym_arg(1);
  uint16_t v[7]; for (auto &x : v) x = sym_u16("value");
  uint32_t serial = sym_u32("serial");
  Bytes name = sym_vec(n, "name");
  IdentityObject o(sym_u16("instance"));
  bool set[7] = {};
  auto look = [&] {
    CHECK(o.getVendorId() == (set[0] ? v[0] : 0), "vendor after a setter");
    CHECK(o.getDeviceType() == (set[1] ? v[1] : 0), "device type after a setter");
    CHECK(o.getProductCode() == (set[2] ? v[2] : 0), "product code after a setter");
    CHECK(o.getRevision() == (set[3] ? CipRevision((uint8_t)v[3], (uint8_t)(v[3] >> 8)) : CipRevision(0, 0)), "revision after a setter");
    CHECK(o.getStatus() == (set[4] ? v[4] : 0), "status after a setter");
    CHECK(o.getSerialNumber() == (set[5] ? serial : 0), "serial number after a setter");
    checkText(o.getProductName(), set[6] ? name : Bytes(), "product name after a setter");
  };
  look();
  for (unsigned i = 0; i < 7; ++i) {
    unsigned k = (rot & 8) ? (13 + rot - i) % 7 : (i + rot) % 7;
    switch (k) {
      case 0: o.setVendorId(v[0]); break;
      case 1: o.setDeviceType(v[1]); break;
      case 2: o.setProductCode(v[2]); break;
      case 3: o.setRevision(CipRevision((uint8_t)v[3], (uint8_t)(v[3] >> 8))); break;
      case 4: o.setStatus(v[4]); break;
      case 5: o.setSerialNumber(serial); break;
      default: o.setProductName(text(name));
    }
    set[k] = true;
    look();
  }
  IdentityObject copy = o;
  o.setVendorId((uint16_t)~v[0]);
  CHECK(copy.getVendorId() == v[0], "copies are independent");
  sym_reach("set");
}
// Several identities in a row, each read from its own device.   args: bytes of each reply
extern "C" void h_C25_many() {
  auto si = std::make_shared<NoSession>();
  std::unique_ptr<IdentityObject> o[3]; Bytes d[3]; uint16_t inst[3]; unsigned len[3]; bool ok[3];
  auto r = std::make_shared<ScriptRouter>();
  for (unsigned i = 0; i < 3; ++i) {
    inst[i] = sym_u16("instance");
    d[i] = sym_vec((unsigned)sym_arg((int)i), "reply");
    r->replies.push_back(mrReply(1, 0, d[i]));
    if (d[i].size() > 14) refLen(d[i][14], d[i].size() - 15);
    ok[i] = d[i].size() >= 15 && sym_not(sym_fork(15u + d[i][14] > d[i].size()));
    Outcome out = run([&] { o[i].reset(new IdentityObject(inst[i], si, r)); });
    CHECK(r->calls.size() == i + 1, "one request each");
    checkCall(r->calls[i], 1, 2, 1, inst[i], 0, si.get());
    CHECK((out == RETURNED) == ok[i], "accepted when complete");
    len[i] = ok[i] ? (unsigned)sym_concretize(d[i][14]) : 0;
  }
  for (unsigned i = 0; i < 3; ++i) {
    if (!ok[i]) continue;
    CHECK(o[i]->getInstanceId() == inst[i] && o[i]->getVendorId() == rd(&d[i][0], 2) && o[i]->getDeviceType() == rd(&d[i][2], 2) && o[i]->getProductCode() == rd(&d[i][4], 2), "its own numbers");
    CHECK(o[i]->getRevision().getMajorRevision() == d[i][6] && o[i]->getRevision().getMinorRevision() == d[i][7] && o[i]->getStatus() == rd(&d[i][8], 2) && o[i]->getSerialNumber() == rd(&d[i][10], 4), "its own revision, status and serial number");
    checkText(o[i]->getProductName(), Bytes(d[i].begin() + 15, d[i].begin() + 15 + len[i]), "its own name");
  }
  sym_reach("several");
}

// ---- C23 ----
// A device with one parameter: answers by the attribute asked for.
struct ParamDevice : MockRouter {
  uint16_t inst = 0;
  Bytes all, size, value, scale[4];
  int errorAt = -1;                       // 0 size, 1 all, 2..5 scaling, 6 value
  uint8_t error = 0;
  mutable unsigned asked[7] = {};
  Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &) const override {
    int k = -1; const Bytes *d = nullptr;
    if (c.path.size() == 8) { k = 1; d = &all; CHECK(c.service == 1, "service reading all attributes"); checkBytes(c.path, pathImage(2, 0x0f, inst, 0, false), "path reading all attributes"); }
    else if (c.path.size() == 12) {
      unsigned a = (unsigned)sym_concretize(rd(&c.path[10], 2));
      checkBytes(c.path, pathImage(3, 0x0f, inst, (uint16_t)a, false), "path reading an attribute");
      CHECK(c.service == 0x0e, "service reading an attribute");
      if (a == 6) { k = 0; d = &size; }
      else if (a == 1) { k = 6; d = &value; }
      else if (a >= 13 && a <= 16) { k = (int)(a - 11); d = &scale[a - 13]; }
    }
    if (k < 0) sym_fail("a request for something else");
    CHECK(c.data.empty(), "data of a reading request");
    asked[k]++;
    if (k == errorAt) return mrReply(c.service, error, *d);
    return mrReply(c.service, 0, *d);
  }
};
struct RefParam { bool ok = false; Bytes value, name, units, help, mn, mx, def; uint16_t descriptor = 0; uint8_t type = 0, precision = 0; bool scalable = false, readOnly = false; };
// Reference decoder; forks on every length.
static RefParam refParam(const Bytes &d, unsigned ds, bool full) {
  RefParam r; size_t p = 0;
  auto need = [&](size_t k) { return d.size() - p >= k; };
  auto take = [&](size_t k) { Bytes b(d.begin() + p, d.begin() + p + k); p += k; return b; };
  if (!need(ds)) return r;
  r.value = take(ds);
  if (!need(1)) return r;
  uint8_t l = d[p++];
  if (sym_fork(l > d.size() - p)) return r;
  take((size_t)sym_concretize(l));
  if (!need(3)) return r;
  r.descriptor = (uint16_t)rd(&d[p], 2); r.type = d[p + 2]; p += 3;
  r.scalable = sym_fork((r.descriptor & 4) != 0);
  r.readOnly = sym_fork((r.descriptor & 16) != 0);
  if (!full) { r.ok = true; return r; }
  if (!need(1)) return r;
  take(1);
  Bytes *s[3] = {&r.name, &r.units, &r.help};
  for (auto *x : s) {
    if (!need(1)) return r;
    uint8_t n = d[p++];
    if (sym_fork(n > d.size() - p)) return r;
    *x = take((size_t)sym_concretize(n));
  }
  if (!need(3 * ds)) return r;
  r.mn = take(ds); r.mx = take(ds); r.def = take(ds);
  if (r.scalable) { if (!need(17)) return r; take(16); r.precision = take(1)[0]; }
  r.ok = true;
  return r;
}
template <class T> static T as(const Bytes &b) { return (T)rd(b.data(), sizeof(T)); }
static void checkValues(const ParameterObject &o, unsigned ds, const Bytes &value, const Bytes &mn, const Bytes &mx, const Bytes &def, bool full) {
  auto each = [&](auto z) {
    typedef decltype(z) T;
    if (ds < sizeof(T)) return;
    CHECK(o.getActualValue<T>() == as<T>(value), "actual value");
    if (!full) return;
    CHECK(o.getMinValue<T>() == as<T>(mn), "minimum");
    CHECK(o.getMaxValue<T>() == as<T>(mx), "maximum");
    CHECK(o.getDefaultValue<T>() == as<T>(def), "default");
  };
  each((uint8_t)0); each((int8_t)0); each((uint16_t)0); each((int16_t)0); each((uint32_t)0); each((int32_t)0); each((uint64_t)0); each((int64_t)0);
}
static void paramRun(ParamDevice &dev, std::shared_ptr<ParamDevice> r, bool full, unsigned ds, bool symSize) {
  auto si = std::make_shared<NoSession>();
  std::unique_ptr<ParameterObject> o;
  Outcome out = run([&] { o.reset(new ParameterObject(dev.inst, full, si, r)); });
  sym_observe("outcome", out);
  for (auto &c : r->calls) CHECK(c.session == si.get() && c.extra.empty(), "session and items of the requests");
  if (dev.errorAt == 0 || dev.errorAt == 1) { CHECK(out == THREW_RUNTIME, "an error status is reported"); sym_reach("error status"); return; }
  if (dev.size.empty()) { CHECK(out != RETURNED && out != THREW_SYSTEM, "a truncated size is reported"); sym_reach("truncated"); return; }
  if (symSize) { if (sym_fork(dev.size[0] > dev.all.size())) { CHECK(out != RETURNED && out != THREW_SYSTEM, "a truncated reply is reported"); sym_reach("truncated"); return; } ds = (unsigned)sym_concretize(dev.size[0]); }
  RefParam w = refParam(dev.all, ds, full);
  if (!w.ok) { CHECK(out != RETURNED && out != THREW_SYSTEM, "a truncated reply is reported"); sym_reach("truncated"); return; }
  bool scaled = full && w.scalable;
  if (scaled) {
    if (dev.errorAt >= 2 && dev.errorAt <= 5) { CHECK(out == THREW_RUNTIME, "an error status of a scaling attribute is reported"); sym_reach("error status"); return; }
    for (auto &s : dev.scale) if (s.size() < 2) { CHECK(out != RETURNED && out != THREW_SYSTEM, "a truncated scaling attribute is reported"); sym_reach("truncated"); return; }
  }
  CHECK(out == RETURNED, "complete replies are accepted");
  CHECK(o->getInstanceId() == dev.inst, "instance");
  CHECK(o->getParameter() == dev.inst, "number of the parameter");
  CHECK(o->hasFullAttributes() == full, "full attributes");
  CHECK(o->isScalable() == w.scalable, "scalable");
  CHECK(o->isReadOnly() == w.readOnly, "read only");
  CHECK((uint8_t)o->getType() == w.type, "type");
  checkText(o->getName(), w.name, "name");
  checkText(o->getUnits(), w.units, "units");
  checkText(o->getHelp(), w.help, "help");
  checkValues(*o, ds, w.value, w.mn, w.mx, w.def, full);
  CHECK(o->getScalingMultiplier() == (scaled ? rd(dev.scale[0].data(), 2) : 1), "multiplier");
  CHECK(o->getScalingDivisor() == (scaled ? rd(dev.scale[1].data(), 2) : 1), "divisor");
  CHECK(o->getScalingBase() == (scaled ? rd(dev.scale[2].data(), 2) : 1), "base");
  CHECK(o->getScalingOffset() == (scaled ? (int16_t)rd(dev.scale[3].data(), 2) : 0), "offset");
  CHECK(o->getPrecision() == (scaled ? w.precision : 0), "precision");
  sym_reach(scaled ? "read with scaling" : full ? "read in full" : "read");
  // updating
  for (unsigned i = 0; i < 2; ++i) {
    Bytes nv = sym_vec(ds + (unsigned)sym_arg(3) , "new_value");
    if (sym_arg(4) && ds && !i) nv.resize(ds - 1);
    dev.value = nv;
    r->value = nv;
    Outcome u = run([&] { o->updateValue(si); });
    CHECK(r->calls.back().path.size() == 12 && rd(&r->calls.back().path[10], 2) == 1, "request updating the value");
    if (dev.errorAt == 6) { CHECK(u == THREW_RUNTIME, "an error status of the value is reported"); sym_reach("update error"); }
    else if (nv.size() < ds) { CHECK(u != RETURNED && u != THREW_SYSTEM, "a truncated value is reported"); sym_reach("update truncated"); }
    else { CHECK(u == RETURNED, "updating succeeds"); w.value = Bytes(nv.begin(), nv.begin() + ds); sym_reach("updated"); }
    checkValues(*o, ds, w.value, w.mn, w.mx, w.def, full);
    CHECK((uint8_t)o->getType() == w.type && o->isScalable() == w.scalable && o->isReadOnly() == w.readOnly, "flags after updating");
    checkText(o->getName(), w.name, "name after updating");
    checkText(o->getUnits(), w.units, "units after updating");
    checkText(o->getHelp(), w.help, "help after updating");
    CHECK(o->getScalingMultiplier() == (scaled ? rd(dev.scale[0].data(), 2) : 1) && o->getScalingOffset() == (scaled ? (int16_t)rd(dev.scale[3].data(), 2) : 0) && o->getPrecision() == (scaled ? w.precision : 0), "scaling after updating");
  }
}
extern "C" void h_C23() {  // args: data size, link bytes, full, extra bytes of the new value, 1 = first update truncated, name, units, help lengths, error at (+1), tail: 0 exact, 1 two more, 2 every truncation, 3 scaling replies of any length to 3
  unsigned ds = (unsigned)sym_arg(0), link = (unsigned)sym_arg(1); bool full = sym_arg(2) != 0;
  auto r = std::make_shared<ParamDevice>();
  ParamDevice &dev = *r;
  dev.inst = sym_u16("instance");
  dev.size = Bytes{(uint8_t)ds};
  auto sv = [&](unsigned n, const char *l) { cat(dev.all, sym_vec(n, l)); };
  sv(ds, "value"); dev.all.push_back((uint8_t)link); sv(link, "link"); sv(2, "descriptor"); sv(1, "type");
  if (full) {
    dev.all.push_back((uint8_t)ds);
    for (unsigned i = 5; i < 8; ++i) { dev.all.push_back((uint8_t)sym_arg(i)); sv((unsigned)sym_arg(i), "text"); }
    sv(3 * ds, "limits"); sv(17, "scaling");
  }
  dev.errorAt = (int)sym_arg(8) - 1;
  if (dev.errorAt >= 0) { dev.error = sym_u8("status"); ASSUME(dev.error != 0); }
  unsigned tail = (unsigned)sym_arg(9);
  if (tail == 1) { sv(2, "more"); cat(dev.size, sym_vec(3, "more")); }
  if (tail == 2) dev.all.resize(sym_choice((unsigned)dev.all.size() + 1, "cut"));
  for (auto &s : dev.scale) s = sym_vec(tail == 3 ? sym_choice(4, "scaling_length") : tail == 1 ? 4 : 2, "scaling_attribute");
  paramRun(dev, r, full, ds, false);
}
extern "C" void h_C23_any() {             // args: bytes of the reply with all attributes, bytes of the reply with the size, full
  auto r = std::make_shared<ParamDevice>();
  ParamDevice &dev = *r;
  dev.inst = sym_u16("instance");
  dev.all = sym_vec((unsigned)sym_arg(0), "all");
  dev.size = sym_vec((unsigned)sym_arg(1), "size");
  for (auto &s : dev.scale) s = sym_vec(2, "scaling_attribute");
  paramRun(dev, r, sym_arg(2) != 0, 0, true);
}
// Two parameters side by side, of different shapes.  args: size of the first, of the second, full (bit 0 first, bit 1 second)
extern "C" void h_C23_two() {
  auto si = std::make_shared<NoSession>();
  std::shared_ptr<ParamDevice> r[2]; std::unique_ptr<ParameterObject> o[2]; RefParam w[2]; unsigned ds[2]; bool full[2];
  for (unsigned i = 0; i < 2; ++i) {
    r[i] = std::make_shared<ParamDevice>();
    ParamDevice &dev = *r[i];
    ds[i] = (unsigned)sym_arg((int)i); full[i] = sym_arg(2) >> i & 1;
    dev.inst = sym_u16("instance");
    dev.size = Bytes{(uint8_t)ds[i]};
    cat(dev.all, sym_vec(ds[i], "value")); dev.all.push_back(2); cat(dev.all, sym_vec(2, "link")); cat(dev.all, sym_vec(2, "descriptor")); cat(dev.all, sym_vec(1, "type"));
    if (full[i]) {
      dev.all.push_back((uint8_t)ds[i]);
      for (unsigned k = 0; k < 3; ++k) { dev.all.push_back((uint8_t)(k + i)); cat(dev.all, sym_vec(k + i, "text")); }
      cat(dev.all, sym_vec(3 * ds[i] + 17, "limits"));
    }
    for (auto &x : dev.scale) x = sym_vec(2, "scaling_attribute");
    Outcome out = run([&] { o[i].reset(new ParameterObject(dev.inst, full[i], si, r[i])); });
    CHECK(out == RETURNED, "complete replies are accepted");
    w[i] = refParam(dev.all, ds[i], full[i]);
  }
  auto look = [&](unsigned i) {
    bool scaled = full[i] && w[i].scalable;
    checkValues(*o[i], ds[i], w[i].value, w[i].mn, w[i].mx, w[i].def, full[i]);
    CHECK(o[i]->getInstanceId() == r[i]->inst && o[i]->hasFullAttributes() == full[i] && o[i]->isScalable() == w[i].scalable && o[i]->isReadOnly() == w[i].readOnly && (uint8_t)o[i]->getType() == w[i].type, "its own flags");
    checkText(o[i]->getName(), w[i].name, "its own name"); checkText(o[i]->getUnits(), w[i].units, "its own units"); checkText(o[i]->getHelp(), w[i].help, "its own help");
    CHECK(o[i]->getScalingMultiplier() == (scaled ? rd(r[i]->scale[0].data(), 2) : 1) && o[i]->getScalingDivisor() == (scaled ? rd(r[i]->scale[1].data(), 2) : 1) && o[i]->getScalingBase() == (scaled ? rd(r[i]->scale[2].data(), 2) : 1), "its own scaling");
    CHECK(o[i]->getScalingOffset() == (scaled ? (int16_t)rd(r[i]->scale[3].data(), 2) : 0) && o[i]->getPrecision() == (scaled ? w[i].precision : 0), "its own offset and precision");
  };
  look(0); look(1);
  unsigned order = sym_choice(4, "updates");
  for (unsigned k = 0; k < 2; ++k) {
    unsigned i = order >> k & 1;
    r[i]->value = w[i].value = sym_vec(ds[i], "new_value");
    CHECK(run([&] { o[i]->updateValue(si); }) == RETURNED, "updating succeeds");
    look(0); look(1);
  }
  sym_reach("side by side");
}

// ---- C24 ----
static double p10(unsigned p) { double v = 1; for (unsigned i = 0; i < p; ++i) v *= 10; return v; }
struct Scale { uint16_t m, d, b; int16_t o; unsigned p; };
static double toEng(double v, const Scale &s) { return (v + s.o) * s.m * s.b / (s.d * p10(s.p)); }
static double toActual(double e, const Scale &s) { return e * s.d * p10(s.p) / ((double)s.m * s.b) - s.o; }
static void setScale(ParameterObject &o, const Scale &s, unsigned order) {
  for (unsigned i = 0; i < 6; ++i) switch ((i * (order ? 5 : 1) + order) % 6) {
    case 0: o.setScalable(true); break;
    case 1: o.setScalingMultiplier(s.m); break;
    case 2: o.setScalingDivisor(s.d); break;
    case 3: o.setScalingBase(s.b); break;
    case 4: o.setScalingOffset(s.o); break;
    default: o.setPrecision((uint8_t)s.p);
  }
}
static uint64_t bits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
extern "C" void h_C24_formula() {         // args: precision, order of the setters
  Scale s{sym_u16("multiplier"), sym_u16("divisor"), sym_u16("base"), (int16_t)sym_u16("offset"), (unsigned)sym_arg(0)};
  ASSUME(s.m != 0); ASSUME(s.d != 0); ASSUME(s.b != 0);
  ParameterObject o(sym_u16("instance"), true, 4);
  setScale(o, s, (unsigned)sym_arg(1));
  CHECK(o.isScalable(), "scalable");
  CHECK(o.getScalingMultiplier() == s.m && o.getScalingDivisor() == s.d && o.getScalingBase() == s.b && o.getScalingOffset() == s.o && o.getPrecision() == s.p, "scaling attributes");
  double v = (double)(int32_t)sym_u32("value") / 8;
  sym_check_real(o.actualToEngValue(v), toEng(v, s), 0, "actual to engineering value");
  sym_check_real(o.engToActualValue(v), toActual(v, s), 0, "engineering to actual value");
  sym_check_real(o.engToActualValue(o.actualToEngValue(v)), v, 0, "there and back");
  sym_check_real(o.actualToEngValue(o.engToActualValue(v)), v, 0, "back and there");
  o.setScalable(false);
  CHECK(bits(o.actualToEngValue(v)) == bits(v), "not scalable: unchanged");
  CHECK(bits(o.engToActualValue(v)) == bits(v), "not scalable: unchanged back");
  sym_reach("formula");
}
template <class T> static std::unique_ptr<ParameterObject> readParam(const Scale &s, const Bytes &val, const Bytes &mn, const Bytes &mx, const Bytes &def, bool scalable) {
  auto r = std::make_shared<ParamDevice>();
  r->inst = 12; r->size = Bytes{sizeof(T)};
  cat(r->all, val); cat(r->all, Bytes{0, (uint8_t)(scalable ? 4 : 0), 0, 0xc6, sizeof(T), 0, 0, 0}); cat(r->all, mn); cat(r->all, mx); cat(r->all, def);
  cat(r->all, Bytes(16, 0)); r->all.push_back((uint8_t)s.p);
  le(r->scale[0], s.m, 2); le(r->scale[1], s.d, 2); le(r->scale[2], s.b, 2); le(r->scale[3], (uint16_t)s.o, 2);
  return std::unique_ptr<ParameterObject>(new ParameterObject(12, true, std::make_shared<NoSession>(), r));
}
template <class T> static void engGet() {
  Scale s{sym_u16("multiplier"), sym_u16("divisor"), sym_u16("base"), (int16_t)sym_u16("offset"), (unsigned)sym_arg(1)};
  ASSUME(s.m != 0); ASSUME(s.d != 0); ASSUME(s.b != 0);
  Bytes v = sym_vec(sizeof(T), "value"), mn = sym_vec(sizeof(T), "min"), mx = sym_vec(sizeof(T), "max"), def = sym_vec(sizeof(T), "default");
  std::unique_ptr<ParameterObject> o = readParam<T>(s, v, mn, mx, def, true);
  sym_check_real(o->getEngValue<T>(), toEng((double)as<T>(v), s), 0, "value in engineering units");
  sym_check_real(o->getEngMinValue<T>(), toEng((double)as<T>(mn), s), 0, "minimum in engineering units");
  sym_check_real(o->getEngMaxValue<T>(), toEng((double)as<T>(mx), s), 0, "maximum in engineering units");
  sym_check_real(o->getEngDefaultValue<T>(), toEng((double)as<T>(def), s), 0, "default in engineering units");
  sym_check_real(o->getEngValue<T>(), toEng((double)as<T>(v), s), 0, "value in engineering units, read again");
  std::unique_ptr<ParameterObject> q = readParam<T>(s, v, mn, mx, def, false);
  CHECK(bits(q->getEngValue<T>()) == bits((double)as<T>(v)) && bits(q->getEngMinValue<T>()) == bits((double)as<T>(mn)) && bits(q->getEngMaxValue<T>()) == bits((double)as<T>(mx)) && bits(q->getEngDefaultValue<T>()) == bits((double)as<T>(def)), "not scalable: values unchanged");
  sym_reach("read in engineering units");
}
// Setting one limit in engineering units: stored as the actual value, rounded to an integer; the others stay.
template <class T> static void engSet() {
  static const Scale S[] = {{1, 1, 1, 0, 0}, {1, 1, 1, 0, 2}, {2, 3, 1, 0, 1}, {1, 1, 5, -7, 0}, {3, 7, 2, 100, 1}, {1, 10, 1, -32768, 0}, {65535, 1, 65535, 32767, 4}};
  const Scale s = S[sym_arg(1)];
  int32_t num = (int32_t)sym_u32("x");
  int32_t x2 = (int32_t)sym_u32("y");
  const unsigned q = (unsigned)sym_arg(2);               // which limit is set first, second
  // actual = x / 8 * d * 10^p / (m b) - o must be a value of T, with room for rounding
  int64_t p = 1; for (unsigned i = 0; i < s.p; ++i) p *= 10;
  const int64_t mb = (int64_t)s.m * s.b * 8;
  auto inside = [&](int32_t x, bool scaled) {
    const int64_t lo = sizeof(T) == 8 ? (int64_t)-1e15 : (int64_t)std::numeric_limits<T>::min(), hi = sizeof(T) == 8 ? (int64_t)1e15 : (int64_t)std::numeric_limits<T>::max();
    const int64_t l = std::numeric_limits<T>::min() == 0 ? 0 : lo;
    if (!scaled) { ASSUME((int64_t)x >= l * 8); ASSUME((int64_t)x <= hi * 8); return; }
    if (s.m == 65535) { ASSUME(x >= -1000000); ASSUME(x <= 1000000); if (sizeof(T) == 1 || l == 0) sym_kill(); return; }
    ASSUME((int64_t)x * s.d * p >= (l + s.o) * mb);
    if (hi < ((int64_t)1 << 33)) ASSUME((int64_t)x * s.d * p <= (hi + s.o) * mb);
  };
  Bytes v = sym_vec(sizeof(T), "value"), lim[3] = {sym_vec(sizeof(T), "min"), sym_vec(sizeof(T), "max"), sym_vec(sizeof(T), "default")};
  const bool scaled = sym_arg(3) != 0;
  std::unique_ptr<ParameterObject> o = readParam<T>(s, v, lim[0], lim[1], lim[2], scaled);
  inside(num, scaled); inside(x2, scaled);
  double e[3]; bool set[3] = {};
  for (unsigned i = 0; i < 2; ++i) {
    unsigned k = i ? q / 3 : q % 3; double x = (double)(i ? x2 : num) / 8;
    if (k == 0) o->setEngMinValue<T>(x); else if (k == 1) o->setEngMaxValue<T>(x); else o->setEngDefaultValue<T>(x);
    e[k] = x; set[k] = true;
    CHECK(o->getActualValue<T>() == as<T>(v), "setting a limit keeps the value");
    for (unsigned j = 0; j < 3; ++j) {
      T got = j == 0 ? o->getMinValue<T>() : j == 1 ? o->getMaxValue<T>() : o->getDefaultValue<T>();
      if (set[j]) sym_check_real((double)got, scaled ? toActual(e[j], s) : e[j], 1, "limit set in engineering units");
      else CHECK(got == as<T>(lim[j]), "setting a limit keeps the other ones");
    }
  }
  sym_reach("set in engineering units");
}
#define TYPES(F) switch (sym_arg(0)) { case 0: F<int8_t>(); break; case 1: F<uint8_t>(); break; case 2: F<int16_t>(); break; case 3: F<uint16_t>(); break; case 4: F<int32_t>(); break; case 5: F<uint32_t>(); break; case 6: F<int64_t>(); break; default: F<uint64_t>(); }
extern "C" void h_C24_get() { TYPES(engGet) }    // args: type, precision
extern "C" void h_C24_set() { TYPES(engSet) }    // args: type, scaling, which limits, scalable

// ---- C28 ----
extern "C" void h_C28_record() {          // args: bytes in the reply, 1 = error status
  unsigned n = (unsigned)sym_arg(0);
  uint16_t inst = sym_u16("instance");
  uint8_t status = 0;
  if (sym_arg(1)) { status = sym_u8("status"); ASSUME(status != 0); }
  Bytes d = sym_vec(n, "reply");
  auto r = std::make_shared<ScriptRouter>();
  r->replies.push_back(mrReply(0x0e, status, d));
  auto si = std::make_shared<NoSession>();
  std::unique_ptr<DPIFaultObject> o;
  Outcome out = run([&] { o.reset(new DPIFaultObject(inst, si, r)); });
  CHECK(r->calls.size() == 1, "one request");
  checkCall(r->calls[0], 0x0e, 3, 0x97, inst, 0, si.get());
  CHECK(r->calls[0].data.empty(), "data of the request");
  if (sym_arg(1)) { CHECK(out == THREW_RUNTIME, "an error status is reported"); sym_reach("error status"); return; }
  if (n < 30) { CHECK(out == THREW_RUNTIME || out == THREW_STD, "a truncated record is reported"); sym_reach("truncated"); return; }
  CHECK(out == RETURNED, "a complete record is accepted");
  auto &f = o->getFullInformation();
  CHECK(o->getInstanceId() == inst, "instance");
  CHECK(f.faultCode == rd(&d[0], 2), "code");
  CHECK(f.dsiPort == d[2], "port");
  CHECK(f.dsiDeviceObject == d[3], "device object");
  checkText(f.faultText.toStdString(), Bytes(d.begin() + 4, d.begin() + 20), "text");
  CHECK(f.timerValue == rd(&d[20], 8), "timer");
  CHECK(f.isValidData == ((d[28] & 1) != 0), "valid data");
  CHECK(f.isRealTime == ((d[28] & 2) != 0), "real time");
  sym_reach("read");
}
// Several records in a row.   args: bytes of each reply
extern "C" void h_C28_many() {
  auto si = std::make_shared<NoSession>();
  std::unique_ptr<DPIFaultObject> o[3]; Bytes d[3]; uint16_t inst[3];
  auto r = std::make_shared<ScriptRouter>();
  for (unsigned i = 0; i < 3; ++i) {
    inst[i] = sym_u16("instance");
    d[i] = sym_vec((unsigned)sym_arg((int)i), "reply");
    r->replies.push_back(mrReply(0x0e, 0, d[i]));
    Outcome out = run([&] { o[i].reset(new DPIFaultObject(inst[i], si, r)); });
    CHECK((out == RETURNED) == (d[i].size() >= 30), "accepted when complete");
    CHECK(r->calls.size() == i + 1, "one request each");
    checkCall(r->calls[i], 0x0e, 3, 0x97, inst[i], 0, si.get());
  }
  for (unsigned i = 0; i < 3; ++i) {
    if (d[i].size() < 30) continue;
    auto &f = o[i]->getFullInformation();
    CHECK(o[i]->getInstanceId() == inst[i] && f.faultCode == rd(&d[i][0], 2) && f.dsiPort == d[i][2] && f.dsiDeviceObject == d[i][3], "its own numbers");
    checkText(f.faultText.toStdString(), Bytes(d[i].begin() + 4, d[i].begin() + 20), "its own text");
    CHECK(f.timerValue == rd(&d[i][20], 8) && f.isValidData == ((d[i][28] & 1) != 0) && f.isRealTime == ((d[i][28] & 2) != 0), "its own timer and flags");
  }
  sym_reach("several");
}
struct RefFault { int code, type; const char *text, *description; };
static const RefFault faults[] = {
#include "faults.inc"
};
static const unsigned NFAULTS = sizeof faults / sizeof *faults;
extern "C" void h_C28_codes() {           // every 32-bit code at once
  int code = (int)sym_u32("code");
  DPIFaultCode::FaultDescriptions f;
  DPIFaultCode c(code);
  Outcome out = run([&] { f = c.getFaultDescription(); });
  for (auto &w : faults)
    if (sym_fork(code == w.code)) {
      CHECK(out == RETURNED, "a code of the table is known");
      CHECK(f.faultType == w.type, "type of a fault");
      CHECK(f.faultText == w.text, "text of a fault");
      CHECK(f.faultDescription == w.description, "description of a fault");
      CHECK(run([&] { f = c.getFaultDescription(); }) == RETURNED && f.faultText == w.text, "asked again");
      sym_reach("known code");
      return;
    }
  CHECK(out == THREW_RUNTIME, "an unknown code is refused");
  sym_reach("unknown code");
}

// ---- C27 ----
struct Drive : MockRouter {
  uint16_t code[11], volts[11], current[11], freq[11];
  unsigned failAt = 1000, shortAt = 1000, shortLen = 0, extra = 0;  // request number
  uint8_t status = 0;
  mutable unsigned read[4][11] = {};
  mutable unsigned clears = 0, n = 0;
  Bytes answer(const Call &c, std::vector<eip::CommonPacketItem> &) const override {
    unsigned k = n++;
    CHECK(c.extra.empty(), "additional items of a request");
    uint8_t st = k == failAt ? status : 0;
    if (c.service == 0x10) {
      checkBytes(c.path, pathImage(3, 0x97, 0, 3, false), "path of a command");
      checkBytes(c.data, Bytes{2}, "clear command");
      clears++;
      return mrReply(c.service, st, {});
    }
    CHECK(c.service == 0x0e, "service reading a fault");
    CHECK(c.path.size() == 12 && c.data.empty(), "request reading a fault");
    unsigned p = (unsigned)sym_concretize(rd(&c.path[6], 2));
    checkBytes(c.path, pathImage(3, 0x0f, (uint16_t)p, 1, false), "path reading a fault");
    const uint16_t *v = nullptr; unsigned what = 0, f = 0;
    if (p >= 7 && p <= 9) { what = 0; f = p - 6; } else if (p >= 604 && p <= 610) { what = 0; f = p - 600; }
    else if (p >= 651 && p <= 660) { what = 1; f = p - 650; } else if (p >= 641 && p <= 650) { what = 2; f = p - 640; } else if (p >= 631 && p <= 640) { what = 3; f = p - 630; }
    else sym_fail("a parameter that describes no fault is read");
    v = what == 0 ? code : what == 1 ? volts : what == 2 ? current : freq;
    if (++read[what][f] > 1) sym_fail("an entry is read twice");
    for (unsigned i = 1; i < f; ++i) CHECK(read[0][i] == 1, "entries are read upwards");
    CHECK(clears == 0, "entries are read before clearing");
    Bytes d; le(d, v[f], 2);
    cat(d, Bytes(extra, 0x55));
    if (k == shortAt) d.resize(shortLen);
    return mrReply(c.service, st, d);
  }
};

extern "C" void h_C27() {  // args: faults present, clear, details, listener, mode: 0 plain, 1 request N fails, 2 reply N short, 3 entry of unknown code, 4 every code of the first entry, 5 longer replies ; N
  unsigned k = (unsigned)sym_arg(0), mode = (unsigned)sym_arg(4), N = (unsigned)sym_arg(5);
  bool clear = sym_arg(1) != 0, details = sym_arg(2) != 0, listens = sym_arg(3) != 0;
  auto r = std::make_shared<Drive>();
  for (unsigned i = 1; i <= 10; ++i) {
    r->code[i] = i <= k ? (uint16_t)faults[1 + (i * 7 + k) % (NFAULTS - 1)].code : i == k + 1 ? 0 : sym_u16("later_code");
    r->volts[i] = sym_u16("volts"); r->current[i] = sym_u16("current"); r->freq[i] = sym_u16("frequency");
  }
  unsigned unknown = 100;
  if (mode == 3) { r->code[N] = sym_choice(2, "unknown") ? 1 : 65535; unknown = N; }
  if (mode == 4) { r->code[1] = sym_u16("code"); }
  if (mode == 5) r->extra = N;
  if (mode == 1) { r->failAt = N; r->status = sym_u8("status"); ASSUME(r->status != 0); }
  if (mode == 2) { r->shortAt = N; r->shortLen = sym_choice(2, "short"); }
  auto si = std::make_shared<NoSession>();
  std::vector<DPIFaultParameter::FullInformation> seen;
  DPIFaultManager m(clear, sym_choice(2, "reset"), details);
  if (sym_arg(3) != 2) m.setNewFaultListener([&](const DPIFaultParameter &f) {
    CHECK(r->clears == 0, "reports come before clearing");
    seen.push_back(f.getFullInformation());
    CHECK(f.getFaultDetails().faultNumber == (int)seen.size(), "number of a reported fault");
    for (unsigned i = (unsigned)seen.size() + 1; i <= 10; ++i) CHECK(r->read[0][i] == 0, "a fault is reported before the next one is read");
  });
  Outcome out = run([&] { m.handleFaultParameters(si, r); });
  sym_observe("outcome", out);
  for (auto &c : r->calls) CHECK(c.session == si.get(), "session of the requests");
  // what should have happened
  unsigned req = 0, expect = 0; bool error = false, done = false;
  auto step = [&] { unsigned q = req++; if (q == r->failAt || q == r->shortAt) error = true; return !error; };
  for (unsigned i = 1; i <= 10 && !done && !error; ++i) {
    if (!step()) break;
    if (mode == 4 && i == 1) {
      if (sym_fork(r->code[1] == 0)) { done = true; break; }
      bool known = false;
      for (unsigned j = 1; j < NFAULTS && !known; ++j) known = sym_fork(r->code[1] == faults[j].code);
      if (!known) unknown = 1;
    } else if (r->code[i] == 0) { done = true; break; }
    if (details && !(step() && step() && step())) break;
    if (i == unknown) { error = true; break; }
    expect++;
  }
  if (listens && sym_arg(3) != 2) CHECK(seen.size() == expect, "every fault is reported once");
  for (unsigned i = 0; i < seen.size(); ++i) {
    auto &d = seen[i].faultDetails;
    CHECK(d.faultNumber == (int)i + 1, "number of a fault");
    CHECK(d.faultCode == r->code[i + 1], "code of a fault");
    if (details) {
      sym_check_real(d.busVoltage, r->volts[i + 1], 0, "voltage of a fault");
      sym_check_real(d.current, r->current[i + 1] / 100.0, 0, "current of a fault");
      sym_check_real(d.frequency, r->freq[i + 1] / 100.0, 0, "frequency of a fault");
    } else CHECK(d.busVoltage == 0 && d.current == 0 && d.frequency == 0, "no details");
    int code = (int)sym_concretize(d.faultCode);
    for (auto &w : faults) if (w.code == code) CHECK(seen[i].faultDescription.faultText == w.text && seen[i].faultDescription.faultDescription == w.description && seen[i].faultDescription.faultType == w.type, "description of a fault");
  }
  if (error) { CHECK(out != RETURNED && out != THREW_SYSTEM, "an error ends the handling"); CHECK(mode == 2 || out == THREW_RUNTIME, "an error status is reported"); CHECK(r->clears == 0, "no clearing after an error"); sym_reach("error"); return; }
  bool clears = clear && expect > 0;
  if (clears && !step()) { CHECK(out == THREW_RUNTIME, "an error status of the clear command is reported"); CHECK(r->clears == 1, "clear command sent once"); sym_reach("clear refused"); return; }
  CHECK(out == RETURNED, "handling ends normally");
  CHECK(r->clears == (clears ? 1u : 0u), "clear command");
  CHECK(r->n == req, "number of requests");
  sym_reach(clears ? "cleared" : "not cleared");
}
// One manager handles the faults of two drives, one after the other.   args: faults of the first, of the second, clear, details, 1 = the first fails at its last request
extern "C" void h_C27_twice() {
  unsigned k[2] = {(unsigned)sym_arg(0), (unsigned)sym_arg(1)};
  bool clear = sym_arg(2) != 0, details = sym_arg(3) != 0, fails = sym_arg(4) != 0;
  auto si = std::make_shared<NoSession>();
  std::shared_ptr<Drive> r[2];
  DPIFaultManager m(clear, false, details);
  std::vector<DPIFaultParameter::FullInformation> seen;
  m.setNewFaultListener([&](const DPIFaultParameter &f) { seen.push_back(f.getFullInformation()); });
  for (unsigned t = 0; t < 2; ++t) {
    seen.clear();
    r[t] = std::make_shared<Drive>();
    for (unsigned i = 1; i <= 10; ++i) {
      r[t]->code[i] = i <= k[t] ? (uint16_t)faults[1 + (i * 5 + t) % (NFAULTS - 1)].code : i == k[t] + 1 ? 0 : sym_u16("later_code");
      r[t]->volts[i] = sym_u16("volts"); r[t]->current[i] = sym_u16("current"); r[t]->freq[i] = sym_u16("frequency");
    }
    unsigned total = k[t] * (details ? 4 : 1) + (k[t] < 10 ? 1 : 0);
    bool bad = fails && t == 0;
    if (bad) { r[t]->failAt = total - 1; r[t]->status = sym_u8("status"); ASSUME(r[t]->status != 0); }
    Outcome out = run([&] { m.handleFaultParameters(si, r[t]); });
    CHECK((out == RETURNED) == !bad, "ends normally unless a request fails");
    CHECK(r[t]->clears == (clear && k[t] && !bad ? 1u : 0u), "clear command");
    CHECK(r[t]->n == total + r[t]->clears, "number of requests");
    size_t expect = bad && k[t] == 10 ? 9 : k[t];
    CHECK(seen.size() == expect, "every fault of this drive is reported once");
    for (unsigned i = 0; i < seen.size() && i < 10; ++i) {
      auto &d = seen[i].faultDetails;
      CHECK(d.faultNumber == (int)i + 1 && d.faultCode == r[t]->code[i + 1], "number and code of a fault");
      if (details) {
        sym_check_real(d.busVoltage, r[t]->volts[i + 1], 0, "voltage of a fault");
        sym_check_real(d.current, r[t]->current[i + 1] / 100.0, 0, "current of a fault");
        sym_check_real(d.frequency, r[t]->freq[i + 1] / 100.0, 0, "frequency of a fault");
      }
    }
  }
  sym_reach("twice");
}
extern "C" void h_C27_command() {         // arg: command
  uint8_t st = sym_choice(2, "fails") ? sym_u8("status") : 0;
  auto r = std::make_shared<ScriptRouter>();
  r->replies.push_back(mrReply(0x10, st, {}));
  auto si = std::make_shared<NoSession>();
  DPIFaultManager m;
  Outcome out = run([&] { m.writeCommand((DPIFaultManagerCommands)sym_arg(0), si, r); });
  CHECK(r->calls.size() == 1, "one request");
  checkCall(r->calls[0], 0x10, 3, 0x97, 0, 3, si.get());
  checkBytes(r->calls[0].data, Bytes{(uint8_t)sym_arg(0)}, "command");
  if (sym_fork(st != 0)) { CHECK(out == THREW_RUNTIME, "a refused command is reported"); sym_reach("refused"); }
  else { CHECK(out == RETURNED, "an accepted command"); sym_reach("accepted"); }
}
