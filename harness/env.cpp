#include "env.h"
#include <cstring>
#include <fcntl.h>
#include <arpa/inet.h>
static Net defaultNet;
Net *net = &defaultNet;
FdInfo *Net::get(int fd) {
  for (auto &f : fds) if (f.fd == fd) { if (!f.open) badUse = true; return f.open ? &f : nullptr; }
  badUse = true;
  return nullptr;
}
int Net::openCount() { int n = 0; for (auto &f : fds) n += f.open; return n; }
long Net::send(int, const uint8_t *, size_t n, int) { return (long)n; }
long Net::sendto(int, const uint8_t *, size_t n, int, const sockaddr_in *) { return (long)n; }
long Net::recv(int, uint8_t *, size_t, int) { return 0; }
long Net::recvfrom(int fd, uint8_t *p, size_t n, int fl, sockaddr_in *) { return recv(fd, p, n, fl); }
int Net::select(int, fd_set *, fd_set *, timeval *) { return 0; }
int Net::connect(int, const sockaddr_in *) { return 0; }
int64_t Net::now() { return 0; }
uint32_t Net::random() { return 4; }
#define FAILING(name, fd) if (int e = net->fail(name, fd)) { errno = e; return -1; }
#define NEEDFD(fd) FdInfo *fi = net->get(fd); if (!fi) { errno = EBADF; return -1; }
extern "C" {
int env_socket(int, int type, int) {
  net->calls++;
  FAILING("socket", -1)
  FdInfo f; memset((void *)&f, 0, sizeof f);
  f.fd = net->firstFd + (int)net->fds.size(); f.open = true; f.dgram = type == SOCK_DGRAM;
  net->fds.push_back(f);
  return f.fd;
}
int env_close(int fd) {
  net->calls++;
  bool known = false;
  for (auto &f : net->fds) if (f.fd == fd) { known = true; f.closes++; if (!f.open) net->badUse = true; f.open = false; }
  if (!known) net->badUse = true;
  return 0;
}
int env_shutdown(int fd, int) { net->calls++; NEEDFD(fd) fi->shut = true; return 0; }
int env_fcntl(int fd, int cmd, long arg) {
  net->calls++;
  NEEDFD(fd)
  FAILING(cmd == F_GETFL ? "fcntl_get" : "fcntl_set", fd)
  if (cmd == F_GETFL) return O_RDWR | (fi->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) fi->nonblock = (arg & O_NONBLOCK) != 0;
  return 0;
}
int env_connect(int fd, const sockaddr *a, socklen_t) {
  net->calls++;
  NEEDFD(fd)
  sockaddr_in s; memcpy(&s, a, sizeof s);
  fi->peer = s;
  int e = net->connect(fd, &s);
  if (e) { errno = e; return -1; }
  fi = net->get(fd);
  fi->connected = true;
  return 0;
}
int env_bind(int fd, const sockaddr *a, socklen_t) {
  net->calls++;
  NEEDFD(fd)
  FAILING("bind", fd)
  memcpy(&fi->bound, a, sizeof(sockaddr_in)); fi->isBound = true;
  return 0;
}
int env_setsockopt(int fd, int, int opt, const void *v, socklen_t n) {
  net->calls++;
  NEEDFD(fd)
  FAILING("setsockopt", fd)
  if (opt == SO_RCVTIMEO && n == sizeof(timeval)) { timeval tv; memcpy(&tv, v, sizeof tv); fi->rcvSec = tv.tv_sec; fi->rcvUsec = tv.tv_usec; fi->rcvTimeoSet = true; }
  if (opt == SO_BROADCAST) fi->bcast = true;
  if (opt == SO_REUSEADDR) fi->reuse = true;
  return 0;
}
int env_getsockopt(int fd, int, int opt, void *v, socklen_t *) {
  net->calls++;
  NEEDFD(fd)
  FAILING("getsockopt", fd)
  int e = 0;
  if (opt == SO_ERROR) { e = net->soError(fd); if (!e) { fi = net->get(fd); fi->connected = true; } }
  memcpy(v, &e, sizeof e);
  return 0;
}
ssize_t env_send(int fd, const void *p, size_t n, int fl) { net->calls++; NEEDFD(fd) return net->send(fd, (const uint8_t *)p, n, fl); }
ssize_t env_sendto(int fd, const void *p, size_t n, int fl, const sockaddr *to, socklen_t) {
  net->calls++; NEEDFD(fd)
  if (!to) return net->send(fd, (const uint8_t *)p, n, fl);
  sockaddr_in s; memcpy(&s, to, sizeof s);
  return net->sendto(fd, (const uint8_t *)p, n, fl, &s);
}
ssize_t env_recv(int fd, void *p, size_t n, int fl) { net->calls++; NEEDFD(fd) return net->recv(fd, (uint8_t *)p, n, fl); }
ssize_t env_recvfrom(int fd, void *p, size_t n, int fl, sockaddr *from, socklen_t *len) {
  net->calls++; NEEDFD(fd)
  sockaddr_in s; memset(&s, 0, sizeof s);
  long r = net->recvfrom(fd, (uint8_t *)p, n, fl, &s);
  if (r >= 0 && from) { memcpy(from, &s, sizeof s); if (len) *len = sizeof s; }
  return r;
}
int env_select(int n, fd_set *r, fd_set *w, fd_set *, timeval *tv) { net->calls++; return net->select(n, r, w, tv); }
ssize_t env_write(int fd, const void *p, size_t n) { return env_send(fd, p, n, 0); }
ssize_t env_read(int fd, void *p, size_t n) { return env_recv(fd, p, n, 0); }
int64_t env_steady_now() { return net->now(); }
int64_t env_system_now() { return net->now(); }
uint32_t env_rd_getval(void *) { return net->random(); }
void env_rd_fini(void *) {}
void env_rd_init(void *, const void *) {}
// Text form of an address: "0.0.0.0" for the wildcard, otherwise eight letters, one per
// nibble (an injective stand-in for dotted decimal that needs no case split per digit).
static char ntoaBuf[20];
static void ntoa(uint32_t a, char *o) {
  if (a == 0) { memcpy(o, "0.0.0.0", 8); return; }
  for (int i = 0; i < 8; ++i) o[i] = (char)('A' + ((a >> (28 - 4 * i)) & 15));
  o[8] = 0;
}
char *env_inet_ntoa(in_addr a) { ntoa(ntohl(a.s_addr), ntoaBuf); return ntoaBuf; }
const char *env_inet_ntop(int, const void *src, char *dst, socklen_t) { in_addr a; memcpy(&a, src, 4); ntoa(ntohl(a.s_addr), dst); return dst; }
static int aton(const char *s, in_addr *o) {
  unsigned n = 0;
  while (s[n]) n++;
  bool letters = n == 8;
  for (unsigned i = 0; letters && i < n; ++i) { unsigned char d = (unsigned char)(s[i] - 'A'); if (d > 15) letters = false; }
  uint32_t a = 0;
  if (letters) { for (unsigned i = 0; i < 8; ++i) a = (a << 4) | (uint32_t)(unsigned char)(s[i] - 'A'); o->s_addr = htonl(a); return 1; }
  unsigned i = 0;
  for (int part = 0; part < 4; ++part) {
    uint32_t v = 0; unsigned k = 0;
    while (s[i] >= '0' && s[i] <= '9') { v = v * 10 + (uint32_t)(s[i] - '0'); if (v > 255) return 0; ++i; ++k; }
    if (!k) return 0;
    a = (a << 8) | v;
    if (part < 3) { if (s[i] != '.') return 0; ++i; }
  }
  if (s[i]) return 0;
  o->s_addr = htonl(a);
  return 1;
}
int env_inet_aton(const char *s, in_addr *o) { return aton(s, o); }
int env_inet_pton(int, const char *s, void *d) { in_addr a; int r = aton(s, &a); if (r) memcpy(d, &a, 4); return r; }
in_addr_t env_inet_addr(const char *s) { in_addr a; return aton(s, &a) ? a.s_addr : (in_addr_t)-1; }
}
