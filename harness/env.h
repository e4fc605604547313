// Model of the operating system's socket interface and clock.  The functions
// env_<call> replace <call> in the bitcode and, by symbol renaming, in the native
// replay; a harness decides their behaviour by installing a Net.
#pragma once
#include "sym.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <errno.h>
struct FdInfo { int fd; bool open; bool dgram; bool nonblock; bool connected; bool shut; int closes; sockaddr_in peer; sockaddr_in bound; bool isBound; long rcvSec, rcvUsec; bool rcvTimeoSet; bool bcast; bool reuse; };
struct Net {
  std::vector<FdInfo> fds;
  int firstFd = 5;
  int calls = 0;
  bool badUse = false;          // a call on a descriptor that is not open
  virtual ~Net() {}
  virtual int fail(const char *call, int fd) { (void)call; (void)fd; return 0; }  // errno to fail with, or 0
  virtual long send(int fd, const uint8_t *p, size_t n, int flags);
  virtual long sendto(int fd, const uint8_t *p, size_t n, int flags, const sockaddr_in *to);
  virtual long recv(int fd, uint8_t *p, size_t n, int flags);
  virtual long recvfrom(int fd, uint8_t *p, size_t n, int flags, sockaddr_in *from);
  virtual int select(int nfds, fd_set *r, fd_set *w, timeval *tv);
  virtual int connect(int fd, const sockaddr_in *a);
  virtual int soError(int fd) { (void)fd; return 0; }
  virtual int64_t now();
  virtual uint32_t random();
  FdInfo *get(int fd);
  int openCount();
};
extern Net *net;
struct UseNet { Net *old; UseNet(Net *n) : old(net) { net = n; } ~UseNet() { net = old; } };
