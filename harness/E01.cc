// Registration bookkeeping: every bounded sequence of interest changes and removals on several channels, on a real loop.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/log/logger.h"
#include <poll.h>
#include <sys/epoll.h>
using namespace kanon;
#ifndef STEPS
#define STEPS 4
#endif
static EventLoop *L; static Channel *Ch[3]; static int Fd[3]; static bool wantR[3], wantW[3]; static int nCh, steps; static bool maybe; static bool et;
static void verify(bool polled) {
  for (int i = 0; i < nCh; i++) {
    uint32_t ev = 0; bool in = k_interest(Fd[i], &ev), want = wantR[i] || wantW[i];
    if (polled) { ks_check(in == want, "a descriptor is registered exactly while its channel is interested in something");
      if (in && want) { ks_reach("registered"); ks_check(((ev & (POLLIN | POLLPRI)) != 0) == wantR[i] && ((ev & POLLOUT) != 0) == wantW[i], "the events registered are those the channel wants"); ks_check(((ev & EPOLLET) != 0) == et, "the trigger mode is that of the loop"); } }
    if (Ch[i]) ks_check(Ch[i]->IsReading() == wantR[i] && Ch[i]->IsWriting() == wantW[i] && Ch[i]->IsNoneEvent() == !want, "the channel knows its interest");
  }
  ks_check(k_epoll_bad == 0, "no kernel call refers to a descriptor that is not registered, or registers one twice"); }
static bool poller; static bool k_interest_now(int fd) { uint32_t e; return !poller && k_interest(fd, &e); }
static void make(int i) { Ch[i] = new Channel(L, Fd[i]); wantR[i] = wantW[i] = false; }
static void op() { // runs in the loop thread
  unsigned i = ks_choose(nCh, "channel"); Channel *c = Ch[i]; uint64_t what = ks_range("op", 0, 7);
  if (what == 0) { ks_reach("er"); c->EnableReading(); wantR[i] = true; }
  else if (what == 1) { ks_reach("dr"); c->DisableReading(); wantR[i] = false; }
  else if (what == 2) { ks_reach("ew"); c->EnableWriting(); wantW[i] = true; }
  else if (what == 3) { ks_reach("dw"); c->DisableWriting(); wantW[i] = false; }
  else if (what == 4) { ks_reach("none"); c->DisableAll(); wantR[i] = wantW[i] = false; }
  else if (what == 5) { if (wantR[i] || wantW[i]) { c->DisableAll(); wantR[i] = wantW[i] = false; } ks_reach("remove"); c->Remove(); }
  else if (what == 6) { // removed while interested, then used again
    if (wantR[i] || wantW[i]) ks_reach("readd"); c->Remove(); if (k_interest_now(Fd[i])) ks_check(false, "a removed channel is not registered"); c->EnableReading(); wantR[i] = true; }
  else { ks_reach("renew"); if (wantR[i] || wantW[i]) c->DisableAll(); c->Remove(); delete c; make(i); } }
static void batch() { int n = (maybe ? ks_choose(2, "batch") : 0) + 1; for (int k = 0; k < n && steps > 0; k++) { steps--; op(); if (!poller) verify(true); } }
static void *driver(void *) {
  sched_yield_all(); while (steps > 0) { L->QueueToLoop(batch); sched_yield_all(); verify(true); ks_reach("polled"); }
  L->QueueToLoop([] { for (int i = 0; i < nCh; i++) { Ch[i]->DisableAll(); Ch[i]->Remove(); delete Ch[i]; Ch[i] = nullptr; wantR[i] = wantW[i] = false; } }); sched_yield_all(); verify(true);
  L->Quit(); return nullptr; }
static void start(bool p, bool e, int n, int st) {
  SetKanonLog(false); poller = p; et = e; nCh = n; steps = st; L = new EventLoop(p); if (e) L->SetEdgeTriggerMode(); int base = k_sock(nullptr), f[3] = {base, k_sock(nullptr), k_sock(nullptr)}; for (int i = 0; i < 3; i++) k_fd[f[i]].forced = true;
  unsigned rot = ks_choose(n, "order"); for (int i = 0; i < n; i++) { Fd[i] = f[(i + rot) % n]; make(i); }
  pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); delete L; }
KS_HARNESS harness_epoll() { start(false, false, 2, STEPS); }
KS_HARNESS harness_et() { start(false, true, 2, STEPS - 1); }
KS_HARNESS harness_poll() { maybe = true; start(true, false, 2, STEPS - 1); }
KS_HARNESS harness_poll3() { start(true, false, 3, STEPS - 1); }
KS_HARNESS harness_epoll3() { start(false, false, 3, STEPS - 1); }
