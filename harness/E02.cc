// Dispatch: arbitrary event masks reported for several channels; which callbacks run.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/log/logger.h"
#include <poll.h>
#include <sys/epoll.h>
using namespace kanon;
static EventLoop *L; static int n; static Channel *Ch[40]; static int Fd[40]; static int reports[40], reads[40], writes[40], errors[40], closes[40], wr[40], ww[40], we[40], wc[40]; static uint32_t got[40]; static bool hasR = true, hasW = true, hasE = true, hasC = true; static bool sticky; static int rounds; static bool inRound;
#ifndef POLLRDHUP
#define POLLRDHUP 0x2000
#endif
static void onEvent(int, int fd, uint32_t ev) {
  for (int i = 0; i < n; i++) if (Fd[i] == fd) { reports[i]++; if (!sticky) k_fd[fd].force_ev = 0;
    if (hasR && (ev & (POLLIN | POLLPRI | POLLRDHUP))) { wr[i]++; ks_reach("read"); } if (hasW && (ev & POLLOUT)) { ww[i]++; ks_reach("write"); } if (hasE && (ev & (POLLERR | POLLNVAL))) { we[i]++; ks_reach("error"); } if (hasC && (ev & POLLHUP) && !(ev & POLLIN)) { wc[i]++; ks_reach("close"); } } }
static void compare() { for (int i = 0; i < n; i++) {
  ks_check(reads[i] == wr[i], "the read callback runs once for every report of readable, urgent or half-closed, and for no other");
  ks_check(writes[i] == ww[i], "the write callback runs once for every report of writable, and for no other");
  ks_check(errors[i] == we[i], "the error callback runs once for every report of an error, and for no other");
  ks_check(closes[i] == wc[i], "the close callback runs once for every report of a hang-up with nothing to read, and for no other"); } }
static bool onWait() { compare(); return false; }
static void build(bool poll, int cnt) {
  SetKanonLog(false); n = cnt; L = new EventLoop(poll); k_on_event = onEvent; k_on_wait = onWait;
  for (int i = 0; i < n; i++) { Fd[i] = k_sock(nullptr); k_fd[Fd[i]].forced = true; Channel *c = Ch[i] = new Channel(L, Fd[i]);
    if (hasR) c->SetReadCallback([i](TimeStamp t) { reads[i]++; ks_check(t.GetMicrosecondsSinceEpoch() == k_now_us, "the receive time is that of the wake-up"); }); if (hasW) c->SetWriteCallback([i] { writes[i]++; }); if (hasE) c->SetErrorCallback([i] { errors[i]++; }); if (hasC) c->SetCloseCallback([i] { closes[i]++; }); } }
static void *(*body)(void *);
static void go() { pthread_t t; pthread_create(&t, nullptr, body, nullptr); L->StartLoop(); pthread_join(t, nullptr); compare(); for (int i = 0; i < n; i++) { Ch[i]->DisableAll(); Ch[i]->Remove(); delete Ch[i]; } delete L; }
static bool fixedInterest;
static void *masks(void *) {
  sched_yield_all();
  L->QueueToLoop([] { for (int i = 0; i < n; i++) { unsigned in = fixedInterest ? 2 : ks_choose(3, "interest"); if (in != 1) Ch[i]->EnableReading(); if (in != 0) Ch[i]->EnableWriting(); } }); sched_yield_all();
  for (int r = 0; r < rounds; r++) { bool any = false;
    for (int i = 0; i < n; i++) { k_fd[Fd[i]].force_ev = (uint32_t)ks_u("events", 16) & (POLLIN | POLLPRI | POLLOUT | POLLERR | POLLHUP | POLLNVAL | POLLRDHUP); }
    sched_yield_all(); compare(); for (int i = 0; i < n; i++) { uint32_t ev = 0; if (reports[i]) any = true; k_fd[Fd[i]].force_ev = 0; (void)ev; } if (any) ks_reach("ready"); }
  L->Quit(); return nullptr; }
KS_HARNESS harness_one() { rounds = 2; unsigned miss = ks_choose(5, "missing"); hasR = miss != 1; hasW = miss != 2; hasE = miss != 3; hasC = miss != 4; build(false, 1); body = masks; go(); }
KS_HARNESS harness_one_poll() { rounds = 2; unsigned miss = ks_choose(5, "missing"); hasR = miss != 1; hasW = miss != 2; hasE = miss != 3; hasC = miss != 4; build(true, 1); body = masks; go(); }
KS_HARNESS harness_two() { rounds = 1; k_eintr = 1; fixedInterest = true; build(false, 2); body = masks; go(); }
KS_HARNESS harness_two_poll() { rounds = 1; k_eintr = 1; fixedInterest = true; build(true, 2); body = masks; go(); }
static int tick;
static void *manyBody(void *) { // many descriptors stay ready for several rounds
  sched_yield_all(); L->QueueToLoop([] { for (int i = 0; i < n; i++) Ch[i]->EnableReading(); }); sched_yield_all();
  int k = (int)ks_range("ready", 14, 40); sticky = true; for (int i = 0; i < n; i++) if (i < k) k_fd[Fd[i]].force_ev = POLLIN;
  sched_yield_all(); L->Quit(); return nullptr; }
static void counter(int ep, int fd, uint32_t ev) {
  onEvent(ep, fd, ev); if (fd != Fd[0] || !sticky || ++tick < 4) return;
  for (int i = 1; i < n; i++) if (k_fd[Fd[i]].force_ev) ks_check(reads[i] > 0, "every ready descriptor is served within a few rounds");
  for (int i = 0; i < n; i++) k_fd[Fd[i]].force_ev = 0; sticky = false; ks_reach("many"); }
static void manyStart(bool poll) { hasW = hasE = hasC = false; build(poll, 40); k_on_event = counter; body = manyBody; go(); for (int i = 0; i < n; i++) ks_check(reads[i] == wr[i], "every report is dispatched"); }
KS_HARNESS harness_many() { manyStart(false); }
KS_HARNESS harness_many_poll() { manyStart(true); }
