// The connector: every outcome of connecting, the back-off between attempts, and what stopping and restarting do at any moment.
#include "net.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/connector.h"
#include "kanon/log/logger.h"
#include <errno.h>
#include <string.h>
#include <memory>
#include <functional>
using namespace kanon;
#ifndef STEPS
#define STEPS 3
#endif
static EventLoop *L; static std::shared_ptr<Connector> C; static std::weak_ptr<Connector> W; static int base;
// what is expected of the connector
enum { IDLE, CONN, WAIT, HANDED }; static int st, cur = -1, attempts, handed, handedFd[8], toClose = -1, handLocal; static int64_t due; static uint32_t interval = 500; static bool enabled = true, must, failed, v6; static int budget = 3; static int64_t Base = 1700000000000000;
static bool polling; static sockaddr_in6 addr; static int plan; // how attempts end: 0 any way, 1 in progress, 2 refused at once
static bool retried(int e) { return e == EAGAIN || e == EADDRNOTAVAIL || e == ENETUNREACH || e == EHOSTUNREACH || e == ECONNREFUSED || e == ETIMEDOUT; }
static bool fatal(int e) { return e == EBADF || e == EFAULT || e == ENOTSOCK || e == EAFNOSUPPORT || e == EACCES || e == EPERM || e == EINVAL || e == EPROTOTYPE; }
static void wait() { st = WAIT; due = k_now_us + (int64_t)interval * 1000; interval = interval * 2 > 30000 ? 30000 : interval * 2; }
static int onConnect(int fd, const struct sockaddr *a) {
  ks_check(L->IsLoopInThread(), "connecting happens in the loop's thread"); attempts++; ks_check(enabled, "a stopped connector doesn't connect"); ks_check(st == IDLE || st == WAIT, "one attempt at a time"); ks_check(must || st == WAIT, "a connector connects only when asked to or when the retry is due"); if (!must) { ks_reach("retry"); ks_check(k_now_us >= due, "a connector waits for the whole interval before it retries"); ks_check(k_now_us <= due + 2000, "a connector retries when the interval is over"); }
  must = false; auto *p = (sockaddr_in const *)a; auto *q = (sockaddr_in const *)&addr; if (!v6) ks_check(p->sin_family == AF_INET && p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr, "the connector connects to the server's address"); else ks_check(!memcmp(a, q, sizeof(sockaddr_in6)), "the connector connects to the server's address");
  ks_check(k_fd[fd].nonblock, "connecting doesn't block the loop"); if (budget-- <= 0) ks_assume(false);
  cur = fd; failed = false; int e = plan == 1 ? EINPROGRESS : plan == 2 ? ECONNREFUSED : (int)ks_range("errno", 0, 133);
  if (e == 0 || e == EINPROGRESS || e == EINTR) { st = CONN; ks_reach("progress"); if (e == 0) { k_fd[fd].local = k_fd[fd].peer; ((sockaddr_in *)&k_fd[fd].local)->sin_port ^= 1; } return e; }
  ks_assume(retried(e) || fatal(e)); toClose = fd; if (retried(e)) wait(); else { ks_reach("fatal"); st = IDLE; } return e; }
static void onClosed(int fd) { if (fd == toClose) { toClose = -1; return; } for (int i = 0; i < handed; i++) ks_check(handedFd[i] != fd, "a descriptor handed over is not closed by the connector"); if (fd == cur) { ks_check(st == CONN && failed, "a connecting descriptor is closed only when connecting failed or is given up"); wait(); } }
static bool selfConnected(int fd) { auto *l = (sockaddr_in *)&k_fd[fd].local, *p = (sockaddr_in *)&k_fd[fd].peer; return l->sin_port == p->sin_port && l->sin_addr.s_addr == p->sin_addr.s_addr; }
static std::function<void()> *inCallback;
static void onConnected(int fd) { ks_check(st == CONN && fd == cur && !k_fd[fd].connecting && k_fd[fd].connected && k_fd[fd].open, "a connected descriptor is handed over once"); ks_check(enabled, "a stopped connector hands nothing over"); ks_check(!failed, "a failed attempt is not handed over"); ks_check(polling || !k_watched(fd), "a descriptor handed over is no longer watched"); st = HANDED; handedFd[handed++] = fd; ks_reach("handed"); if (inCallback) (*inCallback)(); }
// ---- operations, each preceded by what it is expected to do
static void mStart() { if (enabled && (st == IDLE || st == WAIT)) { must = true; } }
static void mStop() { enabled = false; must = false; if (st == CONN) { toClose = cur; st = IDLE; } if (st == WAIT) st = IDLE; }
static void mRestart() { enabled = true; interval = 500; if (st == CONN) { toClose = cur; } st = IDLE; must = true; }
static bool inLoop; static void op(void (*m)(), void (Connector::*f)()) { auto c = C; if (inLoop) L->QueueToLoop([=] { m(); ((*c).*f)(); }); else { L->QueueToLoop(m); ((*c).*f)(); } }
static void Start() { op(mStart, &Connector::StartRun); } static void Stop() { op(mStop, &Connector::Stop); } static void Restart() { op(mRestart, &Connector::Restrat); }
static void resolve(int how) { // the kernel finishes connecting
  if (st != CONN || !k_fd[cur].connecting) { ks_assume(false); return; } auto *l = (sockaddr_in *)&k_fd[cur].local, *p = (sockaddr_in *)&k_fd[cur].peer; *l = *p;
  switch (how) { case 0: ks_reach("connected"); if (!v6) { l->sin_port = (uint16_t)ks_u("port", 16); l->sin_addr.s_addr = (uint32_t)ks_u("local", 32); if (selfConnected(cur)) { ks_reach("self"); failed = true; } } else { k_fd[cur].local = k_fd[cur].peer; if (ks_choose(2, "self")) failed = true; else k_fd[cur].local.sin6_addr.s6_addr[ks_choose(2, "byte") * 15] ^= (uint8_t)ks_range("differs", 1, 255); } k_connect_done(cur, 0); break;
  default: ks_reach("error"); failed = true; k_connect_done(cur, (int)ks_range("so_error", 1, 133)); } }
static int timer() { int fd = -1; for (int i = 10; i < k_nfd; i++) if (k_fd[i].open && k_fd[i].kind == K_TIMER && k_fd[i].armed && (fd < 0 || k_fd[i].deadline < k_fd[fd].deadline)) fd = i; return fd; }
static void settle() { for (int i = 0; i < 4; i++) sched_yield_all(); ks_check(!must, "a connector connects when it is asked to"); ks_check(toClose < 0, "the descriptor of an attempt that failed or is given up is closed"); if (st == WAIT) { int t = timer(); ks_check(t >= 0 && k_fd[t].deadline <= due + 2000, "a transient failure is retried in time"); } }
static void pass() { settle(); int t = timer(); if (t < 0) { ks_assume(false); return; } int a = attempts; bool w = st == WAIT; int64_t d = due; if (k_fd[t].deadline > k_now_us) k_now_us = k_fd[t].deadline; settle(); if (w && k_now_us >= d) ks_check(attempts == a + 1, "a transient failure is retried once"); if (!w) ks_check(attempts == a, "no attempt without a reason"); }
static void (*script)(); static void *driver(void *) { script(); L->Quit(); return nullptr; }
static void setup(bool poll = false, bool six = false) { SetKanonLog(false); k_auto_timer = false; k_now_us = Base; base = k_open_count; v6 = six; k_connect_hook = onConnect; k_on_closed = onClosed; sched_deadlock_msg = "the loop waits for ever"; L = new EventLoop(poll); C = Connector::NewConnector(L, InetAddr(80, true, six)); W = C; polling = poll; memcpy(&addr, C->GetServerAddr().ToSockaddr(), sizeof addr); C->SetNewConnectionCallback(onConnected); }
static void finish() { // in the driver: stop, drop, and see that nothing is left
  Stop(); if (ks_choose(2, "drop-first")) C.reset(); settle(); C.reset(); for (int i = 0; i < 3 && timer() >= 0; i++) pass(); ks_check(W.expired(), "nothing keeps a stopped connector alive"); }
static void go() { pthread_t t; pthread_create(&t, nullptr, driver, nullptr); L->StartLoop(); pthread_join(t, nullptr); for (int i = 0; i < handed; i++) { int fd = handedFd[i]; ks_check(k_fd[fd].open, "a descriptor handed over stays open"); handedFd[i] = -1; cur = -1; close(fd); } delete L; ks_check(k_open_count == base, "no descriptor is leaked"); ks_check(k_closed_reg <= 2, "a descriptor is removed from the loop before it is closed"); ks_reach("end"); }
static bool P() { return ks_choose(2, "poll"); }
KS_HARNESS harness_outcomes() { setup(P()); script = [] { sched_yield_all(); Start(); settle(); for (int i = 0; i < 3; i++) { if (st == CONN) { if (k_fd[cur].connecting) resolve(ks_choose(2, "how")); settle(); } if (st == WAIT) { if (i == 2) break; pass(); } if (st == HANDED || st == IDLE) break; } if (timer() < 0) { k_now_us += 100000000; settle(); } finish(); }; go(); }
KS_HARNESS harness_ipv6() { setup(false, true); budget = 2; script = [] { sched_yield_all(); plan = 1; Start(); settle(); resolve(0); settle(); if (st == WAIT) { pass(); resolve(0); settle(); } finish(); }; go(); }
KS_HARNESS harness_backoff() { setup(); budget = 50; bool async = ks_choose(2, "async"); plan = async ? 1 : 2; script = [] { sched_yield_all(); Start(); settle(); for (int i = 0; i < 40; i++) { if (st == CONN) { failed = true; k_connect_done(cur, ECONNREFUSED); settle(); } ks_check(st == WAIT, "a transient failure is retried"); if (i > 6) ks_check(due == k_now_us + 30000000, "model"); pass(); } ks_check(attempts == 41, "every failure is retried"); finish(); }; go(); }
KS_HARNESS harness_backoff_reset() { setup(); budget = 20; plan = 2; script = [] { sched_yield_all(); Start(); settle(); for (int i = 0; i < 4; i++) pass(); if (ks_choose(2, "connect")) { plan = 1; pass(); resolve(0); settle(); } Restart(); settle(); plan = 2; if (st == CONN) { failed = true; k_connect_done(cur, ETIMEDOUT); settle(); } for (int i = 0; i < 3; i++) pass(); finish(); }; go(); }
KS_HARNESS harness_descriptor_zero() { setup(P()); budget = 2; script = [] { sched_yield_all(); k_next_zero = true; Start(); settle(); if (st == CONN) { ks_check(cur == 0, "model"); if (k_fd[cur].connecting) resolve(ks_choose(2, "how")); settle(); } if (st == WAIT) { k_next_zero = true; pass(); } finish(); }; go(); }
enum { START, STOP, RESTART, OK, ERR, PASS, NACT }; static bool settleAlways;
static void act() { switch (ks_choose(NACT, "act")) { case START: Start(); break; case STOP: Stop(); break; case RESTART: ks_reach("restart"); Restart(); break; case OK: resolve(0); break; case ERR: resolve(1); break; default: pass(); } }
static void history(int p, bool il) { setup(P()); plan = p; inLoop = il; budget = STEPS + 1; script = [] { sched_yield_all(); Start(); for (int i = 0; i < STEPS; i++) { if (ks_choose(2, "settle")) settle(); act(); } settle(); finish(); }; go(); }
KS_HARNESS harness_history() { history(1, false); } KS_HARNESS harness_history_refused() { history(2, false); } KS_HARNESS harness_history_in_loop() { history(1, true); }
KS_HARNESS harness_in_callback() { setup(); plan = 1; static int what; what = ks_choose(3, "what"); static std::function<void()> f = [] { inCallback = nullptr; switch (what) { case 0: mStop(); C->Stop(); break; case 1: st = IDLE; mRestart(); C->Restrat(); break; default: mStart(); C->StartRun(); } }; inCallback = &f; script = [] { sched_yield_all(); Start(); settle(); resolve(0); settle(); if (st == CONN && k_fd[cur].connecting) { resolve(ks_choose(2, "how")); settle(); } finish(); }; go(); }
KS_HARNESS harness_nobody() { setup(); plan = 1; C->SetNewConnectionCallback(nullptr); script = [] { sched_yield_all(); Start(); settle(); int fd = cur; k_fd[fd].local = k_fd[fd].peer; ((sockaddr_in *)&k_fd[fd].local)->sin_port ^= 1; toClose = fd; k_connect_done(fd, 0); settle(); st = HANDED; finish(); }; go(); }
KS_HARNESS harness_dropped() { // the owner goes away without stopping the connector
  setup(); plan = 2; budget = 3; script = [] { sched_yield_all(); Start(); if (ks_choose(2, "settle")) { settle(); if (ks_choose(2, "pass")) pass(); } C->GetServerAddr(); if (st == WAIT) { enabled = false; C.reset(); } else { sched_yield_all(); enabled = false; C.reset(); } st = IDLE; k_now_us += 60000000; for (int i = 0; i < 3; i++) sched_yield_all(); ks_check(W.expired(), "nothing keeps a dropped connector alive"); }; go(); }
KS_HARNESS harness_stop_at_once() { setup(P()); plan = ks_choose(3, "plan"); script = [] { sched_yield_all(); Start(); Stop(); if (ks_choose(2, "again")) { Start(); } if (ks_choose(2, "drop")) C.reset(); settle(); if (C) finish(); ks_check(W.expired(), "nothing keeps a stopped connector alive"); }; go(); }
KS_HARNESS harness_other_channel() { // another descriptor's callback stops or restarts the connector in the same round in which connecting finishes
  setup(P()); plan = 1; static int fd; fd = k_sock((char *)ks_lazy(64, "in")); auto *ch = new Channel(L, fd); static int what; what = ks_choose(2, "what"); static bool done; ch->SetReadCallback([ch](TimeStamp) { char b[8]; if (read(fd, b, 8)) {} if (done) return; done = true; if (what) { mRestart(); C->Restrat(); } else { mStop(); C->Stop(); } }); script = nullptr; static Channel *CH; CH = ch; L->RunInLoop([] { CH->EnableReading(); });
  script = [] { sched_yield_all(); Start(); settle(); int how = ks_choose(2, "how"); bool first = ks_choose(2, "first"); if (first) { k_deliver(fd, 1); resolve(how); } else { resolve(how); k_deliver(fd, 1); } settle(); if (st == CONN && k_fd[cur].connecting) { resolve(0); settle(); } L->QueueToLoop([] { CH->DisableAll(); CH->Remove(); }); settle(); finish(); k_fd[fd].open = 0; k_open_count--; }; go(); }
