SPEC = dict(harness='E04.cc', env=['net.cc'], preempt=['kanon/net/event_loop'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('pool','pool_many','pool_nocb','pool_queue','pool_run','pool_quit','thread','thread_nocb','unstarted','quit_destroy','quit_wait_destroy','functor_quits','functor_quit_race','other_quits','init_quits','init_queues','slow_start','two_threads')],
  time_quick=60, time_thorough=400, defs_thorough=['-DP=4','-DMAXN=3'],
  bounds='pools of 0..2 (thorough: 3) loops, 3 loops without preemption, one or two loop threads, up to 2-3 (thorough: 4-5) preemptions at any shared access of the loop, loop thread and pool code and at every lock, epoll and poll, 2 spurious wake-ups', outside='weak memory orders, more preemptions, set-up callbacks that throw, a pool destroyed without having been started, using a loop after it has quit')
