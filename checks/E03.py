SPEC = dict(harness='E03.cc', env=['net.cc'], preempt=['kanon/net/event_loop'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('cross','cross_poll','cross_run','two_producers','idle','idle_poll','nested','backlog','backlog_nested','nested_poll','from_event','from_event_poll','before_start','chain','empty_functor','quit','quit_twice','quit_queue','quit_race','quit_idle','quit_before','quit_in_functor','quit_in_event')],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=4'],
  bounds='one loop with up to two other threads, up to 6 functors nested up to 3 deep (chains up to 5 rounds), up to 2 (thorough: 4) preemptions at any shared access of the loop code and at every lock, epoll and poll', outside='weak memory orders, more preemptions, functors that throw, functors still pending when the loop is asked to quit (they may be dropped)')
