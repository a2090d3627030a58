A = ['sendcross','sendloop','cross','functor','message','shut','late','again','half','done','wc']
B = [x for x in A if x not in ('message',)]
SPEC = dict(harness='N02.cc', env=['net.cc'], entries=[
  dict(name='harness_lt', reach=A), dict(name='harness_et', reach=A), dict(name='harness_poll', reach=B), dict(name='harness_two', reach=[x for x in B if x != 'functor']), dict(name='harness_idle', reach=['shut']), dict(name='harness_many', reach=['shut','done'], maxinstr=40000000), dict(name='harness_many_et', reach=['shut','done'], maxinstr=40000000)],
  time_quick=80, time_thorough=300, defs_thorough=['-DSHORTS=3'],
  bounds='1 send (harness_two: 2) of 1..300 symbolic bytes (contents symbolic) from the loop or another thread, any gather form; kernel accepts any part of a write up to 2 (thorough 3) times, the socket buffer has room again at any later point; one shutdown from another thread, a functor or a message callback, asked for once or twice, with or without sends after it; level- and edge-triggered epoll and poll; write-complete callback set or not; a shutdown behind a list of 1027 chunks, more than one call of the kernel takes',
  outside='fatal write errors; preemption at arbitrary instructions (threads switch at lock, wake-up and wait operations)')
