A = ['cross','functor','done','observed']
SPEC = dict(harness='N01.cc', env=['net.cc'], entries=[
  dict(name='harness_lt', reach=A+['message']), dict(name='harness_et', reach=A+['message']), dict(name='harness_poll', reach=A+['message']),
  dict(name='harness_big', reach=['cross','done','observed']), dict(name='harness_three', reach=A, shards=4), dict(name='harness_three_et', reach=A, shards=4)]
  + [dict(name='harness_' + n, reach=A+['complete']) for n in ('complete','complete_et')] + [dict(name='harness_' + n, reach=A+['pipe']) for n in ('pipe','pipe_et')]
  + [dict(name='harness_' + n, reach=['done','observed'], maxinstr=40000000) for n in ('many','many_et')],
  time_quick=100, time_thorough=300, defs_thorough=['-DSHORTS=3'], bounds='2 sends (harness_three*: 3) of 1..300 (harness_big: 3000..9000, crossing chunk boundaries) symbolic bytes in any of the forms raw bytes, ChunkList, Buffer, string view, each from another thread, from a functor of the loop or from the message callback; between them the loop runs or not and the socket buffer gets room or not; the kernel accepts any part of a write (would-block included) up to 2 (thorough 3) times; with or without a write-complete callback, which may send once more itself; level- and edge-triggered epoll and poll; lists of 1027 chunks, more than one call of the kernel takes, from the loop or another thread, each call accepted whole, to half, but one byte or not at all (up to 2, thorough 3 times)', outside='fatal write errors (the message is dropped and the poller closes the connection); preemption at arbitrary instructions (threads switch at lock, wake-up and wait operations)')
