A = ['crossed','high','loop','done']; B = A + ['cross']
SPEC = dict(harness='N05.cc', env=['net.cc'], entries=[dict(name='harness_' + n, reach=B) for n in ('lt','et','poll','three')] + [dict(name='harness_buf', reach=A)] + [dict(name='harness_' + n, reach=A+['pipe']) for n in ('pipe','pipe_et')] + [dict(name='harness_' + n, reach=['crossed','high','more','done'], maxinstr=40000000) for n in ('many','many_et')],
  time_quick=70, time_thorough=300, defs_thorough=['-DSHORTS=4','-DSTEPS=4'], bounds='2 (harness_three: 3, thorough 4) sends of 1..300 symbolic bytes from the loop or another thread in the forms raw, chunk list, buffer, view; any symbolic mark 1..700; the kernel accepts any part of a write up to 3 (thorough 4) times and has room again at any later point; pipelined sending from within the write-complete callback; level- and edge-triggered epoll and poll; one or two lists of 1027 chunks, more than one call of the kernel takes, with any symbolic mark up to their size', outside='zero-length sends; a write-complete callback that returns false without sending; fatal write errors')
