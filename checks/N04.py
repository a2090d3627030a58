A = ['looked','none','some','all','fin','done']; B = [x for x in A if x != 'some']
SPEC = dict(harness='N04.cc', env=['net.cc'], entries=[dict(name='harness_lt_err', reach=A+['err']), dict(name='harness_lt_part', reach=A+['part']), dict(name='harness_et_err', reach=A+['err','later']), dict(name='harness_et_part', reach=A+['part']), dict(name='harness_poll', reach=A+['err']),
  dict(name='harness_big', reach=B), dict(name='harness_big_et', reach=B), dict(name='harness_more', reach=A), dict(name='harness_silent', reach=['silent']), dict(name='harness_paused', reach=['paused'])],
  time_quick=80, time_thorough=400, defs_thorough=['-DSTEPS=3'], bounds='2 segments (harness_more 3; thorough 3 and 4) of 1..4000 (harness_big*: 60000..150000) bytes with symbolic contents, arriving one by one or batched; every read returns any part of what is available (once) or fails once with EAGAIN, EINTR or ENOMEM (edge-triggered: EAGAIN); the callback leaves everything, consumes any part or everything; end of stream at the end or not; reading switched off and on; no message callback; epoll level- and edge-triggered, poll', outside='errors other than EAGAIN in edge-triggered mode (no new edge may follow); consumption past the readable bytes')
