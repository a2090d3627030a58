SPEC = dict(harness='S01.cc', env=['net.cc'], preempt=['kanon/thread/', 'harness/S01.cc'],
  entries=[dict(name='harness_' + n, reach=r) for n, r in [('lock',['end']),('guard',['end']),('try',['end','try-got','try-busy']),('try_two',['try-got','try-busy']),('try_held',['try-busy']),('cond',['end']),('cond_outside',['end']),('cond_all',['end']),('wait_releases',[]),('notify_one',[]),('notify_all',['end']),('timed_out',['end']),('timed_notified',['end']),('timed_race',['end'])]],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=5'],
  bounds='two or three threads, up to 3 (thorough: 5) preemptions at any access to shared memory in kanon/thread and the harness, 1 spurious wake-up, 1 early time-out; timed waits of 16 listed lengths (double and integer) at every clock value', outside='weak memory orders (accesses are sequentially consistent), recursion, more preemptions')
