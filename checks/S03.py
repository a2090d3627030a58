SPEC = dict(harness='S03.cc', preempt=['kanon/thread/'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('rw','ww','rrw','rww','www','rrww','guards','readers_together','writer_waits','all_wait','writers_behind_readers')],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=4'],
  bounds='up to 5 readers and writers, one or two rounds each, up to 3 (thorough: 4) preemptions at any access to shared memory, 1 spurious wake-up', outside='weak memory orders, 2^32 simultaneous readers, more preemptions, fairness')
