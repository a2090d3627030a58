W = ['end', 'passed']
SPEC = dict(harness='S02.cc', preempt=['kanon/thread/'],
  entries=[dict(name='harness_' + n, reach=W) for n in ('one','two_waiters','two_counters','late','below_zero','zero','reset_opens','reset_wait','add_wait','incr_wait','add','minus','decr_opens','minus_opens','minus_below')] + [dict(name='harness_closed', reach=['closed','end'])],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=4'],
  bounds='counts up to 6, up to 3 waiters and 2 counting threads, up to 3 (thorough: 4) preemptions at any access to shared memory, up to 2 spurious wake-ups', outside='weak memory orders, more preemptions')
