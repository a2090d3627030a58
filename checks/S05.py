J = ['joined']
SPEC = dict(harness='S05.cc', preempt=['kanon/thread/', 'atomic'],
  entries=[dict(name='harness_' + n, reach=r) for n, r in [('join',J),('two',J),('outlived',['outlived']),('move',J),('move_assign',J),('names',J),('default_name',J),('never_started',['idle']),('counter32',['add','sub','incr']),('counter64',['add','sub','incr']),('counter_ops',['ops']),('atomic',['atomic']),('thread_local',['local']),('weak',['weak'])]],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=5'],
  bounds='up to 3 threads, up to 3 (thorough: 5) preemptions at any access to shared memory in kanon/thread; every 32- and 64-bit counter value and operand', outside='weak memory orders, more preemptions, default names of threads created concurrently, a thread-local value of a thread that outlives the ThreadLocal')
