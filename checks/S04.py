SPEC = dict(harness='S04.cc', preempt=['kanon/thread/'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('fifo','fifo_one_slot','two_workers','two_workers_one_slot','two_pushers','two_pushers_two_workers','bound','bound_changed','blocked_pushers','parallel','reuse','queued_before_start','stop_idle','stop_busy','nested','empty_task','room_for_all')],
  time_quick=60, time_thorough=300, defs_thorough=['-DP=3'],
  bounds='up to 3 workers, 3 pushers, 6 tasks, queue bounds 1..4, up to 2 (thorough: 3) preemptions at any access to shared memory in kanon/thread, 1 spurious wake-up', outside='weak memory orders, more preemptions, exceptions thrown by tasks, a worker that pushes to a full queue')
