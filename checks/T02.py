SPEC = dict(harness='T02.cc', env=['net.cc'], 
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('before','before_twice','all','default_id','in_callback','in_callback_poll','each_other','then_add','new_one','fired','fired_reused','cancelled_reused','callback_reused','repeating','repeating_by_other','repeating_both','repeating_before','repeating_twice','repeating_reused','cancelled_once_only','functor','cross','cross_repeating','cross_add_cancel')],
  time_quick=60, time_thorough=400, defs_thorough=['-DSPAN=60000000'],
  bounds='up to 4 timers at once with symbolic deadlines up to 3 s (thorough: 60 s) ahead, cancelled before the loop runs, from any callback (their own included) in the same or another round, from functors, from another thread with up to 2 preemptions, repeatedly and after they have run, storage being reused at once; one late wake-up; epoll and poll', outside='timer callbacks that throw, more timers')
