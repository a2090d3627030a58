SPEC = dict(harness='T01.cc', env=['net.cc'], 
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('one','three','three_late','three_poll','four','add_in_callback','add_due_in_callback','chain','slow','cross','cross_idle','from_functor','after','every','every_from','every_once','two_repeating','every_slow','zero_interval','early','edge','destroy','never_run')],
  time_quick=60, time_thorough=400, defs_thorough=['-DSPAN=60000000'],
  bounds='up to 4 timers at once with symbolic deadlines from a millisecond ago to 3 s (thorough: 60 s) ahead in microseconds, equal and neighbouring ones included; wake-ups up to as late again, twice; callbacks of symbolic duration; repeating timers with intervals of 1 us, 0.5 ms, 250 ms, 500 ms and 2 s for up to 5 rounds; epoll and poll', outside='delays given as other floating point values, clocks that are set back, timer callbacks that throw, more timers')
