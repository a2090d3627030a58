SPEC = dict(harness='U01.cc', entries=[dict(name='harness_'+n, reach=['done']) for n in ('arith','order','units','text','textsec')], time_quick=100, time_thorough=700,
  bounds='all instants below 2^61 microseconds in magnitude and all 32-bit second/millisecond/microsecond counts for arithmetic; all 64-bit instants for comparison and conversion; text for every microsecond of 20 calendar instants and for every second below 2^34',
  outside='arithmetic with floating-point seconds; text of instants before the epoch; local time zones other than UTC; overflow of the 64-bit microsecond count')
