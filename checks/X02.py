SPEC = dict(harness='X02.cc', preempt=['kanon/string/'], entries=[
  dict(name='harness_fmt_narrow', reach=['negative']), dict(name='harness_fmt_wide', reach=['negative'], tiers=('quick','thorough')), dict(name='harness_fmt_longlong', reach=['negative']), dict(name='harness_fmt_other', reach=['ptr','cast']),
  dict(name='harness_parse_view', reach=['absent','value','range']), dict(name='harness_parse_string', reach=['absent','value','range']), dict(name='harness_parse_limits', reach=['value','range']), dict(name='harness_wrap', reach=['none','some']), dict(name='harness_threads', reach=['both'])],
  time_quick=100, time_thorough=700, defs_quick=['-DTL=4'], defs_thorough=['-DTL=6','-DPR=3'],
  bounds='formatting: every 8-, 16-, 32- and 64-bit value, booleans, characters, pointers; parsing: every text of up to 4 (thorough 6) bytes into 8/32/64-bit types and every numeral within one digit of the 16/32/64-bit limits; two threads casting any two- and three-digit numbers, 1 (thorough 3) preemption at any access to shared memory',
  outside='floating-point formatting; leading white space in parsed text (left to libc); radixes other than ten; longer texts')
