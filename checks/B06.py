SPEC = dict(harness='B06.cc', env=['net.cc'], entries=[
  dict(name='harness_write', reach=['failed','short','whole'], shards=8), dict(name='harness_many', reach=['many','failed','short'], maxinstr=40000000)],
  time_quick=90, time_thorough=400, defs_thorough=['-DMAXN=9000'],
  bounds='two writes in a row of a list holding any 0..5000 bytes (thorough 0..9000) plus a spliced list of any 1..5000 (9000) bytes, any prefix consumed, each write accepting any count or failing with would-block, broken pipe or reset; lists of 1023..1027 chunks of one or two bytes with whole, short and failing writes at each step; every content byte arbitrary',
  outside='longer lists, failure after a partly accepted batch is not consumed by the caller')
