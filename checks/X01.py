_b=dict(time=120)
SPEC = dict(harness='X01.cc', link_repo='core', entries=[
  dict(name='harness_find', reach=['none','found']), dict(name='harness_rfind', reach=['none','found']), dict(name='harness_char', reach=['none','found']), dict(name='harness_of', reach=['none','found'], quick=dict(shards=3,time=120), thorough=dict(shards=8,time=600)),
  dict(name='harness_compare', reach=['cmp']), dict(name='harness_case', reach=['case']), dict(name='harness_sub', reach=['sub']), dict(name='harness_split', reach=['split','sep'])],
  time_quick=120, time_thorough=600, defs_quick=['-DH=5','-DM=3'], defs_thorough=['-DH=7','-DM=3'],
  bounds='texts of 0..4 bytes (thorough 7), patterns and sets of 0..2 bytes (thorough 3), every byte value, every position including past the end',
  outside='longer texts (the code has no length-dependent branch beyond loop bounds); find() with a position past the end and split() with an empty separator (documented preconditions); case-insensitive comparison of non-ASCII bytes')
