SPEC = dict(harness='U02.cc', entries=[dict(name='harness_optional', reach=['deep', 'done'], shards=3), dict(name='harness_convert', reach=['done']), dict(name='harness_any', reach=['copied', 'done'], shards=3), dict(name='harness_unique', reach=['moved', 'done'], shards=2), dict(name='harness_raw', reach=['done'])],
  defs_quick=['-DKS_STEPS=4'], defs_thorough=['-DKS_STEPS=5'], time_quick=90, time_thorough=850,
  bounds='4 (thorough 5) operations of 13, 11 and 7 kinds over two holders with four stored types and arbitrary values; every value of four conversions between optional types', outside='throwing value types; any holders constructed from const holders by move', assumptions=['the moved-from side of a move assignment is unspecified'])
