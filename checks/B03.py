SPEC = dict(harness='B03.cc', entries=[dict(name=n, reach=r) for n, r in (('harness_view',['found','absent']),('harness_string',['found','absent']),('harness_pattern',['found','absent']),('harness_take',['taken']))],
  defs_quick=['-DKN=12'], defs_thorough=['-DKN=20'], time_quick=90, time_thorough=700,
  bounds='every content (all byte values) of 0..12 (thorough 20) readable bytes in three layouts (fresh, behind consumed bytes, over stale bytes); patterns of 0..3 arbitrary bytes',
  outside='longer contents and patterns')
