SPEC = dict(harness='B05.cc', entries=[
  dict(name='harness_hist', reach=['append','advance','prepend','reserve','splice','swap','shrink'], shards=24, sharddepth=14),
  dict(name='harness_copy', reach=['copy'],shards=2), dict(name='harness_core', reach=['append','advance','splice'], shards=8, sharddepth=5), dict(name='harness_ints', reach=['ints','split'])],
  defs_quick=['-DSTEPS=1'], defs_thorough=['-DSTEPS=2'], time_quick=90, time_thorough=700,
  bounds='a prelude append of 0..9000 (then consumption of any part) followed by 1 (thorough 2) operations out of append 0..4200, advance by any amount, prepend 1..8, reserve-and-fill, splice with a partly consumed list, swap, shrink, clone/copy-assign/move; cores of 2 (3) append/advance/splice; two integers of any width after 0..3 or 4078..4089 bytes and one prepended; contents arbitrary, the compared position symbolic', outside='Prepend into a first chunk with less than 8 consumed bytes (its precondition); splicing a list into itself; allocation failure')
