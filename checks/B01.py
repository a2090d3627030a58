_R = ['append','advance','prepend','reserve','advanceall','shrink','copy','move']
SPEC = dict(harness='B01.cc', entries=[
  dict(name='harness_hist', quick=dict(shards=3, time=150), thorough=dict(shards=8, time=700), reach=_R, bound='2 (thorough 3) operations of 8 kinds'),
  dict(name='harness_core', quick=dict(shards=8, time=150), thorough=dict(shards=8, time=700), reach=['append','advance','prepend','reserve'], bound='3 (thorough 4) operations of the 4 core kinds'),
  dict(name='harness_compact', shards=3, time=150, reach=['prepend','advance','shrink']),
  dict(name='harness_retrieve', time=60, reach=['string','vector'])],
  defs_quick=['-DSTEPS=2'], defs_thorough=['-DSTEPS=3'],
  bounds='histories of 2 operations out of 8 kinds and of 3 core operations (thorough: 3 and 4), every length 0..600 symbolic, initial size 0..64, contents symbolic, checked at an arbitrary index; compacting behind an append and an advance or a prepend, lengths 0..200',
  outside='longer histories; lengths above 600 (no size threshold of the code lies above the initial capacity, so growth is covered); use of a moved-from Buffer other than assignment; allocation failure')
