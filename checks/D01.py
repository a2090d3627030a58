SPEC = dict(harness='D01.cc', entries=[dict(name='harness_ops', shards=8, reach=['erased', 'resized', 'assigned', 'spliced', 'spliced range', 'copied', 'reversed', 'done']), dict(name='harness_sort', reach=['done'], shards=4), dict(name='harness_sort2', reach=['done'], shards=3), dict(name='harness_merge', reach=['merged', 'done']), dict(name='harness_selfmerge', reach=['done']), dict(name='harness_remove', reach=['unique', 'done']), dict(name='harness_alias', reach=['done']), dict(name='harness_selfsplice', reach=['range', 'done'])],
  defs_quick=['-DKS_STEPS=2', '-DKS_M=3', '-DKS_SORT=6', '-DKS_MERGE=4', '-DKS_REM=5'], defs_thorough=['-DKS_STEPS=3', '-DKS_M=3', '-DKS_SORT=6', '-DKS_MERGE=5', '-DKS_REM=6'], time_quick=150, time_thorough=850,
  bounds='2 (thorough 3) operations of 33 kinds at every position over lists of 0..3 and 0..2 elements with arbitrary keys; sorting 0..6 (6) elements, merging up to 4+4 (5+5), removal and search in up to 5 (6) elements with every key; the value given to remove, push, insert and resize being an element of the list; a list spliced to a place of its own',
  outside='allocation failure; splicing a list (or a range of it) to a position inside what is moved, which std leaves undefined; throwing elements', assumptions=[])
