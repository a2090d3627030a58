SPEC = dict(harness='M01.cc',
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('chunks','shrink','resize','sizes','null','linear','linear_big','object','shared','list','map')],
  time_quick=100, time_thorough=400, defs_quick=[], defs_thorough=['-DN=7'], bounds='sequences of 6 (thorough 7) operations; chunk sizes 4, 8, 12, 24 and 40 bytes (every size 1..72 in a fixed sequence), 1..3 chunks per block, changed at any time; up to 6 chunks of which any subset comes back before shrinking; runs of 1..4 objects of 4 and 24 bytes; shared pointers, a list and a map through the allocator; every byte of every chunk', outside='objects of an alignment above 8; one pool used with several sizes; zero chunks per block; allocation failure; use from several threads (the server locks its pool)')
