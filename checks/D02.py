SPEC = dict(harness='D02.cc', entries=[dict(name='harness_' + n, reach=['grown', 'shrunk', 'copied', 'emptied', 'done'], shards=2) for n in ('trivial', 'movable', 'copyable', 'relocatable')] + [dict(name='harness_' + n, reach=['thrown', 'not thrown', 'done']) for n in ('throwing', 'throwing_move')],
  defs_quick=['-DKS_STEPS=3', '-DKS_M=2'], defs_thorough=['-DKS_STEPS=4', '-DKS_M=3'], time_quick=60, time_thorough=800,
  bounds='3 (thorough 4) operations of 9 kinds over two arrays of 0..2 (thorough 0..3) elements with every requested size in that range and arbitrary 32-bit values, for a trivial, a movable, a copy-only and a bitwise-relocatable element type; one operation whose first to third (thorough: fourth) element construction, copy or assignment throws, with and without a move that does not throw',
  outside='allocation failure; throwing constructors of elements that are declared bitwise-relocatable, for which the code gives no guarantee', assumptions=['realloc may move the block on every call'])
