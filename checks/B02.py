SPEC = dict(harness='B02.cc', entries=[dict(name='harness_fifo', reach=['read','advance'], quick=dict(shards=4,time=120), thorough=dict(shards=8,time=600)), dict(name='harness_prepend', reach=['read','advance','again'])],
  defs_quick=['-DKK=3'], defs_thorough=['-DKK=4'], time_quick=120, time_thorough=600,
  bounds='every value of every width; 3 (thorough 4) integers in any width order, appended behind 0, 9 or 18 arbitrary bytes of which none or all but one are consumed, initial sizes 0..20 symbolic; one prepended integer (then one more) before 0..2 bytes and before an appended integer',
  outside='longer sequences; prepending when fewer than eight prefix bytes are left (documented precondition)')
