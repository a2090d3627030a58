SPEC = dict(harness='X03.cc', entries=[dict(name=n, reach=['present','dropped','text','moved']) for n in ('harness_small',)] + [dict(name='harness_medium', reach=['present','dropped','text','moved'], shards=2)] + [dict(name='harness_large', reach=['present','moved'], shards=3), dict(name='harness_brim', reach=['in','out']), dict(name='harness_fmt', reach=['escaped','hole'])],
  defs_quick=['-DKS_F=3','-DKS_L=4'], defs_thorough=['-DKS_F=4','-DKS_L=6'], time_quick=120, time_thorough=700,
  bounds='3 (thorough 4) fields of 9 kinds into streams of capacity 24, 48 and 70 with text of every length from 0 to past the capacity (after the first field: of every length next to the remaining room); one field at every distance 0..40 from the brim of a 4096-byte stream; every format of up to 4 (thorough 6) bytes with 0..3 arguments',
  outside='floating-point fields; formats whose placeholders and arguments do not match in number (documented precondition)', assumptions=['numbers need at most 64 bytes of room to count as fitting; the code may ask for less'])
