N = 'make_unique make_array key contains pointer down defer protected fixed_vector fixed_trivial zero operators pid hostname'.split()
SPEC = dict(harness='U03.cc', env=['file.cc'],
  entries=[dict(name='harness_' + n, reach=['done'] + (['longest'] if n == 'hostname' else [])) for n in N],
  time_quick=60, time_thorough=300,
  bounds='every argument and element value; arrays and fixed vectors of 1 to 4 objects (64 plain values); both bases of a class with two of them; process ids up to 4194304; every host name of up to 64 bytes', outside='fixed vectors with elements never constructed; virtual bases; throwing constructors')
