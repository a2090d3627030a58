SPEC = dict(harness='X04.cc', std='-std=gnu++14', entries=[dict(name='harness_'+n, reach=['joined']) for n in ('cat1','cat2','cat3','literals','append')],
  defs_quick=['-DKS_L=4'], defs_thorough=['-DKS_L=8'], time_quick=100, time_thorough=700,
  bounds='1..3 pieces of every mix of view, std::string, C string and char (and four pieces with literals), each of every length below 4 (thorough 8), contents arbitrary bytes including NUL; appended behind originals of 0, 9 and 18 bytes (inline and heap storage)',
  outside='a piece that aliases the target string; std::string_view pieces (C++17 builds only)')
