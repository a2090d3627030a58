E_ = ['rejected', 'accepted']
SPEC = dict(harness='A03.cc', env=['resolv.cc'], entries=[dict(name='harness_' + n, reach=r) for n, r in (('port',['end']),('kernel4',['end']),('kernel6',['end']),('scope',['end']),('ip',['six','rejected']),('ip_dotted',['four','rejected']),('ip_colons',['six','rejected']),('address',['rejected','accepted','host']),('address_tail',['rejected','accepted','host']),('address_port',['rejected','accepted']),('resolve',['end']))],
  time_quick=60, time_thorough=400, defs_quick=['-DTL=5'], defs_thorough=['-DTL=6'], bounds='every port with every flag; every IPv4 address and, around six patterns, every value of every group of an IPv6 address, through text and back; every port text of 3..6 digits (and 10 to 20 digits around the wrap of 32 and 64 bits); every text of up to 7 (thorough 8) bytes as an IP, dotted decimals and 16 IPv6 forms with arbitrary digits, every address text of up to 5 (6) bytes and 12 forms with up to 4 (5) arbitrary bytes behind; resolver results of up to 3 entries of any family in any order, and failures', outside='host names that begin with a digit (treated as an IPv4 text); zone indices; what the resolver of the system answers (modelled), and inet_pton/inet_ntop (modelled on glibc)')
