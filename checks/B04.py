SPEC = dict(harness='B04.cc', env=['net.cc'], entries=[
  dict(name='harness_small', reach=['data','eof','error'], shards=6, sharddepth=5), dict(name='harness_big', reach=['data','big']), dict(name='harness_reserved', reach=['data','reserved'])],
  time_quick=90, time_thorough=800,
  bounds='up to two reads in a row into a buffer holding any 0..3000 bytes of which any prefix was consumed, each delivering any 1..6000 bytes, end of stream or an error; one read into a buffer holding any 0..140000 bytes (any prefix consumed) delivering any 1..140000 bytes; one read into a buffer with any 0..70000 reserved bytes delivering any count up to 200000; every content byte arbitrary',
  outside='more than two reads in a row; more than 140000 buffered bytes; allocation failure')
