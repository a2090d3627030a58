D = ['content','end']
SPEC = dict(harness='P01.cc', env=['net.cc'], extra_src=['example/length_codec/codec.cc'], entries=[
  dict(name='harness_decode', reach=D), dict(name='harness_decode_cuts', reach=D), dict(name='harness_decode_string', reach=D), dict(name='harness_decode_many', reach=D), dict(name='harness_bytewise', reach=D), dict(name='harness_together', reach=D),
  dict(name='harness_limit', reach=['short','refused','waits','delivered']), dict(name='harness_limit_huge', reach=['short','refused']), dict(name='harness_send_chunks', reach=['loop']), dict(name='harness_send', reach=['cross','loop','observed','end']), dict(name='harness_send_big', reach=['cross','loop','observed','end']),
  dict(name='harness_tokens', reach=['two','none','end']), dict(name='harness_tokens_comma', reach=['two','none','end'])],
  time_quick=90, time_thorough=400, defs_thorough=['-DMANY=5', '-DSMALL=6', '-DTOK=8'],
  bounds='decoding: 2 messages of 0..20 symbolic bytes cut at any place, 2 of 0..4 (thorough 0..6) cut at any 2 places, 3 of 0..3 (thorough 0..5) cut at any place, or byte by byte (messages of 0..3 bytes); handlers that advance or take everything (messages of 0..6 bytes); any announced length (32 bits) against any limit (64 bits) with 0..24 bytes received; encoding: 2 messages of 0..300 bytes or one of 0..9000 bytes, string or chunk list form, from the loop or from another thread, one partial kernel acceptance; tokens: texts of up to 6 (thorough 8) symbolic bytes, separators space and comma',
  outside='the memcache session, item and server and the day-time and file utilities, which do not compile in this tree (they use a former interface or lack an include); handlers that leave part of their message behind')
