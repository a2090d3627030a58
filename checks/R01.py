import hashlib as _h, glob as _g, os as _o, sys as _s
_pb = _o.path.join(_o.path.dirname(_o.path.abspath(_s._getframe().f_code.co_filename)), '..', 'env', 'pb')
_k = _h.sha256(b''.join(open(f, 'rb').read() for f in sorted(_g.glob(_pb + '/**/*.h', recursive=True)))).hexdigest()[:12]
SPEC = dict(harness='R01.cc', env=['net.cc'], std='-std=gnu++17', preempt=['kanon/rpc/'], extra_defs=['-I' + _o.path.normpath(_pb), '-DKS_STUBS=0x' + _k],
  extra_src=['kanon/protobuf/chunk_stream.cc', 'kanon/protobuf/generic_pb_codec.cc', 'kanon/protobuf/protobuf_codec2.cc', 'kanon/protobuf/logger.cc', 'kanon/rpc/rpc_channel.cc', 'kanon/rpc/rpc_codec.cc', 'kanon/rpc/rpc_controller.cc', 'kanon/rpc/rpc_server.cc', 'kanon/rpc/logger.cc'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('send','send2','receive','receive2','bytewise','bytewise2','refuse','refuse2','waits','waits2','header2','pipeline2','stream','rpc','rpc_now','rpc_twice','rpc_deadline','rpc_threads','rpc_refuse','rpc_late')],
  time_quick=60, time_thorough=560, defs_thorough=['-DSMALL=5', '-DMSGS=3', '-DOPS=4', '-DCALLS=3', '-DP=3'],
  bounds='sending: 2 messages, the first of 15 sizes around the chunk boundaries (0..8180), the last bytes symbolic, serialised in steps of 1000, 4080 or the whole; receiving: 2 (thorough 3) messages of 0..3 (thorough 0..5) symbolic bytes cut at any 2 places, or byte by byte; 4 messages arriving at once under three limits, a two-byte size header arriving in parts, every allowed length announced with 0..9 bytes received; every wrong 32-bit checksum, every other byte of the tag, every announced length that is below the smallest or above the accepted one, an undecodable payload; the stream: any 3 (thorough 4) of take, give back and raw writes behind 0, 4 or 4088 bytes; 2 (thorough 3) calls in flight answered in any order, from the loop or from another thread, an answer repeated, answered before, at or after the deadline, two threads calling under 1 (thorough 2) preemptions at any access to memory of kanon/rpc, 7 kinds of requests with any 64-bit number, with and without a deadline, a connection closed before the answer',
  outside='the protobuf library, the code protoc makes of the .proto files and kvarint, which are not installed and replaced by stand-ins in env/pb (messages are byte strings; the serialiser follows the documented zero-copy stream contract); collisions of the checksum; empty tags; messages of 64 MB and more; a channel destroyed before its connection and its deadlines; answers that report an error, at which a client aborts by design; calls in flight when a connection is lost, which are never completed; handlers that leave an undecodable payload unread')
