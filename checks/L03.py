SPEC = dict(harness='L03.cc', env=['net.cc','file.cc'],
  entries=[dict(name='harness_' + n, reach=['end', 'fatal'] if n in ('level','errno','color') else ['end']) for n in ('level','library','errno','color','time','clock','thread','message','long','pieces','format','position','switch')],
  time_quick=100, time_thorough=400, defs_quick=[], defs_thorough=['-DN=4'], bounds='every configured level 0..9 and every statement kind; two library switches; errno of four values with and without localtime changing it; eight date and time zone pairs with every microsecond, sequences of three (thorough five) statements in the same, later and earlier seconds; main thread and one further; messages of arbitrary bytes and lengths 0..1023 and of 32 lengths around the 4096 byte buffer; numbers of 1..5 digits, six file names, seven line numbers, colours on and off', outside='EnableAllLog() and the environment variables (read before main); second 0 and years after 9999; what an over-long message loses (only that the line is complete); if/else around the macros without braces')
