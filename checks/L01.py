SPEC = dict(harness='L01.cc', env=['net.cc','file.cc'], preempt=['kanon/log/async_log','kanon/log/log_file'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('small','large','fill','pause','idle','destroy','empty','exact','oversize','two','two_stop','flood','logger')],
  time_quick=200, time_thorough=300, defs_quick=[], defs_thorough=['-DP=3'], bounds='one producer: 3 records (4 around a full buffer) of arbitrary lengths up to the buffer size (4 MB - 1) and arbitrary bytes, against every schedule of producer, back thread and Stop() up to 2 preemptions (thorough 3; 1 for the entries with large records and 2 there); two producers with 2 records each of 2 or CAP/2+1 bytes, Stop() after or amid them, up to 2 preemptions; 14..18 nearly full buffers before the back thread runs; early and late wake-ups; destruction without Stop()', outside='records not smaller than the 4 MB buffer (dropped); more than sixteen buffers of back-pressure (dropped with a note); Append() after Stop(); restarting; AsyncLog::Flush() is a no-op, so the record of a LOG_FATAL may be lost; thread creation and write failures')
