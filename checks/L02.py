SPEC = dict(harness='L02.cc', env=['net.cc','file.cc'], preempt=['kanon/log/log_file'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('size','period','flush','mixed','back','short','explicit','name','mkdir','remove','remove_race','remove_wake','threads','logger')],
  time_quick=100, time_thorough=400, defs_quick=[], defs_thorough=['-DN=5','-DP=3'],
  bounds='up to 4 records (thorough 5) of arbitrary length 0..40 and arbitrary bytes, arbitrary roll sizes 0..100, roll intervals of 1, 5, 7 and 86400 s, flush intervals 0..8 s, arbitrary clock steps of 0..6 s (also back by up to 3 s) around a period boundary; up to 3 interrupted, short or failing writes of arbitrary lengths; nine dates and time zones, five directories, present or not, as root or not; thresholds 0..3 with every schedule of the remover up to 2 preemptions (thorough 3) and one spurious wake-up; two threads with two records each on LogFile<true>, every schedule up to 2 preemptions',
  outside='roll interval 0; missing nested directories; power-of-two roll intervals; files truncated or removed by others; a record refused by the device (it is reported and dropped); time zones with daylight saving')
