A = ['fin','rst','hup','data','cross','loop','msg','shut','send','destroy','pause','gone','afterwards','done']
SPEC = dict(harness='N03.cc', env=['net.cc'], entries=[dict(name='harness_' + n, reach=A + (['cb-force','cb-shut','cb-send'] if n == 'callbacks' else [])) for n in ('lt','et','poll','callbacks')] +
  [dict(name='harness_long', reach=A, tiers=['thorough'])],
  defs_quick=['-DSTEPS=1'], defs_thorough=['-DSTEPS=4','-DCBSTEPS=2'], time_quick=60, time_thorough=600, bounds='3 (thorough 4) events in any order and batching out of: peer end-of-stream, reset, hang-up, 1..2000 incoming bytes, ForceClose from another thread, from a functor and from the message callback, ShutdownWrite, a send of 1..300 bytes of which the kernel first accepts any part, DisbaleRead, destruction by the owner; ForceClose, ShutdownWrite or Send inside the up and the down callback around every single event (thorough: pair); level- and edge-triggered epoll and poll; the user keeps a reference and calls every method after down', outside='a connection whose reading the user switched off and which is then shut down for writing (EnableRead is ignored in that state); preemption at arbitrary instructions')
