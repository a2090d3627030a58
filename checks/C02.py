SPEC = dict(harness='C02.cc', env=['net.cc'], preempt=['kanon/net/tcp_client', 'kanon/net/connector', 'kanon/net/connection'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('history','live','again','idle','answers','up_close','in_loop','race_connected_drop','race_lost_drop','race_error_drop','race_connected_stop','race_lost_disconnect','race_lost_stop','race_lost_use')],
  time_quick=60, time_thorough=400, defs_quick=['-DSTEPS=5','-DP=3'], defs_thorough=['-DSTEPS=6','-DP=4'],
  bounds='histories of 5 (thorough 6) steps out of connect, disconnect, stop, enable retry, peer close, refusal, time passing, destruction, with and without a user reference to the connection; the client used from another thread against every point of establishing, losing and failing with up to 3 (4) steps of preemption at memory accesses of tcp_client, connector and connection', outside='a user who keeps a connection beyond its client must close it before releasing it; Connect() after a loss without retry and EnableRetry after Stop/Disconnect (unspecified); Disconnect while connecting (documented to have no effect)')
