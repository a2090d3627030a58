SPEC = dict(harness='A02.cc', env=['net.cc'], preempt=['kanon/net/tcp_server', 'kanon/net/event_loop', 'kanon/mem/'],
  entries=[dict(name='harness_' + n, reach=['end']) for n in ('history','history_loops','round_robin','edge','start_twice','start_elsewhere','start_race','no_callbacks','answers','close_all','up_close','shutdown','user_holds','race_fin','race_force','race_msg','race_two','race_quiet','race_close')],
  defs_quick=['-DSTEPS=4'], time_quick=60, time_thorough=400, defs_thorough=['-DP=3','-DSTEPS=5'], bounds='histories of 4 (thorough: 5) events - accept, peer end of stream, reset, force close from another thread, close from the message callback - over up to 4 connections in the base loop or two I/O loops, with the connection pool on and off, 6 connections over 3 loops; the end of the server at every point of the close of one or two connections, and closes during accepts, with up to 2 (thorough: 3) preemptions; two concurrent starts with 1 (2) preemptions', outside='servers destroyed without having been started (the loop pool asserts), or from within a callback of their own connections; I/O loops quit by the user; names after 2^32 connections; the signal handlers')
