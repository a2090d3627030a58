SPEC = dict(harness='C01.cc', env=['net.cc'],
  entries=[dict(name='harness_' + n, reach=['end'] + (['retry','handed','self','fatal','error'] if n == 'outcomes' else [])) for n in ('outcomes','ipv6','backoff','backoff_reset','descriptor_zero','history','history_refused','history_in_loop','in_callback','nobody','dropped','stop_at_once','other_channel')],
  time_quick=60, time_thorough=400, defs_quick=['-DSTEPS=4'], defs_thorough=['-DSTEPS=5'],
  bounds='connect outcomes: every errno of connect() as one symbolic value, synchronous, in progress and refused later (SO_ERROR symbolic), self-connection; attempts on descriptor 0; IPv4 and IPv6; the delays of 41 consecutive failures, and after a success or Restart; histories of 4 (thorough 5) steps out of start, stop, restart, success, failure, time passing, drop, from the loop and from another thread', outside='dropping the connector without stopping it while an attempt is in progress (the attempt completes and is delivered); failure of socket() (fatal by design); errnos that are neither documented as transient nor as programming errors')
