SPEC = dict(harness='A01.cc', env=['net.cc'], 
  entries=[dict(name='harness_' + n, reach=['end'] + (['failed'] if 'transient' in n else [])) for n in ('accept','accept_edge','nobody','nobody_edge','descriptor_zero','transient','transient_edge','unlistened','listen_later','exhausted','exhausted_edge','last','stolen','gone','system_limit')],
  time_quick=60, time_thorough=400,
  bounds='up to 5 connections in two or three bursts, from every IPv4 or IPv6 address and port; up to two failed accepts with every errno value that doesn\'t denote a programming error; a connection accepted as descriptor 0; the descriptor limit reached and lifted up to twice, the released reserve descriptor being taken by another thread once; epoll (level and edge triggered) and poll', outside='new-connection callbacks that throw or destroy the acceptor; a shortage of kernel memory in edge-triggered mode (pending connections wait for the next one); failing bind and listen (fatal by design)')
