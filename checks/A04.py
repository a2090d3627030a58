N = 'create modes accepted refused loop_fds acceptor options socket_options connection option_refused error addresses self bind connect close io'.split()
SPEC = dict(harness='A04.cc', env=['net.cc'],
  entries=[dict(name='harness_' + n, reach=['end'] + (['self', 'unknown'] if n == 'self' else ['zero'] if n == 'create' else [])) for n in N],
  time_quick=30, time_thorough=120,
  bounds='new sockets with descriptor 0 or another; every IPv4 and IPv6 address, port, flow label and scope; every option value; every errno value of the failing calls; two option calls in any order; two other sockets watched for side effects', outside='failing socket, bind, listen and close calls (fatal by design); what the kernel makes of an option')
