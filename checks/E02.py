A = ['read','write','error','close','ready']
SPEC = dict(harness='E02.cc', env=['net.cc'], entries=[dict(name='harness_' + n, reach=A) for n in ('one','one_poll','two','two_poll')] + [dict(name='harness_' + n, reach=['many']) for n in ('many','many_poll')],
  time_quick=60, time_thorough=300, bounds='one channel: 2 rounds of any 16-bit mask of readable, urgent, writable, error, hang-up, invalid, half-closed, any interest, each callback missing in turn; two channels: any pair of masks with one interrupted wait; 14..40 descriptors ready for 4 rounds; epoll and poll', outside='channels destroyed by another channel of the same round (documented as forbidden)')
