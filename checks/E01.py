A = ['readd','er','dr','ew','dw','none','remove','renew','registered','polled']
SPEC = dict(harness='E01.cc', env=['net.cc'], entries=[dict(name='harness_' + n, reach=A) for n in ('epoll','et','poll','poll3','epoll3')],
  time_quick=60, time_thorough=300, defs_thorough=['-DSTEPS=5'], bounds='sequences of 4 (thorough 5) operations out of (removing while interested and enabling again included) enabling and disabling read and write interest, disabling all, removing, destroying and re-creating, on 2 channels (3 operations on 3 channels), in any descriptor order, several operations per loop round (poll), epoll level- and edge-triggered and poll', outside='failing kernel calls')
