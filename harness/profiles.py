"""What the random histories of a property look like (overrides of gen.DEFAULTS)."""
from gen import ISO_RU, ISO_RC, ISO_RR, ISO_SER

LOCKING = [ISO_RR, ISO_SER]
OFF = dict(ign=0, abort=0, close=0, reqend=0, flush=0, finish=0, begin=0, nset=0, add=0, clear=0, wrap=0,
           renew=0, level=0)


def w(**kw):
    d = dict(OFF)
    d.update(kw)
    return d


PROFILES = {
    'any': {},
    'C01': dict(fork=0.02, bigtags=0.15, ticks=[1, 2, 40], nkeys=(2, 5), falsy=0.2,
                w=w(build=5, read=5, getm=2, set=6, inv=7, tx=0.7, writer=0.3, tick=0.3, delete=0.3, nset=0.2)),
    'C02': dict(deep=0.01, ticks=[1, 2, 3, 4, 8, 19, 20, 21, 40, 120, 1200, 14400, 172800, 345599, 345600],
                lifes=[0, 1, 2, 4, 10, 20, 41, 1201, 14401, 345600, 345601, 700000], timeouts=0.3, falsy=0.35, peek=0.25,
                w=w(build=4, read=5, getm=2, set=6, inv=2, tx=1, writer=0.7, tick=2.5, nset=1, add=1, delete=1, clear=0.1)),
    'C03': dict(naliases=(1, 3), vers=[['d', '2'], ['d', '0'], ['0', '2', '7'], ['d', '0', '2']], delays=[0, 4],
                iso=[ISO_RC, ISO_RR, ISO_SER, ISO_RC, ISO_RR], nkeys=(2, 4), ntags=(1, 3), mix=0.6, peek=0.2,
                w=w(build=5, read=3, getm=2, set=6, inv=4, tx=2, writer=3, tick=1, delete=0.7, close=0.3, ign=0.2, begin=0.2)),
    'C04': dict(deep=0.015, nkeys=(5, 9), depth=5, mix=0.12, timeouts=0.04, peek=0.15,
                w=w(build=10, read=2, getm=2, set=2, inv=3, tx=0.5, writer=0.3, tick=0.2, delete=0.8)),
    'C05': dict(deep=0.01, nkeys=(5, 9), depth=5, mix=0.2, timeouts=0.04, peek=0.2, ntags=(3, 6),
                w=w(build=9, read=2, getm=2, set=2.5, inv=4, tx=0.3, writer=0.2, tick=0.2, delete=1, abort=0.4, close=0.2)),
    'C06': dict(nkeys=(5, 8), depth=4, mix=0.15, abortread=0.35, peek=0.2, gosx=0.2,
                w=w(build=8, read=3, getm=2, set=3, inv=4, ign=1.4, abort=1, delete=1, tick=0.1)),
    'C07': dict(big=0.008, nkeys=(4, 8), peek=0.05, timeouts=0.2, falsy=0.25, abortread=0.2,
                w=w(build=5, read=2, getm=8, set=5, inv=4, delete=1, tick=0.8, nset=1, add=0.5, tx=0.5)),
    'C08': dict(iso=[ISO_RC, ISO_RR, ISO_SER], delays=[0, 0, 0, 1, 8], peek=0.25, mix=0.25,
                w=w(build=4, read=3, getm=1, set=5, inv=3, tx=3, writer=4, wrap=0.5, tick=1.2, flush=0.2, close=0.2, reqend=0.2)),
    'C09': dict(depth=6, mix=0.1, peek=0.15, nkeys=(2, 4), ntags=(1, 3),
                w=w(build=1.5, read=2, set=5, inv=3, tx=6, writer=3, begin=1, finish=1.5, flush=0.7, tick=0.8, wrap=0.3)),
    'C10': dict(fork=0.06, iso=LOCKING, nsess=(2, 3), naliases=(1, 1), delays=[0, 0, 4], ticks=[1, 2, 4, 10, 18, 19, 20, 21],
                nkeys=(3, 5), ntags=(2, 4), peek=0.25,
                w=w(build=4, read=3, getm=0.5, set=7, inv=2, tx=2, writer=5, tick=1, renew=0.4)),
    'C11': dict(fork=0.05, iso=LOCKING, nsess=(2, 3), naliases=(1, 1), delays=[0, 0, 1, 4, 8, 21, 40], ticks=[1, 1, 2, 4, 8, 20, 24, 28],
                nkeys=(2, 4), ntags=(1, 3), peek=0.25,
                w=w(build=3, read=2, set=7, inv=1, tx=5, writer=5, tick=3, renew=0.4)),
    'C12': dict(fork=0.03, iso=LOCKING, nsess=(2, 3), naliases=(1, 1), delays=[0, 0, 1, 4], ticks=[1, 1, 2, 4, 8],
                nkeys=(2, 4), ntags=(1, 3), peek=0.25, mix=0.1,
                w=w(build=4, read=2, set=5, inv=1, tx=6, writer=6, tick=2)),
    'C13': dict(fork=0.03, iso=LOCKING, nsess=(2, 3), naliases=(1, 2), ticks=[1, 10, 19, 20, 21, 24, 40], nkeys=(3, 6), peek=0.25,
                w=w(build=7, read=2, getm=1, set=5, inv=3, tx=2, writer=4, begin=0.4, tick=1.6, renew=0.6)),
    'C14': dict(iso=[ISO_RU, ISO_RC], delays=[0, 1, 2, 4, 8, 21], ticks=[1, 1, 2, 4, 8, 20], peek=0.3, nkeys=(2, 4), ntags=(1, 3),
                w=w(build=2, read=3, set=6, inv=2, tx=2, writer=5, tick=4, wrap=0.3, close=0.2, level=0.15, renew=0.2)),
    'C15': dict(fork=0.06, nsess=(2, 4), naliases=(1, 2), nkeys=(3, 5), ntags=(2, 4), peek=0.15,
                w=w(build=6, read=3, getm=1, set=4, inv=3, tx=2, writer=2, ign=0.6, abort=0.5, close=0.5, reqend=0.3,
                    begin=0.3, finish=0.3, tick=0.4, foreign=3, renew=0.7)),
    'C16': dict(deep=0.01, naliases=(1, 3), nkeys=(3, 6), peek=0.25, depth=4,
                w=w(build=6, read=2, getm=1, set=4, inv=3, tx=2, writer=2, begin=1, close=2, reqend=2.5, tick=0.7)),
    'C17': dict(depth=5, peek=0.2, nkeys=(2, 4), ntags=(1, 3), mix=0.2,
                w=w(build=1.5, read=2, set=5, inv=3, tx=1.5, writer=1.5, wrap=7, tick=0.8, flush=0.2, reqend=0.2)),
    'C18': dict(nkeys=(3, 6), ntags=(3, 7), peek=0.12, gosx=0.2,
                w=w(build=7, read=2, getm=2, set=7, inv=5, tx=1.5, writer=1, begin=0.4, finish=0.4, flush=0.3, wrap=0.7, tick=0.5,
                    nset=0.2, delete=0.5)),
    'C19': dict(peek=0.3, nkeys=(3, 6), ntags=(2, 4),
                w=w(build=5, read=3, getm=2, set=6, inv=4, tx=1.5, writer=2, tick=0.7, loserec=1.5, losetag=4, loseint=1, clear=0.4,
                    close=0.2)),
}
