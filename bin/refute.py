"""Wrong designs (spec/Refute.tla, spec/RefuteRace.tla): TLC has to find that each violates the invariant it is aimed at.
If it does not, the invariant says less than it seems to, and the check fails as broken machinery."""
import concurrent.futures

import race_engine
import scopes
from vlib import run_tlc, MachineryError


def D(inv, sub, ops, length, **kw):
    return ('Refute', inv, sub, scopes.S(inv, ops, length, length, **kw))


def R(inv, sub, program, iso, delay=0, ticks=0, hist=True):
    return ('RefuteRace', inv, sub, race_engine.M(program, iso, delay, ticks, hist))


RC, RR = race_engine.RC, race_engine.RR
REFUTED = {
    'C01': [D('C01', 'DropTags <- DropNothing', 'set inv', 3), D('C01', 'Valid <- ValidIfSame', 'set inv', 3),
            R('C01', 'Valid <- ValidAlways', 'i+s', RC), R('C01', 'StepInv <- InvLater', 'tx+s', RC)],
    'C02': [D('C02', 'ExpOf <- ExpLess', 'set sett tick', 3), D('C02c', 'ExpOf <- ExpMore', 'sett tick', 3),
            D('C02', 'DropTags <- DropAllVersions', 'set inv', 3, Vers='{"d","2"}')],
    'C03': [D('C03', 'DropTags <- DropAllVersions', 'set inv', 3, Vers='{"d","2"}'),
            D('C03b', 'EndTags <- EndTagsOneVersion', 'set inv begin finish', 6, Vers='{"d","2"}', NT=2, NS=1, NK=1),
            D('C03', 'NodeDeps <- DepsOfAll', 'get set', 4, Vers='{"d","2"}', NS=1)],
    'C04': [D('C04', 'AddUp <- AddUpOnce', 'get set', 6, Prefix='"nested"', NS=1, NK=3)],
    'C05': [D('C05', 'PopTree <- PopKeeps', 'get set', 6, Prefix='"nested"', NS=1, NK=3)],
    'C06': [D('C06', 'Tracks <- TracksAlways', 'get set', 4, NS=1, AbortReads='{TRUE,FALSE}'),
            D('C06b', 'OpAbort <- AbortSaves', 'get set abort', 5, NS=1)],
    'C07': [D('C07', 'OpGetMany <- GetManyAll', 'set getm', 3, NS=1),
            D('C07b', 'OpGetMany <- GetManySilent', 'nset getm', 5, Prefix='"cached"', NS=1)],
    'C08': [D('C08', 'EndTx <- EndForgets', 'set inv begin finish', 5, NS=1, NK=1),
            R('C08', 'StepFinish <- FinishSilent', 'tx+ss', RC)],
    'C09': [D('C09', 'OpTxFinish <- FinishEnds', 'finish inv set', 5, NS=1, Isos='IsoRR', Prefix='"tx2"'),
            D('C09c', 'OpTxFinish <- FinishBelow', 'finish begin', 3, NS=1)],
    'C10': [D('C10', 'TagLocked <- NeverLocked', 'set', 4, Isos='IsoRR', Prefix='"locked"'),
            D('C10b', 'Alive <- AliveForEver', 'set inv tick', 5, Isos='IsoRR', Prefix='"locked"', Ticks='{20}'),
            R('C10', 'Locked <- NeverLocked', 'tx+s', RR)],
    'C11': [D('C11', 'TagLocked <- LockedStrict', 'set begin finish', 8, Isos='IsoRR', Prefix='"released"', NK=1),
            D('C11', 'StartOf <- StartNow', 'set tick', 8, Isos='IsoRR', Prefix='"released"', NK=1),
            D('C11b', 'TagLocked <- LockedForLong', 'set begin finish tick', 8, Isos='IsoRR', Prefix='"released"', NK=1),
            R('C11', 'Locked <- LockedStrict', 'tx+btx', RR, 0, 1)],
    'C12': [R('C12', 'StepSave <- SaveLocksFirst', 'w+r', RR), R('C12', 'Locked <- LockedOnlyOpen', 'w+r', RR, 0, 1),
            R('C12', 'StartTime <- StartIsNow', 'w+r', RR, 0, 2, False), R('C12', 'StepSave <- SaveSameVersion', 'w+r', RR)],
    'C13': [D('C13', 'OpSet <- SetKeepsBuild', 'get set', 4, Isos='IsoRR', Prefix='"locked"'),
            D('C13b', 'TagLocked <- AlwaysLocked', 'set', 3, Isos='IsoRR', Prefix='"locked"'),
            D('C13c', 'Alive <- AliveForEver', 'set tick', 4, Isos='IsoRR', Prefix='"locked"', Ticks='{20}')],
    'C14': [D('C14', 'FireAll <- FireNothing', 'set finish tick', 5, Prefix='"locked"', Delay=4, Ticks='{4}')],
    'C15': [D('C15', 'SetTree <- SetTreeOfAll', 'get set', 3), D('C15b', 'OpRenew <- RenewSame', 'renew begin', 3)],
    'C16': [D('C16', 'CloseAl <- CloseTreeOnly', 'close', 3, Isos='IsoRR', Prefix='"locked"'),
            D('C16', 'CloseAl <- CloseTxOnly', 'get close', 3), D('C16b', 'CloseAl <- CloseForgets', 'close', 3, Isos='IsoRR', Prefix='"locked"'),
            D('C16', 'CloseAll <- CloseFirst', 'begin get reqend', 3, Isos='IsoRRRC')],
    'C19': [D('C19b', 'StoreRec <- StoreSameVersion', 'set inv losetag', 4, NS=1), R('C01', 'Valid <- ValidIfSame', 'i+s+e', RC)],
}


def one(check, i, item):
    module, inv, sub, m = item
    path = check.work.path('refute%d.cfg' % i)
    with open(path, 'w') as f:
        f.write(scopes.cfg_text(m, 'quick', check.seed, 0) if module == 'Refute' else race_engine.cfg(m, inv, 0, check.seed))
    with open(path, 'a') as f:
        f.write('CONSTANTS ' + sub + '\n')
    res = run_tlc(module + '.tla', path, check.work, workers=1, tag='refute%d' % i, timeout=300, heap='1g')
    if 'Invariant %s is violated' % inv not in res['out']:
        raise MachineryError('%s with %s does not violate %s\n%s' % (module, sub, inv, res['out'][-2500:]))
    check.cov['states'] += res['distinct']


def run(check):
    items = REFUTED.get(check.prop, [])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: one(check, *x), enumerate(items)))
    if items:
        check.notes['wrong_designs_refuted'] = ['%s (%s)' % (i[2], i[1]) for i in items]
