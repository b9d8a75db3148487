"""Scopes of the exhaustive model MCDeps, per property: constants, invariants and depth for quick and thorough."""

DEF = dict(NS=2, NK=2, NT=1, Vers='{"d"}', Isos='IsoRC', Delay=0, Ticks='{1}', MaxTags=1, AbortReads='{FALSE}',
           Shared='FALSE', Prefix='"none"')


def S(inv, ops, q, t, **kw):
    d = dict(DEF)
    d.update(kw)
    d['Ops'] = '{' + ','.join('"%s"' % o for o in ops.split()) + '}'
    d['inv'] = inv.split()
    d['len'] = {'quick': q, 'thorough': t}
    return d


SCOPES = {
    'C01': [S('C01 C01b', 'get set inv', 4, 5, NT=2),
            S('C01 C01b', 'get set inv getm', 6, 7, Prefix='"nested"', NS=1)],
    'C02': [S('C02 C02b C02c C02d', 'get set sett nset inv del tick', 4, 5, NK=2, NS=1),
            S('C02 C02b C02c C02d', 'get set sett nset inv del begin finish tick', 4, 5, NK=1, NS=2)],
    'C03': [S('C03 C03b', 'get set inv begin finish', 4, 5, NK=1, Vers='{"d","2"}', Isos='IsoRR'),
            S('C03 C03b', 'get set inv begin finish', 4, 5, NK=1, NS=1, Vers='{"d","0"}', Isos='IsoRCRC', Delay=1),
            S('C03 C03b', 'get set inv finish', 5, 6, NK=1, Vers='{"d","2"}', Isos='IsoRR', Prefix='"locked"')],
    'C04': [S('C04 C01', 'get set inv', 7, 8, Prefix='"nested"', NS=1, NK=3, NT=1),
            S('C04', 'get set inv getm', 6, 7, Prefix='"cached"', NS=1, NK=2, NT=2)],
    'C05': [S('C05', 'get set abort', 6, 7, Prefix='"nested"', NS=2, NK=3),
            S('C05', 'get getm set', 6, 7, Prefix='"cached"', NS=1, NK=3)],
    'C06': [S('C06 C06b C05', 'get set abort ign', 6, 7, Prefix='"nested"', NS=1, NK=2, AbortReads='{TRUE,FALSE}'),
            S('C06 C06b C05', 'get getm set abort ign', 6, 7, Prefix='"cached"', NS=1, NK=2, AbortReads='{TRUE,FALSE}')],
    'C07': [S('C07 C07b C01', 'get getm set inv', 4, 5, NS=1, NT=2),
            S('C07 C07b C04', 'get getm set nset inv', 6, 7, NS=1, NK=3, Prefix='"cached"')],
    'C08': [S('C08 C01', 'get set inv begin finish', 5, 6, NS=2, NK=1, Isos=i) for i in ('IsoRC', 'IsoRR', 'IsoSer')] +
           [S('C08', 'set inv begin finish flush tick', 5, 6, NS=2, NK=1, Isos=i, Delay=1, Prefix='"locked"')
            for i in ('IsoRC', 'IsoRR')],
    'C09': [S('C09 C09b C09c C08', 'begin finish flush inv set', 7, 8, NS=2, NK=1, Isos=i, Prefix='"tx2"')
            for i in ('IsoRC', 'IsoRR')] +
           [S('C09 C09b C09c', 'begin finish flush inv', 6, 7, NS=1, NK=1, NT=2, Isos='IsoRR', Delay=1)],
    'C10': [S('C10 C10b', 'get set inv finish begin', 5, 6, NS=2, NK=2, NT=2, Isos='IsoRR', Prefix='"locked"'),
            S('C10 C10b', 'get set inv tick', 5, 6, NS=2, NK=1, Isos='IsoSer', Prefix='"locked"', Ticks='{1,18,19,20}'),
            S('C10 C10b C15b', 'set inv begin finish renew tick', 6, 7, NS=2, NK=1, Isos='IsoRR', Prefix='"locked"', Ticks='{1,19}')],
    'C11': [S('C11 C11b C10b', 'set begin finish tick', 8, 9, NS=2, NK=1, Isos='IsoRR', Prefix='"released"', Delay=d,
              Ticks='{1,4}') for d in (0, 4)] +
           [S('C11 C11b', 'get set begin finish inv tick', 7, 8, NS=2, NK=1, Isos='IsoSer', Prefix='"released"', Delay=2,
              Ticks='{2,23}'),
            S('C11 C15b', 'set begin finish renew tick', 8, 9, NS=2, NK=1, Isos='IsoRR', Prefix='"released"', Delay=4)],
    'C12': [S('C08 C10 C11', 'get set inv begin finish tick', 5, 6, NS=2, NK=1, Isos='IsoRR', Prefix='"reader"')],
    'C13': [S('C13 C13b C13c C15b', 'set begin inv renew tick', 6, 7, NS=2, NK=1, Isos='IsoRR', Prefix='"locked"', Ticks='{19,20}'),
            S('C13 C13b C13c', 'get set tick begin finish', 5, 6, NS=2, NK=2, Isos='IsoRR', Prefix='"locked"',
              Ticks='{19,20,24}'),
            S('C13 C13b', 'get set inv begin finish', 5, 6, NS=2, NK=2, Isos='IsoRR', Prefix='"nested"')],
    'C14': [S('C14 C14b C08', 'set inv begin finish tick', 6, 7, NS=2, NK=1, Isos=i, Delay=4, Ticks='{2,4}',
              Prefix='"locked"') for i in ('IsoRC', 'IsoRU')] +
           [S('C14 C14b', 'set inv begin finish tick', 5, 6, NS=2, NK=1, Isos='IsoRU', Delay=0)],
    'C15': [S('C15', 'get set inv begin finish close abort ign', 4, 5, NS=2, NK=1, Isos='IsoRR'),
            S('C15 C05', 'get set inv close', 6, 7, NS=2, NK=2, Isos='IsoRR', Prefix='"nested"'),
            S('C15 C15b C05', 'get set inv begin finish renew', 5, 6, NS=2, NK=1, Isos='IsoRR')],
    'C16': [S('C16 C16b C05', 'get set close reqend', 5, 6, NS=2, NK=2, Prefix='"nested"'),
            S('C16 C16b C08', 'begin inv set close reqend finish', 5, 6, NS=2, NK=1, Isos='IsoRR', Prefix='"locked"', Delay=1),
            S('C16 C16b C08', 'begin inv set close reqend', 4, 5, NS=1, NK=1, Isos='IsoRRRC')],
    'C17': [S('C09 C09b C09c', 'begin finish flush inv set', 5, 6, NS=1, NK=1, Isos='IsoRR')],
    'C18': [S('C01b C02d', 'get set inv getm', 4, 5, NS=1, NK=2, NT=2, MaxTags=2)],
    'C19': [S('C19 C19b C01', 'get set inv loserec losetag loseint clear', 4, 5, NS=1, NK=1, NT=2, MaxTags=2),
            S('C19 C19b', 'set inv begin finish losetag loseint', 5, 6, NS=2, NK=1, Isos='IsoRR', Prefix='"locked"')],
}


for (_p, _i), _n in {('C01', 1): 1, ('C03', 2): 1, ('C04', 1): 1, ('C05', 1): 1, ('C06', 0): 1, ('C07', 0): 1, ('C08', 3): 1, ('C08', 4): 1, ('C10', 0): 1, ('C10', 1): 1, ('C11', 0): 2, ('C11', 1): 2, ('C11', 2): 2, ('C12', 0): 3, ('C13', 1): 1, ('C13', 2): 1, ('C16', 0): 1, ('C16', 1): 1, ('C19', 1): 2, ('C17', 0): 1}.items():
    for _t in ('quick', 'thorough'):
        SCOPES[_p][_i]['len'][_t] += _n


def cfg_text(scope, tier, seed, export_mod):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTANTS']
    for k in ('NS', 'NK', 'NT', 'Vers', 'Delay', 'Ops', 'Ticks', 'MaxTags', 'AbortReads', 'Shared', 'Prefix'):
        lines.append(' %s = %s' % (k, scope[k]))
    lines += [' Isos <- ' + scope['Isos'], ' MaxLen = %d' % scope['len'][tier], ' ExportMod = %d' % export_mod,
              ' Seed = %d' % seed, 'INVARIANTS ' + ' '.join(scope['inv'] + ['Exported'])]
    return '\n'.join(lines) + '\n'


ISO = {'IsoRU': ['READ UNCOMMITTED'], 'IsoRC': ['READ COMMITTED'], 'IsoRR': ['REPEATABLE READ'],
       'IsoSer': ['SERIALIZABLE'], 'IsoRRRC': ['REPEATABLE READ', 'READ COMMITTED'],
       'IsoRRRR': ['REPEATABLE READ', 'REPEATABLE READ'], 'IsoRCRC': ['READ COMMITTED', 'READ COMMITTED'],
       'IsoRURC': ['READ UNCOMMITTED', 'READ COMMITTED']}
