"""Which engines decide which property."""
import core_engine
import findings
import race_engine
import refute
import scopes
import small_engine

CORE = ['C%02d' % i for i in range(1, 20)]
CORE_T = ('TLA+ (CacheDeps): invariants %s checked by TLC on every history of the scopes; exported histories replayed in the code, '
          'recorded random histories of the code validated step by step by TLC')
RACE_T = ('; TLA+ (CacheRace): all interleavings of backend operations of small programs, their schedules executed on real threads, '
          'concurrent histories of the code judged by TLC with the rules of RaceRules')
SMALL_T = ('TLA+ (%s): invariants %s checked by TLC on every history of the scopes; exported histories replayed in the code, recorded '
           'random histories of the code validated step by step by TLC')
TECH = {
    'C27': SMALL_T % ('FileStore, FileSteps', 'C27 C27b Whole ReadWhole Landed') +
           '; crashes injected at every file operation of a store of the real code',
    'C28': SMALL_T % ('Adapter', 'C28 C28b C28c'), 'C23': SMALL_T % ('NoCache', 'C23 C23b'),
    'C20': SMALL_T % ('Deferred', 'C20 C20b C20c'),
}
NOTES = {
    'C01': 'All interleavings of programs of two or three sessions with one or two tags; random ones beyond.',
    'C02': 'Lifetimes at and around the boundaries of timeouts and of a day.',
    'C10': 'Excused: two open writers of one tag (known finding two-writers-release).',
    'C11': 'Claimed for a single invalidating transaction of the tag that lasted longer than zero clock readings.',
    'C12': 'Excused: overlapping finishes of two writers of one tag (known finding). Only while locks are retained.',
    'C14': 'The timer is virtual: fires exactly when the delay has elapsed.',
    'C17': 'Also pages behind the transaction middleware (Site.tla).',
    'C19': 'Losses between calls, and within them (an evicting session in CacheRace).',
    'C25': 'Only differences in the direction of staleness are attributed to this property.',
    'C27': 'Crashes are killed child processes or errors raised at an operation; power loss (unsynced data) is not modelled.',
}
PLANS = {p: [core_engine.run] for p in CORE}
PLANS['C28'] = [small_engine.ADAPTER]
PLANS['C27'] = [small_engine.FILE]
PLANS['C23'] = [small_engine.NOCACHE]
PLANS['C20'] = [small_engine.DEFERRED]
for p in CORE:
    TECH[p] = CORE_T % ' '.join(sorted({i for x in scopes.SCOPES[p] for i in x['inv']}))
for p in small_engine.SITE:
    PLANS.setdefault(p, []).append(small_engine.SITE[p])
    TECH[p] = '; '.join(filter(None, [TECH.get(p), SMALL_T % ('Site', small_engine.INVARIANTS[p])]))
for p in race_engine.RULES:
    PLANS[p].append(race_engine.run)
    TECH[p] += RACE_T


def run(check):
    findings.run(check)
    refute.run(check)
    for engine in PLANS[check.prop]:
        engine(check)
        if check.violations:
            return
