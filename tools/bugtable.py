#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Bugs the checks did not notice when they were first planted, and what was added.
MISSED = {
    'C12-nil-last': 'nil among the arguments, above all last of an odd number',
    'C15-reserved-key': 'fields named like the names the library uses itself',
    'C16-own-names': 'records with key names of their own in JSON',
    'C20-lazy-stack-end': 'the end of a lazy call stack',
 'C19-backtrace-suffix': 'near misses of backtrace locations',
 'C07-gives-up-waiting': 'attempts that take weeks',
 'C32-long-scalar': 'scalars of up to 300 bytes',
 'C10-two-weeks': 'alarms in units up to months',
 'C04-day-long-wait': 'weeks of virtual time between steps',
 'C02-day-long-send': 'weeks of virtual time between steps',
 'C09-far-future': 'timers of every magnitude to the end of time (simFar)',
 'C35-wide-struct': 'structs with up to 300 fields',
 'C30-many-lines': 'long documents of thousands of lines',
 'C37-many-contracts': 'compilations of more than a thousand contracts',
 'C09-many-due': 'crowds of timers in one Run (simVast)',
 'C12-long-context': 'contexts grown over hundreds of generations (longContext)',
 'C20-failover-eleventh': 'chains of up to a thousand handlers (longChain)',
 'C04-crowd-async': 'muxVast: thousands of subscriptions',
 'C05-stop-crowd': 'muxGoVast: crowds stopped and looked at last to first',
 'C15-long-message': 'long texts special at one place',
 'C18-far-key': 'keys behind hundreds of pairs',
 'C27-byte-far': 'operands to 90000 bits',
 'C36-seventeen-optionals': '300 fields and 300 optionals',
 'C28-least-int64': 'negative integers, at the limits, through NewDecimal256',
 'C30-trimmed-warning': 'warnings with spaces at the ends, percent and box signs, none at all',
 'C31-32-bit-count': 'messages beyond 2^28 to 2^32 bytes, in a program of their own without the race detector',
 'C32-padded-scalar': 'scalars with up to 120 leading zero bytes',
 'C33-two-zero-keys': 'streams that begin with several blocks standing for no key',
 'C02-unsubscribe-holds-lock': 'feedChurn: unsubscriptions against a queue of senders on real threads',
 'C03-assignable': 'channels whose element type the sent value is merely assignable to',
 'C08-close-outside-lock': 'scopeSlow: overlapping Close calls over subscriptions slow to end',
 'C09-reset-no-wakeup': 'waiters blocked before a Reset',
 'C13-crit-callsite': 'Crit in child processes, call sites of every method',
 'C18-value-as-key': 'filters on keys that also occur as values',
 'C19-cache-race': 'glogSettle: decisions re-examined once a concurrent reconfiguration has returned',
 'C20-pooled-records': 'handlers keep records and re-read them after later ones',
 'C25-prefix-loop': 'literals decorated with doubled prefixes, spaces, signs',
 'C32-jacobian-alias': 'operands kept unreduced and re-examined after each call',
 'C34-lazy-index': 'cold parallel first use in a fresh process',
 'C37-bare-name': 'contract names with and without path, empty path, colons',
 'C03-first-use-race': 'coldTypes: crowds of goroutines on a feed nobody has used',
 'C08-second-unsubscribe-late': 'scopeNosy: Count, Track and Unsubscribe from subscriptions that are ending',
 'C09-waiters-burst': 'waitBurst: waiters of many thresholds against bursts of timers',
 'C11-reset-early': 'sysVirtual: the system clock in virtual time, compared to the nanosecond',
 'C13-output-depth': 'Output under call chains far deeper than its depth',
 'C19-many-rules': 'glogMany: hundreds of rules and call sites',
 'C23-half-quoted': 'half-quoted texts given to UnmarshalJSON directly',
 'C28-shared-words': 'copies by assignment, re-read after the original decoded again',
 'C31-many-megabytes': 'messages of 17 MB (70 MB in the thorough tier)',
 'C31-sum-remembered': 'reuse after Reset for a message of the same length',
 'C32-opposite-x': 'points of equal ordinate (images under a cube root of one)',
 'C33-source-fails': 'a failing random source, in a child process',
 'C33-entropy-stretched': 'repeats searched in the whole of a large buffer',
 'C34-one-index': 'IndexOf over lists other than the words',
 'C35-caller-list': 'the list handed in is compared afterwards',
 'C37-unlinked': 'placeholders and any other text as code',
}
rows = []
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    files = sorted(set(re.findall(r'(?m)^\+\+\+ b/(\S+)', open(os.path.join(os.path.dirname(d), 'patch.diff')).read())))
    rows.append('| %s | %s | %s | %s | %s |' % (i, ', '.join(files), m['what_it_breaks'], m['needs'], ('first missed; added: ' + MISSED[i]) if i in MISSED else m['property']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = s.split('\n## Planted bugs')[0].replace('\n(table: see seeded/)', '').rstrip() + '\n'
s = head + '''
## Planted bugs

%d changes, each in `seeded/<id>/`, each confirmed to build, to pass the stable
tests and to fail its demonstration. All are caught by the check of the
property in their name; the last column says which of them was missed when it
was planted and what the check has gained since.

| id | file | breaks | needs | caught by |
|---|---|---|---|---|
''' % len(rows) + '\n'.join(r.replace('\n', ' ') for r in rows) + '\n'
open(p, 'w').write(s)
