#!/usr/bin/env python3
"""Source of MANIFEST.json: python3 tools/manifest.py > MANIFEST.json"""
import json, re, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
# what each property is compared with (used in DESIGN.md as well)
ORACLE = {
 'C01': 'a plain variable; createStore, createRegistry and createState compared with it and with each other',
 'C02': 'Object.is on the value before and after each update, and the ordered list of subscribers',
 'C03': 'an ordered list of subscriptions, each with its own life',
 'C04': 'deep copies taken when each value was obtained; freezing checked part by part',
 'C05': 'one plain draft per pending updater, committed when it settles; every await is released by the harness',
 'C06': 'a Map of keys to values',
 'C07': 'folding the entry handler over a plain array or record',
 'C08': 'the source of the view (differential)',
 'C09': 'a Map of ids to the handler registered last',
 'C10': 'a model of handlers, contributions and key bindings per app and of the connection of each command',
 'C11': 'a Map that keeps the first contribution of an id',
 'C12': 'a Map that keeps the first binding of an id; the key chosen by platform',
 'C13': 'a title composed from the same words the id was composed from',
 'C14': 'an ordered record of bindings where the first binding of a platform combination wins; key events as a browser dispatches them',
 'C15': 'a Map of keys to strings',
 'C16': 'one Map per app, and the raw content of the storage',
 'C17': 'a Map of JSON values',
 'C18': 'one Map per app',
 'C19': 'one language and one ordered handler list per app',
 'C20': 'one stored language per app name',
 'C21': 'a Map of routes to registrations',
 'C22': 'an ordered list of listeners per event',
 'C23': 'the list of entries each reporter must have received',
 'C24': 'folding the fields and the order of the callbacks of the composition program',
 'C25': 'the outcome computed from the composition program, and all logs involved',
 'C26': 'the shape of ids, and their distinctness',
 'C27': 'a list of the events dispatched since each app began to listen',
 'C28': 'the precedence of the sources (by identity and by use), a list of history entries, the platform of the user agent',
 'C29': 'the same app built from the separate gizmos on an equal page (differential), and object identity',
 'C30': 'Maps, and the real storages of the page',
 'C31': 'stand-alone states with a reference logger (differential)',
 'C32': 'createIntl of @formatjs/intl (differential)',
 'C33': 'the same apps composed from the gizmos on an equal page (differential)',
 'C34': 'the same app on an equal page where the steps of the other apps are left out (metamorphic)',
 'C35': 'the same app composed in another order on an equal page (metamorphic)',
 'C37': 'a model of the app in which each failing call has all or nothing of its effect, and the injected error itself',
 'C38': 'the content of each object before it was given, and the same history with fresh objects (metamorphic)',
 'C39': 'a table of what each gizmo needs and gives, for what the compiler accepts; the created app itself, for the types it is given (differential between compiler and run time)',
 'C40': 'the types and values the program was composed from, for the types and values it gets; the position of each ill-typed call, for the errors',
 'C36': 'a model of the app updated call by call, with the list of handlers each call, nested or not, must reach',
}
TECH = {'C39':'differential','C40':'constructive','C38':'metamorphic','C37':'fault injection','C08':'differential','C29':'differential','C31':'differential','C32':'differential','C33':'differential','C34':'metamorphic','C35':'metamorphic','C13':'constructive','C26':'invariant'}
checks = []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    src = open(os.path.join(root, 'checks', i + '.mjs')).read()
    m = re.search(r"export const assumptions = (\[.*?\n?\])\n", src, re.S)
    assumes = json.loads(subprocess.run(['node', '-e', 'console.log(JSON.stringify(%s))' % m.group(1)], capture_output=True, text=True, check=True).stdout) if m else []
    kind = {'differential':'property-based testing (fast-check): differential, over generated histories',
            'metamorphic':'property-based testing (fast-check): metamorphic, over generated programs, schedules and histories',
            'fault injection':'property-based testing (fast-check): stateful, model-based, with faults injected into generated histories',
            'constructive':'property-based testing (fast-check): expected result composed along with the input',
            'invariant':'property-based testing (fast-check): invariant over generated random sources',
            'model':'property-based testing (fast-check): stateful, model-based, over generated histories'}[TECH.get(i, 'model')]
    checks.append({
        'property': i,
        'quick_cmd': f'node harness/run.mjs {i}',
        'thorough_cmd': f'node harness/run.mjs {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': kind,
        'level': 'exploration',
        'level_note': 'Random search with shrinking over the real sources (bundled from /repo at every run), deterministic per seed; no violation among the cases explored, not a proof. Oracle: ' + ORACLE[i] + '.' + (' Assumes: ' + '; '.join(assumes) + '.' if assumes else ''),
    })
print(json.dumps({
    'version': 1,
    'setup_cmd': 'node harness/selftest.mjs',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks: the checks bundle the TypeScript sources of /repo with esbuild and evaluate the bundle with stand-ins for the browser globals. Known findings: known-findings.txt.',
}, indent=1, ensure_ascii=False))
