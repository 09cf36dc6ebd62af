import { history, ident, text, userAgent } from '../harness/gen.mjs'
import { create, logTail, mentions } from '../harness/apps.mjs'
import { browserEnv, FakeKeyEvent, virtualTimers } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, ok, same } from '../harness/util.mjs'

export const assumptions = [
	'no two bindings spell one combination in different ways (different order of modifiers, aliases such as command+ next to cmd+): such duplicates are not recognised; `+` and `plus` with modifiers are the key of the numeric pad',
	'sequences do not share keys with single combinations, have modifiers on all of their keys or on none (Mousetrap expects one kind of event), and are typed without long pauses',
	'command ids do not look like array indexes (those are enumerated first in any record)',
	'one app with a keyboard per page'
]

const IDS = ['nav.alpha', 'nav.bravo', 'edit.charlie', 'delta', 'constructor', 'edit.echo']
const KEYS = { a: [65, 97], b: [66, 98], j: [74, 106], 1: [49, 49], '/': [191, 47], enter: [13, 13], esc: [27, 0], f2: [113, 0], g: [71, 103], h: [72, 104], i: [73, 105] }
const MODS = ['', '', 'ctrl+', 'cmd+', 'alt+', 'shift+', 'cmd+shift+', 'ctrl+alt+', 'ctrl+cmd+']

export default async function ({ section }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		app: '@just-web/app',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		os: '@just-web/os',
		bk: '@just-web/browser-keyboard'
	})
	const singles = ['a', 'b', 'j', '1', '/', 'enter', 'esc', 'f2']
	const mod = fc.constantFrom(...MODS)
	const single = fc.oneof(
		{ weight: 5, arbitrary: fc.constantFrom('cmd+j', 'ctrl+j', 'a', 'cmd+shift+a') },
		{ weight: 2, arbitrary: fc.tuple(mod, fc.constantFrom(...singles)).map(([m, k]) => m + k) }
	)
	const seq = fc.oneof(
		fc.constantFrom('g i', 'cmd+g cmd+i', 'h g', 'ctrl+g cmd+i'),
		fc
			.tuple(fc.constantFrom('', 'cmd+', 'ctrl+'), fc.constantFrom('g', 'h', 'i'), fc.constantFrom('', 'cmd+', 'ctrl+'), fc.constantFrom('g', 'h', 'i'))
			.map(([m1, k1, m2, k2]) => `${m1}${k1} ${m2}${k2}`)
			.filter(s => s.split(' ')[0] !== s.split(' ')[1] && s.split(' ').every(k => k.includes('+')) === s.includes('+'))
	)
	const combo = fc.oneof({ weight: 4, arbitrary: single }, { weight: 1, arbitrary: seq })
	// most combinations of a case come from a few, so that bindings contend for them
	const used = fc.oneof({ weight: 2, arbitrary: fc.nat(5) }, { weight: 1, arbitrary: combo })
	const opt = fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant('') }, { weight: 7, arbitrary: used })
	const binding = fc.record({ id: fc.constantFrom(...IDS), key: opt, mac: opt }, { requiredKeys: ['id'] })
	const change = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('add'), list: fc.array(binding, { minLength: 1, maxLength: 3 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('delete'), id: fc.constantFrom(...IDS) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('put'), list: fc.array(binding, { minLength: 1, maxLength: 2 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('replace'), list: fc.uniqueArray(binding, { selector: b => b.id, maxLength: 3 }) }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'reset' }) }
	)
	const press = fc.record({ op: fc.constant('press'), combo: used, n: fc.nat(7) })

	await section('histories', {
		arb: fc.record({
			agent: userAgent(),
			pool: fc.array(combo, { minLength: 1, maxLength: 4 }),
			// how two of the commands are really called
			names: fc.option(fc.uniqueArray(fc.oneof(ident(), text).filter(s => s !== '' && s !== '__proto__' && !/^(0|[1-9]\d*)$/.test(s) && !IDS.includes(s)), { minLength: 2, maxLength: 2 }), { freq: 2, nil: undefined }),
			unregistered: fc.subarray(IDS, { maxLength: 1 }),
			options: fc.option(fc.uniqueArray(binding, { selector: b => b.id, maxLength: 4 })),
			before: fc.array(change, { maxLength: 2 }),
			ops: history(fc.oneof({ weight: 1, arbitrary: change }, { weight: 2, arbitrary: press }), { maxLength: 14 })
		}),
		runs: { quick: 4000, thorough: 100000 },
		rule: 'bindings from the options, up to 2 changes before start and 14 changes and key presses after it (single keys with modifiers and two-key sequences, of commands with ordinary and strange ids, dispatched as the DOM events a browser sends), against an ordered record where the first binding of a platform combination wins; non-trivial: a combination claimed by two bindings is pressed, and a press follows a change that removed or replaced bindings.',
		async check({ agent: { ua, mac }, pool, names, unregistered, options, before, ops }, rec) {
			const named = id => (names && id === 'nav.bravo' ? names[0] : names && id === 'delta' ? names[1] : id)
			const pooled = c => (typeof c === 'number' ? pool[c % pool.length] : c)
			const rename = v => {
				if (Array.isArray(v)) return v.map(rename)
				const r = { ...v }
				if ('id' in r) r.id = named(r.id)
				if ('list' in r) r.list = rename(r.list)
				for (const k of ['key', 'mac', 'combo']) if (k in r) r[k] = pooled(r[k])
				return r
			}
			const ids = IDS.map(named)
			unregistered = unregistered.map(named)
			options &&= rename(options)
			before = rename(before)
			ops = rename(ops)
			rec.label('unusual id', !!names)
			const clock = virtualTimers()
			const env = browserEnv({ ua, timers: clock.timers })
			const m = sut.instantiate(env)
			const { logLevels } = m.app
			const calls = []
			let record = Object.fromEntries((options ?? []).map(b => [b.id, clone(b)]))
			const initial = clone(record)
			let app
			let log

			const apply = op => {
				const reg = app.keyboard.keyBindingContributions
				const dups = []
				if (op.op === 'add') {
					for (const b of op.list)
						if (Object.hasOwn(record, b.id)) dups.push(b.id)
						else record[b.id] = clone(b)
					reg.add(...op.list.map(clone))
				} else if (op.op === 'delete') {
					delete record[op.id]
					reg.set(r => {
						delete r[op.id]
					})
				} else if (op.op === 'put') {
					for (const b of op.list) record[b.id] = clone(b)
					reg.set(r => {
						for (const b of op.list) r[b.id] = clone(b)
					})
				} else if (op.op === 'replace') {
					record = Object.fromEntries(op.list.map(b => [b.id, clone(b)]))
					reg.set(Object.assign(Object.create(null), clone(record)))
				} else {
					record = clone(initial)
					reg.reset()
				}
				return dups
			}
			const platformKey = b => (mac ? (b.mac ?? b.key) : b.key)
			const winners = () => {
				const w = new Map()
				const losers = new Map()
				for (const b of Object.values(record)) {
					const k = platformKey(b)
					if (!k) continue
					if (w.has(k)) losers.set(b.id, k)
					else w.set(k, b.id)
				}
				return { w, losers }
			}
			let known = new Map()
			const checkWarnings = (where, entries, dups) => {
				const { losers } = winners()
				const warns = entries.filter(e => e.level === logLevels.warn)
				for (const [id, k] of losers)
					if (known.get(id) !== k) ok(warns.some(e => mentions(e, id)), () => `${where}: a warning naming the ignored binding ${id} (${k})`)
				for (const e of warns)
					ok(
						[...losers.keys(), ...dups].some(id => mentions(e, id)),
						() => `${where}: a warning about a binding that is not ignored: ${JSON.stringify(e.args)}`
					)
				known = losers
			}

			const firstLog = []
			const dupsBefore = []
			app = await create(
				m.appT
					.justTestApp()
					.with(m.keyboard.keyboardGizmoFn(options ? { keyBindingContributions: options.map(clone) } : undefined))
					.with(m.commands.commandsGizmoFn())
					.with(m.os.osGizmo)
					.with({
						async create(ctx) {
							app = ctx
							for (const id of ids) if (!unregistered.includes(id)) ctx.commands.handlers.register(id, () => void calls.push(id))
							for (const c of before) dupsBefore.push(...apply(c))
							return {}
						}
					})
					.with(m.bk.browserKeyboardGizmo)
			)
			firstLog.push(...app.log.reporter.logs)
			log = logTail(app)
			checkWarnings('start', firstLog, dupsBefore)

			/** What a browser sends for one combination; returns the events. */
			const strike = combo => {
				const parts = combo.split('+')
				const key = parts.pop()
				const init = { ctrlKey: parts.includes('ctrl'), altKey: parts.includes('alt'), shiftKey: parts.includes('shift'), metaKey: parts.includes('cmd') }
				const [code, char] = KEYS[key]
				const events = [new FakeKeyEvent('keydown', { ...init, which: code, keyCode: code })]
				if (char && !init.ctrlKey && !init.metaKey && !init.altKey) {
					const c = init.shiftKey && char >= 97 && char <= 122 ? char - 32 : init.shiftKey && key === '1' ? 33 : init.shiftKey && key === '/' ? 63 : char
					events.push(new FakeKeyEvent('keypress', { ...init, which: c, charCode: c }))
				}
				events.push(new FakeKeyEvent('keyup', { ...init, which: code, keyCode: code }))
				for (const e of events) env.document.dispatchEvent(e)
				clock.advance(20)
				return events
			}
			let reduced = false
			for (const [i, op] of ops.entries()) {
				if (op.op !== 'press') {
					const where = `step ${i}: ${op.op}`
					const dups = apply(op)
					checkWarnings(where, log.next(), dups)
					if (op.op !== 'add') reduced = true
					equal(calls.length, 0, `${where}: commands run`)
					continue
				}
				const { w, losers } = winners()
				// most presses aim at something bound
				const contested = [...new Set(losers.values())]
				const bound = op.n < 2 && contested.length ? contested : [...w.keys()]
				const combo = op.n < 5 && bound.length ? bound[op.n % bound.length] : op.combo
				const where = `step ${i}: press ${combo} on ${ua}`
				const strokes = combo.split(' ')
				let last
				for (const s of strokes) last = strike(s)
				const entries = log.next()
				const errors = entries.filter(e => e.level <= logLevels.error)
				clock.advance(3000)
				const id = w.get(combo)
				const expected = id && !unregistered.includes(id) ? [id] : []
				equal(calls, expected, `${where}: commands run`)
				calls.length = 0
				// a key shared with a sequence is only used in sequences here
				same(
					last.some(e => e.defaultPrevented),
					id !== undefined,
					`${where}: browser default prevented`
				)
				if (id && unregistered.includes(id)) ok(errors.some(e => mentions(e, id)), `${where}: an error naming the unknown command`)
				else equal(errors.length, 0, `${where}: errors logged`)
				rec.label('contested combination pressed', [...losers.values()].includes(combo))
				rec.label('press after removal', reduced && id !== undefined)
				rec.label('sequence', strokes.length > 1 && id !== undefined)
				rec.label('sequence with cmd', strokes.length > 1 && id !== undefined && combo.includes('cmd+'))
				rec.label('mac overrides key', mac && !!id && record[id].mac !== undefined && record[id].key !== undefined && record[id].key !== record[id].mac)
			}
			rec.label('empty mac hides a key', mac && Object.values(record).some(b => b.mac === '' && b.key))
			rec.label(mac ? 'mac' : 'other')
			rec.nontrivial(rec.labels.has('contested combination pressed') && rec.labels.has('press after removal'))
		}
	})

	const MANY = ['ctrl+', 'alt+', 'cmd+', 'shift+', 'ctrl+shift+', 'alt+shift+', 'cmd+shift+', 'ctrl+alt+'].flatMap(mods => [...'abcdefghijklmnopqrstuvwxyz0123456789'].map(k => ({ combo: mods + k, mods, k })))
	await section('many bindings', {
		arb: fc.record({
			agent: userAgent(),
			// where the list of all combinations starts, and in steps of what it is read
			from: fc.nat(MANY.length - 1),
			step: fc.constantFrom(1, 5, 7, 11, 283),
			groups: fc.array(fc.record({ size: fc.oneof(fc.nat(8), fc.constantFrom(30, 60, 120, 260)), how: fc.constantFrom('options', 'add', 'add', 'one by one', 'set') }), { minLength: 1, maxLength: 4 }),
			presses: fc.array(fc.record({ n: fc.nat(MANY.length), remove: fc.constantFrom(false, false, false, true) }), { minLength: 4, maxLength: 12 })
		}),
		runs: { quick: 100, thorough: 3000 },
		rule: 'up to 288 bindings of different combinations (8 sets of modifiers with the letters and digits), given in up to 4 groups: as options, added at once or one by one, or set; then up to 12 of any of them are pressed, and some removed; non-trivial: more than 50 bindings, and bindings of two groups are pressed.',
		async check({ agent: { ua, mac }, from, step, groups, presses }, rec) {
			const env = browserEnv({ ua, timers: virtualTimers().timers })
			const m = sut.instantiate(env)
			let count = 0
			const calls = []
			const given = groups.map(({ size, how }, group) => {
				if (how === 'one by one') size = Math.min(size, 40)
				const list = []
				while (list.length < size && count < MANY.length) {
					list.push({ ...MANY[(from + count * step) % MANY.length], id: `many.${count}`, group })
					count++
				}
				return { how, list }
			})
			const all = given.flatMap(g => g.list)
			const bound = ({ id, combo }) => ({ id, key: combo })
			const app = await create(
				m.appT
					.justTestApp()
					.with(m.keyboard.keyboardGizmoFn({ keyBindingContributions: given.filter(g => g.how === 'options').flatMap(g => g.list.map(bound)) }))
					.with(m.commands.commandsGizmoFn({ handlers: Object.fromEntries(all.map(b => [b.id, () => void calls.push(b.id)])) }))
					.with(m.os.osGizmo)
					.with(m.bk.browserKeyboardGizmo)
			)
			const reg = app.keyboard.keyBindingContributions
			for (const { how, list } of given) {
				if (how === 'add') reg.add(...list.map(bound))
				if (how === 'one by one') for (const b of list) reg.add(bound(b))
				if (how === 'set')
					reg.set(r => {
						for (const b of list) r[b.id] = bound(b)
					})
			}
			const removed = new Set()
			const used = new Set()
			for (const [i, { n, remove }] of presses.entries()) {
				// what was given last is as likely as all the rest
				const b = n === MANY.length || !all.length ? undefined : n % 2 ? all[all.length - 1 - (n % Math.min(all.length, 20))] : all[n % all.length]
				const { mods, k, combo } = b ?? { mods: 'ctrl+alt+shift+', k: 'a', combo: 'ctrl+alt+shift+a' }
				const held = { ctrlKey: mods.includes('ctrl'), altKey: mods.includes('alt'), shiftKey: mods.includes('shift'), metaKey: mods.includes('cmd') }
				const code = k.toUpperCase().charCodeAt(0)
				const events = [new FakeKeyEvent('keydown', { ...held, which: code, keyCode: code }), new FakeKeyEvent('keyup', { ...held, which: code, keyCode: code })]
				for (const e of events) env.document.dispatchEvent(e)
				const live = b && !removed.has(b.id)
				const where = `step ${i}: ${combo} of ${all.length} bindings`
				equal(calls, live ? [b.id] : [], `${where}: commands run`)
				same(events.some(e => e.defaultPrevented), !!live, `${where}: browser default prevented`)
				calls.length = 0
				if (live) used.add(b.group)
				if (live && remove) {
					reg.set(r => {
						delete r[b.id]
					})
					removed.add(b.id)
				}
			}
			equal(app.log.reporter.logs.filter(e => e.level <= m.app.logLevels.warn), [], 'warnings and errors')
			rec.label('more than 128 bindings', all.length > 128)
			rec.nontrivial(all.length > 50 && used.size > 1)
		}
	})

	/** keys with several spellings: [keydown code, keypress character, the same with shift] */
	const NAMED = {
		a: [65, 97, 65], b: [66, 98, 66], z: [90, 122, 90], 1: [49, 49, 33], 8: [56, 56, 42], '/': [191, 47, 63], ',': [188, 44, 60], '[': [219, 91, 123],
		enter: [13, 13, 13], esc: [27, 0, 0], space: [32, 32, 32], tab: [9, 0, 0], backspace: [8, 0, 0], del: [46, 0, 0], up: [38, 0, 0], left: [37, 0, 0], pageup: [33, 0, 0], home: [36, 0, 0], f2: [113, 0, 0], f12: [123, 0, 0], plus: [107, 43, 43]
	}
	const MODIFIERS = { ctrl: 17, alt: 18, shift: 16, meta: 91 }
	const press2 = fc.record({
		mods: fc.oneof(
			{ weight: 1, arbitrary: fc.constant([]) },
			{ weight: 1, arbitrary: fc.constant(['shift']) },
			{ weight: 3, arbitrary: fc.subarray(Object.keys(MODIFIERS), { minLength: 1 }) }
		),
		key: fc.constantFrom(...Object.keys(NAMED))
	})
	const canon = c => [...c.mods].sort().join('+') + '+' + c.key
	// the key of the numeric pad alone cannot be told from the character +
	const usable = c => c.key !== 'plus' || c.mods.some(m => m !== 'shift')
	const combos = fc.uniqueArray(press2.filter(usable), { selector: canon, minLength: 2, maxLength: 10 })
	const ELEMENTS = {
		document: undefined,
		button: { tagName: 'BUTTON', className: 'x', isContentEditable: false },
		input: { tagName: 'INPUT', className: '', isContentEditable: false },
		textarea: { tagName: 'TEXTAREA', className: '', isContentEditable: false },
		select: { tagName: 'SELECT', className: '', isContentEditable: false },
		editable: { tagName: 'DIV', className: '', isContentEditable: true },
		'input for shortcuts': { tagName: 'INPUT', className: 'x mousetrap', isContentEditable: false }
	}

	await section('spellings', {
		arb: fc.record({
			agent: userAgent(),
			combos,
			spelling: fc.array(fc.nat(1000), { minLength: 60, maxLength: 60 }),
			where: fc.nat(),
			forms: fc.array(fc.nat(5), { minLength: 10, maxLength: 10 }),
			ops: fc.array(
				fc.oneof(
					{ weight: 6, arbitrary: fc.record({ op: fc.constant('press'), n: fc.nat(), other: fc.oneof({ weight: 4, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: press2.filter(usable) }), on: fc.oneof({ weight: 4, arbitrary: fc.constant('document') }, { weight: 3, arbitrary: fc.constantFrom(...Object.keys(ELEMENTS)) }), caps: fc.boolean() }) },
					{ weight: 1, arbitrary: fc.record({ op: fc.constant('delete'), n: fc.nat() }) }
				),
				{ minLength: 3, maxLength: 14 }
			)
		}),
		runs: { quick: 2000, thorough: 50000 },
		rule: 'up to 10 bindings of different combinations of any modifiers with 21 keys, each spelled in one of its ways (any order of the modifiers; cmd, command, meta; alt, option; mod; return, escape; upper case or shifted characters), given before or after start, some of them removed later; combinations are pressed on the document and on elements, modifier keys first; a press runs the command of that combination once and without arguments, except in text fields, and nothing else; non-trivial: at least two spellings that are not the plain one are pressed, and a press has no effect.',
		async check({ agent: { ua, mac }, combos, spelling, where: split, forms, ops }, rec) {
			const clock = virtualTimers()
			const env = browserEnv({ ua, timers: clock.timers })
			const m = sut.instantiate(env)
			// mod is cmd on whatever Apple makes, mac or not
			const apple = mac || /iPhone|iPad|iPod/.test(ua)
			let drawn = 0
			const draw = n => spelling[drawn++ % spelling.length] % n
			const spell = c => {
				const names = {
					ctrl: apple ? ['ctrl'] : ['ctrl', 'ctrl', 'mod'],
					meta: apple ? ['cmd', 'command', 'meta', 'mod'] : ['cmd', 'command', 'meta'],
					alt: ['alt', 'option'],
					shift: ['shift']
				}
				const [, char, shifted] = NAMED[c.key]
				if (c.mods.join() === 'shift' && char && char !== shifted && draw(2)) return String.fromCharCode(shifted)
				const mods = [...c.mods]
				let s = ''
				while (mods.length) {
					const [x] = mods.splice(draw(mods.length), 1)
					s += `${names[x][draw(names[x].length)]}+`
				}
				const keys = { enter: ['enter', 'return'], esc: ['esc', 'escape'], plus: ['plus', '+'] }[c.key] ?? [c.key]
				return s + keys[draw(keys.length)]
			}
			const used = []
			const bindings = combos.flatMap((c, i) => {
				const text = spell(c)
				const decoy = combos[i + 1]
				const id = `cmd.n${i}`
				// every third combination is left to the platforms that do not count
				if (i % 3 === 2) return []
				const other = decoy && (i + 1) % 3 === 2 ? spell(decoy) : undefined
				used.push({ id, canon: canon(c), text, combo: c })
				if (mac) return [forms[i] < 2 ? { id, key: text } : forms[i] < 4 ? { id, mac: text } : { id, key: other ?? 'f9', mac: text }]
				return [forms[i] < 3 ? { id, key: text } : { id, key: text, mac: other ?? 'f9' }]
			})
			const calls = []
			const cut = split % (bindings.length + 1)
			const app = await create(
				m.appT
					.justTestApp()
					.with(m.keyboard.keyboardGizmoFn({ keyBindingContributions: clone(bindings.slice(0, cut)) }))
					.with(m.commands.commandsGizmoFn({ handlers: Object.fromEntries(bindings.map(b => [b.id, (...args) => void calls.push([b.id, args.length])])) }))
					.with(m.os.osGizmo)
					.with(m.bk.browserKeyboardGizmo)
			)
			for (const b of bindings.slice(cut)) app.keyboard.keyBindingContributions.add(clone(b))
			const live = new Map(used.map(u => [u.canon, u]))
			const odd = new Set()
			let none = false
			const fire = (type, init, element) => {
				const e = new FakeKeyEvent(type, init)
				if (element) {
					const target = { ...element, parentNode: env.document }
					Object.defineProperties(e, { target: { value: target }, composedPath: { value: () => [target, env.document] } })
				}
				env.document.dispatchEvent(e)
				return e
			}
			for (const [i, op] of ops.entries()) {
				if (op.op === 'delete') {
					const all = [...live.keys()]
					if (!all.length) continue
					const k = all[op.n % all.length]
					app.keyboard.keyBindingContributions.set(r => {
						delete r[live.get(k).id]
					})
					live.delete(k)
					equal(calls, [], `step ${i}: commands run`)
					continue
				}
				const c = op.other ?? combos[op.n % combos.length]
				const entry = live.get(canon(c))
				const [code, char, shifted] = NAMED[c.key]
				const element = ELEMENTS[op.on]
				const held = { ctrlKey: false, altKey: false, shiftKey: false, metaKey: false }
				for (const x of c.mods) {
					held[`${x}Key`] = true
					fire('keydown', { ...held, which: MODIFIERS[x], keyCode: MODIFIERS[x] }, element)
				}
				const events = [fire('keydown', { ...held, which: code, keyCode: code }, element)]
				if (char && !held.ctrlKey && !held.metaKey && !held.altKey) {
					const letter = char >= 97 && char <= 122
					const w = held.shiftKey !== (letter && op.caps) ? shifted : char
					// caps lock together with shift gives a small letter, which is neither spelling
					if (!(held.shiftKey && letter && op.caps)) events.push(fire('keypress', { ...held, which: w, charCode: w }, element))
					else if (entry?.text.length === 1) continue
				}
				for (const x of c.mods) {
					held[`${x}Key`] = false
					fire('keyup', { ...held, which: MODIFIERS[x], keyCode: MODIFIERS[x] }, element)
				}
				events.push(fire('keyup', { ...held, which: code, keyCode: code }, element))
				clock.advance(2000)
				const ignored = ['input', 'textarea', 'select', 'editable'].includes(op.on)
				const at = `step ${i}: ${canon(c)} (bound as ${entry?.text}) pressed on ${op.on}, ${ua}`
				equal(calls, entry && !ignored ? [[entry.id, 0]] : [], `${at}: commands run, with their number of arguments`)
				same(
					events.some(e => e.defaultPrevented),
					!!entry && !ignored,
					`${at}: browser default prevented`
				)
				calls.length = 0
				if (entry && !ignored && entry.text !== [...c.mods.map(x => (x === 'meta' ? 'cmd' : x)), c.key].join('+')) odd.add(entry.text)
				none ||= !entry || ignored
				rec.label('in a text field', !!entry && ignored)
				rec.label('character', entry?.text.length === 1 && !ignored)
			}
			rec.nontrivial(odd.size >= 2 && none)
		}
	})
}
