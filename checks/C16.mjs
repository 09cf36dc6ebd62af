import { create } from '../harness/apps.mjs'
import { appName, history, ident, text } from '../harness/gen.mjs'
import { browserEnv, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, same, settled } from '../harness/util.mjs'

export const assumptions = [
	'keys and values are well-formed strings',
	'app names contain no colon (what happens then is a recorded finding, probed on its own)',
	'other code sharing the storage does not use keys that start with an app name followed by a colon'
]

const NAMES = ['a', 'ab', 'a-b', 'test', 'b', 'A', 'a b', '日本', 'toString', '.', '*', 'a ', 'á', 'a\u0301', 'a/']
const FOREIGN = ['a', 'foo', 'xa:b', 'ab', '', ' a:b', 'toString', 'a-', 'other:a:x', 'A.b:c']

export default async function ({ section, probe }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		app: '@just-web/app',
		commands: '@just-web/commands',
		prefs: '@just-web/preferences',
		browser: '@just-web/browser',
		bp: '@just-web/browser-preferences',
		states: '@just-web/states'
	})
	const key = ident(['a', 'b', 'a:b', 'ab', ''])
	const start = async (m, name) => {
		const inc = m.app
			.justApp({ name, log: { reporters: [] } })
			.with(m.commands.commandsGizmoFn())
			.with(m.browser.browserGizmoFn())
			.with(m.bp.browserPreferencesGizmo)
		return create(inc)
	}
	const app = fc.nat(11)
	const op = fc.oneof(
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('set'), app, key, value: text }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('append'), app, key, value: text }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('remove'), app, key }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('async'), app, key, value: text }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('settle'), n: fc.nat(2) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('clearAll'), app }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('foreign'), key: fc.constantFrom(...FOREIGN), value: text }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('second'), app, page: fc.boolean() }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('restart'), buffer: fc.boolean() }) }
	)

	await section('restarts', {
		arb: fc.record({ names: fc.uniqueArray(appName(NAMES), { minLength: 1, maxLength: 4 }), crowded: fc.integer({ min: 0, max: 24 }).map(n => n === 7), buffer: fc.boolean(), ops: history(op, { minLength: 1, maxLength: 20 }) }),
		runs: { quick: 1500, thorough: 40000 },
		rule: 'one to four apps (names that are prefixes and other near misses of each other, or look like patterns) over one local storage with foreign entries, up to 20 operations with page reloads in between (pending updaters are lost) and further apps of the same names started on the same or another page, against one map per app and the raw content of the storage; non-trivial: two apps hold preferences, and a reload or a clearAll happens while they do.',
		async check({ names, crowded, buffer, ops }, rec) {
			const localStorage = new FakeStorage()
			const models = new Map(names.map(n => [n, new Map()]))
			const foreign = new Map(crowded ? Array.from({ length: 150 }, (_, i) => [`foreign${i}`, String(i)]) : [])
			for (const [k, v] of foreign) localStorage.setItem(k, v)
			let m
			let apps
			let pending = []
			const load = async buffer => {
				m = sut.instantiate(browserEnv({ localStorage, buffer }))
				apps = new Map()
				pending = []
				for (const n of names) apps.set(n, [await start(m, n)])
			}
			const views = where => {
				for (const [n, model] of models) {
					for (const { preferences: p } of apps.get(n))
					for (const k of new Set([...[...models.values()].flatMap(x => [...x.keys()]), 'a', 'toString', 'zz']))
						same(p.get(k), model.get(k), `${where}: app ${JSON.stringify(n)}: get(${JSON.stringify(k)})`)
				}
				const raw = FakeStorage.dump(localStorage)
				for (const [k, v] of foreign) same(raw.get(k), v, `${where}: foreign entry ${JSON.stringify(k)}`)
				let owned = 0
				const encoded = new Set()
				const bare = s => s.replace(/-/g, '+').replace(/_/g, '/').replace(/=+$/, '')
				for (const x of models.values()) for (const value of x.values()) encoded.add(bare(Buffer.from(value).toString('base64')))
				for (const [k, v] of raw) {
					if (foreign.has(k)) continue
					owned++
					const n = names.find(n => k.startsWith(`${n}:`)) ?? names.find(n => k.startsWith(n))
					ok(n !== undefined, `${where}: storage key ${JSON.stringify(k)} does not start with an app name`)
					for (const model of models.values())
						for (const value of model.values()) {
							// what happens to look like a value inside of base64 is not readable
							if (value && !encoded.has(bare(v)) && (v === value || (value.length >= 3 && v.includes(value)))) fail(`${where}: the storage holds the text ${JSON.stringify(value)} under ${JSON.stringify(k)}`)
						}
				}
				equal(owned, [...models.values()].reduce((s, x) => s + x.size, 0), `${where}: number of storage entries used for preferences`)
			}
			await load(buffer)
			views('initially')
			for (const [i, op] of ops.entries()) {
				const name = names[(op.app ?? 0) % names.length]
				const where = `step ${i}: ${op.op} ${op.app === undefined ? '' : JSON.stringify(name)}`
				const model = models.get(name)
				const tabs = apps.get(name)
				const { preferences: p } = tabs[Math.floor((op.app ?? 0) / names.length) % tabs.length]
				const many = [...models.values()].filter(x => x.size).length > 1
				if (op.op === 'set') {
					p.set(op.key, op.value)
					model.set(op.key, op.value)
				} else if (op.op === 'append') {
					p.set(op.key, v => (v ?? '') + op.value)
					model.set(op.key, (model.get(op.key) ?? '') + op.value)
				} else if (op.op === 'remove') {
					p.set(op.key, undefined)
					model.delete(op.key)
				} else if (op.op === 'async') {
					const t = { model, key: op.key, value: op.value }
					t.promise = p.set(op.key, () => new Promise(r => (t.resolve = r)))
					pending.push(t)
				} else if (op.op === 'settle') {
					if (!pending.length) continue
					const [t] = pending.splice(op.n % pending.length, 1)
					t.resolve(t.value)
					await settled(t.promise, where)
					t.model.set(t.key, t.value)
				} else if (op.op === 'clearAll') {
					p.clearAll()
					rec.label('clearAll next to other preferences', model.size > 0 && many)
					model.clear()
				} else if (op.op === 'second') {
					if (tabs.length > 2) continue
					tabs.push(await start(op.page ? sut.instantiate(browserEnv({ localStorage })) : m, name))
					rec.label('two apps of one name')
				} else if (op.op === 'foreign') {
					if (names.some(n => op.key.startsWith(`${n}:`))) continue
					localStorage.setItem(op.key, op.value)
					foreign.set(op.key, op.value)
				} else {
					rec.label('reload with two owners', many)
					rec.label('reload with a pending updater', pending.length > 0)
					await load(op.buffer)
				}
				views(where)
			}
			await load(!buffer)
			views('after a last reload')
			rec.nontrivial(rec.labels.has('clearAll next to other preferences') || rec.labels.has('reload with two owners'))
		}
	})

	// sizes at which buffers, chunks and argument lists end
	const size = fc.oneof(fc.integer({ min: 0, max: 300_000 }), fc.tuple(fc.integer({ min: 8, max: 18 }), fc.integer({ min: -4, max: 4 })).map(([e, d]) => 2 ** e + d))
	await section('large values', {
		arb: fc.record({
			name: appName(NAMES),
			writes: fc.array(fc.record({ key, unit: fc.constantFrom('x', 'é', '日', '😀', 'a\u0000ÿ', '"', '\\'), size, lead: fc.nat(3), how: fc.constantFrom('set', 'updater', 'async updater', 'store') }), { minLength: 1, maxLength: 4 })
		}),
		runs: { quick: 60, thorough: 2000 },
		rule: 'up to four values of up to 300,000 characters of one to four bytes (also sizes next to powers of two), set directly, by sync and async updaters and through a store, read at once and after a reload; non-trivial: a value of more than 30,000 characters.',
		async check({ name, writes }, rec) {
			const localStorage = new FakeStorage()
			const model = new Map()
			let { preferences: p } = await start(sut.instantiate(browserEnv({ localStorage })), name)
			const views = where => {
				for (const [k, v] of model) {
					const read = p.get(k)
					if (read !== v) fail(`${where}: preference ${JSON.stringify(k)} of ${v.length} characters: ${read === undefined ? 'undefined' : `${read.length} characters, of which the first ${[...v].findIndex((c, i) => c !== [...read][i])} are right`}`)
				}
			}
			for (const [i, w] of writes.entries()) {
				const value = 'y'.repeat(w.lead) + w.unit.repeat(Math.ceil(w.size / w.unit.length))
				const where = `step ${i}: ${w.how} of ${value.length} characters`
				if (w.how === 'set') p.set(w.key, value)
				else if (w.how === 'updater') p.set(w.key, () => value)
				else if (w.how === 'async updater') await p.set(w.key, async () => value)
				else {
					const s = p.createStore(w.key, 'default')
					s.set(value)
					if (s.get() !== value) fail(`${where}: get() of the store`)
				}
				model.set(w.key, w.how === 'store' ? JSON.stringify(value) : value)
				rec.label('large', value.length > 30_000)
				views(where)
			}
			p = (await start(sut.instantiate(browserEnv({ localStorage, buffer: writes[0].lead % 2 === 0 })), name)).preferences
			views('after a reload')
			rec.nontrivial(rec.labels.has('large'))
		}
	})

	const colons = async () => {
		const m = sut.instantiate(browserEnv())
		return [await start(m, 'a'), await start(m, 'a:b')]
	}
	await probe('colon-key-collision', {
		what: "apps named 'a' and 'a:b' on one page: preference 'b:k' of the one and 'k' of the other",
		async check() {
			const [a, b] = await colons()
			a.preferences.set('b:k', 'of a')
			same(b.preferences.get('k'), undefined, "preference 'k' of app 'a:b' after app 'a' set 'b:k'")
		}
	})
	await probe('colon-clear-all', {
		what: "apps named 'a' and 'a:b' on one page: clearAll of the first",
		async check() {
			const [a, b] = await colons()
			b.preferences.set('k', 'of a:b')
			a.preferences.clearAll()
			same(b.preferences.get('k'), 'of a:b', "preference 'k' of app 'a:b' after app 'a' cleared all")
		}
	})
}
