import { create } from '../harness/apps.mjs'
import { appName, history, ident, json } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, copy, equal, same, settled } from '../harness/util.mjs'

export const assumptions = ['apps with browser preferences on one page have different names without a colon']

export default async function ({ section }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		app: '@just-web/app',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		prefs: '@just-web/preferences',
		browser: '@just-web/browser',
		bp: '@just-web/browser-preferences',
		preset: '@just-web/presets-browser'
	})
	const env = browserEnv()
	const m = sut.instantiate(env)
	const start = a => {
		const inc = m.app.justApp({ name: a.name, log: { reporters: [] } })
		if (a.impl === 'preset') return create(inc.with(m.commands.commandsGizmoFn()).with(m.preset.presetsBrowserGizmoFn()))
		let x = inc
		if (a.keyboard) x = x.with(m.keyboard.keyboardGizmoFn())
		x = x.with(m.commands.commandsGizmoFn())
		if (a.impl === 'memory') return create(x.with(m.prefs.memoryPreferencesGizmo))
		return create(x.with(m.browser.browserGizmoFn()).with(m.bp.browserPreferencesGizmo))
	}
	const n = fc.nat(3)
	const key = ident(['a', 'b', 'c'])
	const value = fc.constantFrom('1', '2', '3', '', 'x')
	const op = fc.oneof(
		{ weight: 2, arbitrary: fc.constant({ op: 'create' }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), n, key, value }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('append'), n, key }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('remove'), n, key }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('async'), n, key, value }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('settle'), n }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clearAll'), n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('store'), n, json }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('storeUpdate'), n }) }
	)
	await section('apps', {
		arb: fc.record({
			apps: fc.uniqueArray(fc.record({ impl: fc.constantFrom('memory', 'browser', 'browser', 'preset'), name: appName(['a', 'b', 'app']), keyboard: fc.boolean(), twin: fc.nat() }), { selector: a => (a.impl === 'memory' ? `${a.name}:${a.twin}` : a.name), minLength: 2, maxLength: 4 }),
			early: fc.integer({ min: 1, max: 2 }),
			ops: history(op, { minLength: 3, maxLength: 18 })
		}),
		runs: { quick: 1500, thorough: 40000 },
		rule: 'two to four apps (memory, browser or preset preferences, with and without keyboard) created before or between up to 18 operations on any of them through app.preferences and through stores made when the app was created, against one map per app; non-trivial: an app is changed after a later app was created, and two apps hold values.',
		async check({ apps, early, ops }, rec) {
			env.localStorage.clear()
			const running = []
			const model = []
			let next = 0
			const add = async () => {
				if (next >= apps.length) return
				const a = await start(apps[next])
				const store = a.preferences.createStore('store', { d: 0 })
				running.push({ p: a.preferences, store })
				model.push(new Map())
				next++
			}
			const views = where => {
				running.forEach(({ p, store }, i) => {
					for (const k of new Set(['a', 'toString', ...model.flatMap(x => [...x.keys()])])) {
						if (k === 'store') continue
						same(p.get(k), model[i].get(k), `${where}: app ${i} (${apps[i].impl}): get(${JSON.stringify(k)})`)
						same(p.get(k, 'd'), model[i].get(k) ?? 'd', `${where}: app ${i} (${apps[i].impl}): get(${JSON.stringify(k)}, default)`)
					}
					equal(store.get(), model[i].has('store') ? model[i].get('store') : { d: 0 }, `${where}: store of app ${i} (${apps[i].impl})`)
				})
			}
			for (let i = 0; i < early; i++) await add()
			views('initially')
			const pending = []
			const finish = async (t, where) => {
				t.resolve(t.value)
				await settled(t.promise, where)
				model[t.i].set(t.key, t.value)
			}
			for (const [j, op] of ops.entries()) {
				if (op.op === 'create') {
					await add()
					views(`step ${j}: after creating another app`)
					continue
				}
				const i = op.n % running.length
				const { p, store } = running[i]
				const mo = model[i]
				const where = `step ${j}: ${op.op} of app ${i} (${apps[i].impl})`
				if (op.key === 'store') continue
				if (op.op === 'set') {
					p.set(op.key, op.value)
					mo.set(op.key, op.value)
				} else if (op.op === 'append') {
					p.set(op.key, v => `${v ?? ''}+`)
					mo.set(op.key, `${mo.get(op.key) ?? ''}+`)
				} else if (op.op === 'remove') {
					p.set(op.key, undefined)
					mo.delete(op.key)
				} else if (op.op === 'async') {
					const t = { i, key: op.key, value: op.value }
					t.promise = p.set(op.key, () => new Promise(r => (t.resolve = r)))
					pending.push(t)
				} else if (op.op === 'settle') {
					if (!pending.length) continue
					await finish(pending.splice(op.n % pending.length, 1)[0], where)
				} else if (op.op === 'clearAll') {
					p.clearAll()
					rec.label('clearAll next to others', mo.size > 0 && model.some((x, k) => k !== i && x.size))
					mo.clear()
				} else if (op.op === 'store') {
					store.set(copy(op.json))
					mo.set('store', clone(op.json))
				} else if (op.op === 'storeUpdate') {
					store.set(v => ({ v: v ?? null }))
					mo.set('store', { v: mo.has('store') ? mo.get('store') : { d: 0 } })
				}
				rec.label('older app changed', i < running.length - 1)
				rec.label('two apps hold values', model.filter(x => x.size).length > 1)
				views(where)
			}
			while (pending.length) await finish(pending.pop(), 'at the end')
			views('at the end')
			rec.nontrivial(rec.labels.has('older app changed') && rec.labels.has('two apps hold values'))
		}
	})
}
