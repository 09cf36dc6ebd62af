import { create } from '../harness/apps.mjs'
import { MARKS, applyEdit, editArbOf, history, json, text } from '../harness/gen.mjs'
import { browserEnv, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, copy, eq, equal, same, settled, turn } from '../harness/util.mjs'

export const assumptions = ['values are JSON values', 'nobody else writes to the preferences of the stores', 'the default is not modified by those who read it']

const KEYS = ['k', 'k2', 'toString', 'a:b']

export default async function ({ section }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		app: '@just-web/app',
		commands: '@just-web/commands',
		prefs: '@just-web/preferences',
		browser: '@just-web/browser',
		bp: '@just-web/browser-preferences',
		states: '@just-web/states'
	})
	const shared = sut.instantiate(browserEnv())
	const jsonLeaf = fc.oneof(fc.integer({ min: -3, max: 3 }), fc.constantFrom(null, false, true, '', 'x', [], {}, [0], { a: {} }))
	const edits = fc.array(editArbOf(jsonLeaf), { minLength: 1, maxLength: 3 })
	const result = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ kind: fc.constant('value'), value: json }) },
		{ weight: 5, arbitrary: fc.record({ kind: fc.constant('edit'), edits, after: edits }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'wrap' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'self' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'noop' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'nothing' }) },
		{ weight: 1, arbitrary: fc.record({ kind: fc.constant('fail'), edits }) }
	)
	const n = fc.nat(3)
	const op = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), n, after: edits, value: fc.oneof({ weight: 6, arbitrary: json }, { weight: 1, arbitrary: fc.constant(undefined) }) }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('update'), n, result }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('async'), n, result }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('settle'), n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('tamper'), n, edits }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'clearAll' }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'restart' }) }
	)
	const storeArb = fc.record({ key: fc.oneof({ weight: 8, arbitrary: fc.constantFrom('k', 'k', 'k', 'k2', 'toString', 'a:b', 'K', 'k ', 'k\u0301', 'ḱ', '', ...MARKS, ...MARKS, ...MARKS) }, { weight: 2, arbitrary: text }), def: fc.option(json, { nil: undefined }) })

	for (const impl of ['memory', 'browser'])
		await section(impl, {
			arb: fc.record({ stores: fc.array(storeArb, { minLength: 1, maxLength: 3 }), ops: history(op, { minLength: 1, maxLength: 16 }) }),
			runs: { quick: 2000, thorough: 50000 },
			rule: `one to three stores (also on the same key, with and without defaults) over ${impl} preferences and up to 16 sets, sync and async updaters that return, edit in place, clear or fail, changes to values that were read or given, clearAll${impl === 'browser' ? ' and restarts' : ''}, against a map of JSON values; non-trivial: an in-place edit of a nested value or of a default, and a falsy value, undefined or \`nothing\` stored.`,
			async check({ stores, ops }, rec) {
				const localStorage = new FakeStorage()
				const model = new Map()
				let m
				let app
				let list
				const load = async () => {
					if (impl === 'browser') {
						m = sut.instantiate(browserEnv({ localStorage }))
						app = await create(
							m.app.justApp({ name: 'x', log: { reporters: [] } }).with(m.commands.commandsGizmoFn()).with(m.browser.browserGizmoFn()).with(m.bp.browserPreferencesGizmo)
						)
					} else {
						m = shared
						app = await create(m.appT.justTestApp().with(m.commands.commandsGizmoFn()).with(m.prefs.memoryPreferencesGizmo))
					}
					list = stores.map(s => {
						const def = copy(s.def)
						return { key: s.key, def, store: def === undefined ? app.preferences.createStore(s.key) : app.preferences.createStore(s.key, def) }
					})
				}
				await load()
				const current = s => (model.has(s.key) ? model.get(s.key) : s.def)
				const views = where => {
					list.forEach((s, i) => {
						equal(s.def, stores[i].def, `${where}: the default given for store ${i}`)
						equal(s.store.get(), model.has(s.key) ? model.get(s.key) : stores[i].def, `${where}: get() of store ${i} (${s.key})`)
					})
				}
				/** What an updater makes of its argument; `draft` is edited in place. */
				const run = (result, draft) => {
					if (result.kind === 'value') return copy(result.value)
					if (result.kind === 'wrap') return { was: draft === undefined ? null : draft }
					if (result.kind === 'self') return draft
					if (result.kind === 'nothing') return m.states.nothing
					if (result.kind === 'edit' || result.kind === 'fail') if (typeof draft === 'object' && draft !== null) for (const e of result.edits) applyEdit(draft, e)
					return undefined
				}
				/** Finishes an update in the model. */
				const commit = (s, before, work, returned, result) => {
					const changed = !eq(before, work)
					if (returned === m.states.nothing) model.delete(s.key)
					else if (returned !== undefined) model.set(s.key, clone(returned))
					else if (changed) model.set(s.key, clone(work))
					else if (!result.wasSet) return false
					else if (result.was === undefined) model.delete(s.key)
					else model.set(s.key, result.was)
					rec.label('in-place edit', changed && returned === undefined)
					rec.label('in-place edit of a default', changed && returned === undefined && !result.wasSet)
					if (model.has(s.key)) rec.label('falsy or cleared', !model.get(s.key))
					else rec.label('falsy or cleared')
					return true
				}
				// an updater that changes nothing on a key without a value: the stored value may be absent
				// or the default from then on, so it is put into a definite state
				const normalize = s => {
					s.store.set(undefined)
					model.delete(s.key)
				}
				// what is stored is not shared with anyone
				const tamper = (value, edits) => {
					if (typeof value === 'object' && value !== null) for (const e of edits) applyEdit(value, e)
				}
				let pending = []
				const finish = async (t, where) => {
					if (t.result.kind === 'edit' && t.editable) {
						for (const e of t.result.after) {
							applyEdit(t.draft, e)
							applyEdit(t.work, e)
						}
						rec.label('edits after an await')
					}
					t.resume()
					const s = await settled(t.promise, `${where}: the promise returned by set`)
					if (t.result.kind === 'fail') {
						same(s.ok ? undefined : s.error, t.error, `${where}: error of a failing async updater`)
						return
					}
					if (!s.ok) throw s.error
					const r = t.result.kind === 'edit' || t.result.kind === 'noop' ? undefined : run(t.result, t.work)
					if (!commit(t.s, t.before, t.work, r, t)) normalize(t.s)
				}
				views('initially')
				for (const [i, op] of ops.entries()) {
					const s = list[(op.n ?? 0) % list.length]
					const where = `step ${i}: ${op.op}`
					if (op.op === 'set') {
						const given = copy(op.value)
						s.store.set(given)
						tamper(given, op.after)
						if (op.value === undefined) model.delete(s.key)
						else model.set(s.key, clone(op.value))
						rec.label('falsy or cleared', !op.value)
					} else if (op.op === 'update') {
						const before = clone(current(s))
						const work = clone(before)
						const returned = run(op.result, work)
						const error = new Error('updater')
						const args = []
						let thrown
						try {
							s.store.set(draft => {
								args.push(clone(draft))
								const r = run(op.result, draft)
								if (op.result.kind === 'fail') throw error
								return r
							})
						} catch (e) {
							thrown = { e }
						}
						equal(args, [before], `${where}: arguments of the updater`)
						if (op.result.kind === 'fail') same(thrown?.e, error, `${where}: error of a failing updater`)
						else {
							if (thrown) throw thrown.e
							if (!commit(s, before, work, returned, { wasSet: model.has(s.key), was: model.get(s.key) })) {
								equal(s.store.get(), before, `${where}: value after an updater that did nothing`)
								normalize(s)
							}
						}
					} else if (op.op === 'async') {
						const before = clone(current(s))
						const t = { s, result: op.result, before, work: clone(before), wasSet: model.has(s.key), was: clone(model.get(s.key)), error: new Error('async updater') }
						const gate = new Promise(r => (t.resume = r))
						const args = []
						t.promise = s.store.set(async draft => {
							args.push(clone(draft))
							t.draft = draft
							t.editable = typeof draft === 'object' && draft !== null
							if (op.result.kind === 'edit' || op.result.kind === 'fail') run(op.result, draft)
							await gate
							if (op.result.kind === 'fail') throw t.error
							return op.result.kind === 'edit' || op.result.kind === 'noop' ? undefined : run(op.result, draft)
						})
						if (op.result.kind === 'edit') run(op.result, t.work)
						t.promise?.then?.(
							() => {},
							() => {}
						)
						equal(args, [before], `${where}: arguments of the updater`)
						await turn()
						pending.push(t)
					} else if (op.op === 'settle') {
						if (!pending.length) continue
						await finish(pending.splice(op.n % pending.length, 1)[0], where)
					} else if (op.op === 'tamper') {
						if (!model.has(s.key)) continue
						const read = s.store.get()
						tamper(read, op.edits)
						rec.label('changes what it read', typeof read === 'object' && read !== null)
					} else if (op.op === 'clearAll') {
						app.preferences.clearAll()
						model.clear()
					} else {
						if (impl === 'memory') continue
						pending = []
						await load()
						rec.label('restart with values', model.size > 0)
					}
					views(where)
				}
				while (pending.length) {
					await finish(pending.pop(), 'at the end')
					views('at the end')
				}
				for (const k of KEYS) if (!stores.some(s => s.key === k)) same(app.preferences.get(k), undefined, `preference ${k} without a store`)
				rec.nontrivial(rec.labels.has('in-place edit') && rec.labels.has('falsy or cleared'))
			}
		})
}
