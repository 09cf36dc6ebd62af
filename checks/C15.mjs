import { create } from '../harness/apps.mjs'
import { PROTO_NAMES, history, ident, text } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, same, settled } from '../harness/util.mjs'

export const assumptions = ['keys and values are well-formed strings', 'one app at a time uses the preference commands']

export default async function ({ section }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		prefs: '@just-web/preferences',
		states: '@just-web/states',
		bp: '@just-web/browser-preferences/testing',
		bpg: '@just-web/browser-preferences'
	})
	const key = ident(['a', 'b', 'c', 'a:b', ''])
	const value = text
	const entry = fc.constantFrom('app', 'app', 'command', 'id')
	const result = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ kind: fc.constant('value'), value }) },
		{ weight: 3, arbitrary: fc.constant({ kind: 'append' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'undefined' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'nothing' }) },
		{ weight: 1, arbitrary: fc.constant({ kind: 'fail' }) }
	)
	const op = fc.oneof(
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('set'), key, value: fc.option(value, { nil: undefined, freq: 6 }), via: entry }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('update'), key, result, via: entry }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('async'), key, result, via: entry }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('settle'), n: fc.nat(3) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('get'), key, def: fc.option(value, { nil: undefined }), via: entry }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clearAll'), via: entry }) }
	)

	for (const impl of ['memory', 'browser'])
		await section(impl, {
			arb: fc.record({ buffer: fc.boolean(), keyboard: fc.boolean(), ops: history(op, { minLength: 1, maxLength: 20, crowd: 'key' }) }),
			runs: { quick: 2000, thorough: 50000 },
			rule: `up to 20 operations on ${impl} preferences through app.preferences, the commands or their ids, with sync and async updaters (settled in any order) that return, extend, remove or fail, over colliding, prototype-named and arbitrary Unicode keys and values, against a map; non-trivial: an async updater settles after another change of its key, or a removal and a failing updater hit an existing preference.`,
			async check({ buffer, keyboard, ops }, rec) {
				const m = instances(buffer)
				const { nothing } = m.states
				let app
				if (impl === 'browser') app = await m.bp.browserPreferencesGizmoTestApp()
				else {
					let inc = m.appT.justTestApp()
					if (keyboard) inc = inc.with(m.keyboard.keyboardGizmoFn())
					app = await create(inc.with(m.commands.commandsGizmoFn()).with(m.prefs.memoryPreferencesGizmo))
				}
				const p = app.preferences
				const byId = name => (...a) => app.commands.handlers.invoke(`just-web.${name}`, ...a)
				const api = via => {
					if (via === 'command') return { get: m.prefs.getUserPreference, set: m.prefs.setUserPreference, clearAll: m.prefs.clearAllUserPreferences }
					if (via === 'id') return { get: byId('getUserPreference'), set: byId('setUserPreference'), clearAll: byId('clearAllUserPreferences') }
					return { get: (...a) => p.get(...a), set: (...a) => p.set(...a), clearAll: () => p.clearAll() }
				}
				// the storage outlives the app of the previous case
				if (impl === 'browser') app.browser.localStorage.clear()
				const model = new Map()
				const version = new Map()
				const bump = k => version.set(k, (version.get(k) ?? 0) + 1)
				const store = (k, v) => {
					if (v === undefined) {
						rec.label('removes existing', model.has(k))
						model.delete(k)
					} else model.set(k, v)
					bump(k)
				}
				const outcome = (r, before) => {
					if (r.kind === 'value') return r.value
					if (r.kind === 'append') return `${before ?? ''}+`
					return r.kind === 'nothing' ? nothing : undefined
				}
				const pending = []
				const finish = async (t, where) => {
					rec.label('settles after another change of its key', t.version !== version.get(t.key))
					if (t.result.kind === 'fail') t.reject(t.error)
					else t.resolve(outcome(t.result, t.before))
					const s = await settled(t.promise, `${where}: the promise returned by set`)
					if (t.result.kind === 'fail') {
						same(s.ok ? undefined : s.error, t.error, `${where}: error of a failing async updater`)
						rec.label('failing on existing', model.has(t.key))
					} else {
						if (!s.ok) throw s.error
						const v = outcome(t.result, t.before)
						store(t.key, v === nothing ? undefined : v)
					}
				}
				let round = ops.length
				const views = where => {
					// in another order each time
					const keys = [...new Set([...model.keys(), ...PROTO_NAMES, 'a', 'b', 'zz'])]
					for (let i = 0, at = 3 * round++; i < keys.length; i++) {
						const k = keys[(i + at) % keys.length]
						same(p.get(k), model.get(k), `${where}: get(${JSON.stringify(k)})`)
						same(p.get(k, 'dflt'), model.has(k) ? model.get(k) : 'dflt', `${where}: get(${JSON.stringify(k)}, default)`)
					}
				}
				if (round % 2) views('initially')
				for (const [i, op] of ops.entries()) {
					const where = `step ${i}: ${op.op} ${JSON.stringify(op.key ?? '')}`
					const a = api(op.via)
					if (op.op === 'get') same(a.get(op.key, op.def), model.has(op.key) ? model.get(op.key) : op.def, where)
					else if (op.op === 'set') {
						a.set(op.key, op.value)
						store(op.key, op.value)
					} else if (op.op === 'update') {
						const seen = []
						const error = new Error('updater')
						let thrown
						try {
							a.set(op.key, v => {
								seen.push(v)
								if (op.result.kind === 'fail') throw error
								return outcome(op.result, v)
							})
						} catch (e) {
							thrown = { e }
						}
						equal(seen, [model.get(op.key)], `${where}: arguments of the updater`)
						if (op.result.kind === 'fail') {
							same(thrown?.e, error, `${where}: error of a failing updater`)
							rec.label('failing on existing', model.has(op.key))
						} else {
							if (thrown) throw thrown.e
							const v = outcome(op.result, model.get(op.key))
							store(op.key, v === nothing ? undefined : v)
						}
					} else if (op.op === 'async') {
						const seen = []
						const t = { key: op.key, result: op.result, before: model.get(op.key), version: version.get(op.key), error: new Error('async updater') }
						const work = new Promise((resolve, reject) => Object.assign(t, { resolve, reject }))
						t.promise = a.set(op.key, v => {
							seen.push(v)
							return work
						})
						t.promise?.then?.(
							() => {},
							() => {}
						)
						work.catch(() => {})
						equal(seen, [t.before], `${where}: arguments of the updater`)
						pending.push(t)
					} else if (op.op === 'settle') {
						if (!pending.length) continue
						await finish(pending.splice(op.n % pending.length, 1)[0], where)
					} else {
						a.clearAll()
						for (const k of model.keys()) bump(k)
						rec.label('clears', model.size > 0)
						model.clear()
					}
					views(where)
				}
				while (pending.length) {
					await finish(pending.pop(), 'at the end')
					views('at the end')
				}
				rec.nontrivial(rec.labels.has('settles after another change of its key') || (rec.labels.has('removes existing') && rec.labels.has('failing on existing')))
			}
		})

	function instances(buffer) {
		instances[buffer] ??= sut.instantiate(browserEnv({ buffer }))
		return instances[buffer]
	}
}
