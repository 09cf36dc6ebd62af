import { anyValue, applyUpdate, container, history, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { create } from '../harness/apps.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, fail, settled, same, show, turn } from '../harness/util.mjs'

export const assumptions = ['handlers do not throw', 'the log of the app is not replaced']

const ALL = Number.POSITIVE_INFINITY

export default async function ({ section }) {
	const sut = await buildSut({ appT: '@just-web/app/testing', app: '@just-web/app', states: '@just-web/states', log: '@just-web/log' })
	const m = sut.instantiate(browserEnv())
	const S = m.states
	const step = fc.oneof(
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('update'), u: updateArb }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('async'), u: updateArb, rejects: fc.boolean() }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'throw' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('subscribe'), again: fc.boolean() }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('unsubscribe'), n: fc.nat(5) }) }
	)
	const stateArb = fc.record({
		kind: fc.constantFrom('state', 'store', 'registry'),
		app: fc.nat(1),
		meta: fc.constantFrom('none', 'none', 'empty', 'undefined', 'other', 'own logger'),
		init: fc.tuple(anyValue, container),
		noInit: fc.boolean()
	})

	await section('states', {
		arb: fc.record({
			states: fc.array(stateArb, { minLength: 1, maxLength: 3 }),
			test: fc.boolean(),
			steps: history(fc.record({ n: fc.nat(2), step }), { maxLength: 15 })
		}),
		runs: { quick: 1500, thorough: 30000 },
		rule: 'up to 3 states of two apps, each next to a stand-alone twin that is given a reference logger; up to 15 updates (sync, async, failing) and subscriptions; results, values, notifications and what is logged at every level must agree, and the entries must be in the log of the right app under its name, or in the given logger only; non-trivial: at least two states and 4 steps.',
		async check({ states, test, steps }, rec) {
			const apps = []
			for (const name of ['one', 'two']) {
				const memory = m.log.createMemoryLogReporter()
				const log = { logLevel: ALL, reporters: [memory] }
				const app = await create((test ? m.appT.justTestApp : m.app.justApp)({ name, log }).with(S.statesGizmo))
				apps.push({ app, memory, name })
			}
			const outside = await create(m.appT.justTestApp({ name: 'outside', log: { logLevel: ALL } }))
			const twinLog = await create(m.appT.justTestApp({ name: 'twin', log: { logLevel: ALL } }))
			const reports = [...apps.map(a => a.memory), outside.log.reporter]
			const from = reports.map(r => r.logs.length)
			const twinFrom = () => twinLog.log.reporter.logs
			let twinSeen = twinFrom().length
			/** new entries: [place, id, level, args] */
			const news = () =>
				reports.flatMap((r, i) => {
					const list = r.logs.slice(from[i])
					from[i] = r.logs.length
					return list.map(e => [i, e.id, e.level, ...e.args.map(show)])
				})
			const twinNews = () => {
				const list = twinFrom().slice(twinSeen)
				twinSeen = twinFrom().length
				return list.map(e => [e.level, ...e.args.map(show)])
			}
			const objects = []
			const compareLogs = (o, what) => {
				const expected = twinNews().map(([level, ...args]) => [o.place, o.id, level, ...args])
				equal(news(), expected, `entries logged by ${what} of ${o.what}`)
				return expected
			}
			const build = (api, s, meta) => {
				const args = s.kind === 'registry' ? (s.noInit && meta === undefined ? [] : [s.noInit ? undefined : clone(s.init[1])]) : [clone(s.init[0])]
				if (meta !== undefined) args.push(meta)
				if (s.kind === 'state') {
					const [value, set, onChange, reset] = api.createState(...args)
					const o = { value, set, onChange, reset }
					onChange(v => (o.value = v))
					return { ...o, get: () => o.value }
				}
				return s.kind === 'store' ? api.createStore(...args) : api.createRegistry(...args)
			}
			for (const s of states) {
				const { app, name } = apps[s.app]
				const own = s.meta === 'other' || s.meta === 'own logger'
				const meta =
					s.meta === 'none' ? undefined
					: s.meta === 'empty' ? {}
					: s.meta === 'undefined' ? { logger: undefined }
					: { logger: s.meta === 'other' ? outside.log.getLogger() : app.log.getLogger('own') }
				const o = {
					what: `${s.kind} of app ${name} with meta ${s.meta}`,
					place: s.meta === 'other' ? 2 : s.app,
					id: s.meta === 'other' ? 'outside' : own ? `${name}:own` : name,
					subs: [[], []],
					offs: [[], []]
				}
				o.real = build(app.states, s, meta)
				o.twin = build(S, s, { logger: twinLog.log.getLogger() })
				compareLogs(o, 'creation')
				objects.push(o)
			}
			const view = t => [t.get(), ...(t.keys && typeof t.get() === 'object' && t.get() !== null ? [t.keys(), t.size(), t.values(), t.has('a')] : [])]
			for (const { n, step } of steps) {
				const o = objects[n % objects.length]
				const results = []
				const before = o.twin.get()
				const calls = [[], []]
				o.heard = calls
				for (const [i, t] of [o.real, o.twin].entries()) {
					const run = async () => {
						if (step.op === 'update') {
							const r = applyUpdate(t, step.u, t.get(), S.nothing)
							return step.u.op === 'reset' ? undefined : [r, r === t.get()]
						}
						if (step.op === 'async')
							return t.set(async draft => {
								await turn()
								if (step.rejects) throw new Error('rejected')
								return step.u.value ?? null
							})
						if (step.op === 'throw')
							return t.set(() => {
								throw new Error('thrown')
							})
						if (step.op === 'subscribe') {
							const list = o.subs[i]
							let h = step.again ? list[0] : undefined
							if (!h) {
								const k = list.length
								h = (v, p) => o.heard[i].push([k, v, p, t.get()])
								list.push(h)
							}
							o.offs[i].push(t.onChange(h))
							return
						}
						const off = o.offs[i][step.n % o.offs[i].length]
						return off?.()
					}
					results.push(await settled(run(), step.op))
				}
				const [a, b] = results
				if (a.ok !== b.ok) fail(`${step.op} of ${o.what}: ${show(a)} but stand-alone ${show(b)}`)
				if (a.ok) equal(a.value, b.value, `result of ${step.op} of ${o.what}`)
				else same(a.error.message, b.error.message, `error of ${step.op} of ${o.what}`)
				equal(calls[0], calls[1], `notifications of ${step.op} of ${o.what}`)
				for (const x of objects) equal(view(x.real), view(x.twin), `${x.what} after ${step.op} of ${o.what}`)
				const entries = compareLogs(o, step.op)
				const after = o.twin.get()
				const told = entries.filter(e => e[2] === m.log.logLevels.planck && e.at(-2) === show(before) && e.at(-1) === show(after))
				same(told.length, Object.is(before, after) ? 0 : 1, `number of entries telling the change by ${step.op} of ${o.what}`)
				rec.label('change logged', told.length > 0)
				rec.label(step.op)
			}
			for (const s of states) {
				rec.label(s.kind)
				rec.label(`meta ${s.meta}`)
			}
			rec.nontrivial(states.length > 1 && steps.length > 3)
		}
	})
}
