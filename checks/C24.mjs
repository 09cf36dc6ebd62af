import { appName, history } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, resolved, same, turn } from '../harness/util.mjs'

export const assumptions = ['no gizmo replaces `log` (see C25)', 'fields are not called `load` (reserved by the gizmo library while an app is created)', 'one init callback']

const FIELDS = ['a', 'b', 'c', 'x', 'name', 'id', 'toString']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing' })
	const m = sut.instantiate(browserEnv())
	const { define, incubate } = m.app
	const fields = fc.dictionary(fc.constantFrom(...FIELDS), fc.oneof(fc.nat(9), fc.constantFrom(undefined, null, 'v', { o: 1 })), { maxKeys: 3, noNullPrototype: true })
	const turns = fc.nat(2)
	const gizmo = fc.record({
		op: fc.constant('with'),
		shape: fc.constantFrom('record', 'tuple', 'start only', 'nothing', 'tuple without start', 'nested'),
		how: fc.constantFrom('plain', 'define', 'define function', 'sync'),
		fields,
		turns,
		startTurns: turns,
		closes: fc.boolean(),
		sees: fc.boolean()
	})
	const step = fc.oneof({ weight: 5, arbitrary: gizmo }, { weight: 1, arbitrary: fc.record({ op: fc.constant('merge'), fields }) })
	await section('programs', {
		arb: fc.record({
			test: fc.boolean(),
			name: appName(['app', 'x', '']),
			steps: history(step, { maxLength: 7 }),
			init: fc.option(fc.record({ turns, at: fc.nat(7), closes: fc.boolean() })),
			start: fc.option(fc.record({ turns, closes: fc.boolean() })),
			twice: fc.boolean()
		}),
		runs: { quick: 2000, thorough: 50000 },
		rule: 'composition programs of up to 7 gizmos (records, tuples with and without start function, value-less, nested incubations; plain, through define, sync and async with 0 to 2 turns) and merged objects with colliding fields, an init callback at any place and a start callback, created once or twice, against folding the fields; the order of all callbacks and the fields each one sees are checked, and then the cleanup functions they returned; non-trivial: a field is overridden, a start function runs, and at least two steps take time.',
		async check({ test, name, steps, init, start, twice }, rec) {
			const trace = []
			const wait = async n => {
				for (let i = 0; i < n; i++) await turn()
			}
			const snapshot = ctx => Object.fromEntries(Object.keys(ctx).filter(k => k !== 'load' && k !== 'log').map(k => [k, ctx[k]]))
			let expected
			let contexts
			let inc = test ? m.appT.justTestApp({ name }) : m.app.justApp({ name, log: { reporters: [] } })
			let live = true
			const note = (what, ctx) => {
				ok(live, `${what} runs after creation completed`)
				trace.push({ what, sees: ctx ? snapshot(ctx) : undefined, hasLog: ctx ? typeof ctx.log?.info === 'function' : undefined })
			}
			let closed = []
			const closers = (yes, what) => {
				// the function returned knows the round it was made in
				const round = rounds
				return yes ? () => void closed.push(`${what} of round ${round}`) : undefined
			}
			let rounds = 0
			const definition = (s, i) => {
				const value = { ...s.fields }
				const started = async () => {
					note(`start ${i} begins`)
					await wait(s.startTurns)
					note(`start ${i} ends`)
					return closers(s.closes, `start ${i}`)
				}
				const result = () => {
					if (s.shape === 'record' || s.shape === 'nested') return value
					if (s.shape === 'tuple') return [value, started]
					if (s.shape === 'start only') return [undefined, started]
					if (s.shape === 'tuple without start') return [value]
					return undefined
				}
				if (s.how === 'sync' && s.shape !== 'nested')
					return {
						create(ctx) {
							note(`create ${i}`, ctx)
							return result()
						}
					}
				const g = {
					async create(ctx) {
						note(`create ${i}`, ctx)
						await wait(s.turns)
						if (s.shape === 'nested') return incubate(s.sees ? ctx : undefined).with({ create: async () => value }).create()
						return result()
					}
				}
				if (s.how === 'define') return define(g)
				if (s.how === 'define function') return define(() => g)()
				return g
			}
			const initAt = init ? init.at % (steps.length + 1) : -1
			const initializer = async ctx => {
				note('init begins', ctx)
				await wait(init.turns)
				note('init ends', ctx)
				return closers(init.closes, 'init')
			}
			const merged = []
			for (const [i, s] of steps.entries()) {
				if (i === initAt) inc = inc.init(initializer)
				if (s.op === 'merge') {
					const o = { ...s.fields }
					merged.push([o, { ...s.fields }])
					inc = inc.merge(o)
				} else inc = inc.with(definition(s, i))
			}
			if (initAt === steps.length) inc = inc.init(initializer)

			const ids = new Set()
			const made = []
			for (let round = 0; round < (twice ? 2 : 1); round++) {
				live = true
				rounds = round
				trace.length = 0
				const started = start
					? async ctx => {
							note('app start begins', ctx)
							await wait(start.turns)
							note('app start ends', ctx)
							startedWith = ctx
							return closers(start.closes, 'app start')
						}
					: undefined
				let startedWith
				const app = await resolved(started ? inc.create(started) : inc.create(), 'app creation')
				live = false
				if (started) same(startedWith, app, 'the app given to start')
				// fold the program
				const before = trace[0]?.sees
				const id = before && !Object.hasOwn(before, 'id') ? undefined : before ? before.id : app.id
				const fold = { name, id }
				const expectedTrace = []
				const see = what => expectedTrace.push({ what, sees: { ...fold }, hasLog: true })
				let overridden = false
				for (const [i, s] of steps.entries()) {
					if (s.op === 'with') {
						see(`create ${i}`)
						if (s.shape === 'tuple' || s.shape === 'start only') {
							expectedTrace.push({ what: `start ${i} begins`, sees: undefined, hasLog: undefined }, { what: `start ${i} ends`, sees: undefined, hasLog: undefined })
							rec.label('start function')
						}
						if (s.shape === 'start only' || s.shape === 'nothing') continue
					}
					for (const k of Object.keys(s.fields)) {
						if (Object.hasOwn(fold, k)) overridden = true
						fold[k] = s.fields[k]
					}
				}
				const ownId = steps.some(s => Object.hasOwn(s.fields, 'id') && !(s.op === 'with' && (s.shape === 'start only' || s.shape === 'nothing')))
				if (init) {
					see('init begins')
					see('init ends')
				}
				if (start) {
					see('app start begins')
					see('app start ends')
				}
				// the generated id is only known from the app
				const generated = trace.find(t => t.sees)?.sees.id ?? app.id
				if (!ownId) same(app.id, generated, 'the id seen while creating')
				if (!before) for (const t of [fold, ...expectedTrace.map(t => t.sees)]) if (t && !ownId) t.id = app.id
				equal(trace.map(t => t.what), expectedTrace.map(t => t.what), 'order of callbacks')
				equal(trace, expectedTrace, 'callbacks and the fields they see')
				equal(snapshot(app), fold.id === undefined && !ownId ? { ...fold, id: app.id } : fold, 'fields of the app')
				ok(typeof app.log?.info === 'function' && Object.hasOwn(app, 'log'), 'the app has its log')
				ok(!Object.hasOwn(app, 'load'), 'the app has no extra field')
				if (!ownId) {
					ok(!ids.has(app.id), 'apps of the same program have ids of their own')
					ids.add(app.id)
				}
				for (const [o, copy] of merged) equal(o, copy, 'the merged object')
				rec.label('overridden', overridden)
				const toClose = steps.flatMap((s, i) => (s.op === 'with' && s.closes && (s.shape === 'tuple' || s.shape === 'start only') ? [`start ${i}`] : []))
				if (init?.closes) toClose.push('init')
				if (start?.closes) toClose.push('app start')
				made.push([app, toClose.map(what => `${what} of round ${round}`)])
			}
			equal(closed, [], 'cleanup functions called before the cleanup')
			// the last app first
			for (const [app, toClose] of made.reverse()) {
				const fields = snapshot(app)
				incubate.cleanup(app)
				equal(closed, toClose, 'cleanup functions called by the cleanup')
				equal(snapshot(app), fields, 'fields of the app after the cleanup')
				if (closed.length > 1) rec.label('several cleanup functions')
				closed = []
			}
			rec.label('twice', twice)
			rec.label('two steps take time', steps.filter(s => s.op === 'with' && s.turns && s.how !== 'sync').length > 1)
			rec.nontrivial(['overridden', 'start function', 'two steps take time'].every(l => rec.labels.has(l)))
		}
	})
}
