import { anyValue, applyUpdate, history, isPlain, isUpdater, modelUpdate, size, stateable, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { mixedHistories } from '../harness/mix.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, ok, same, show } from '../harness/util.mjs'

export const assumptions = ['states hold no Map, Set or typed array (immer would need a plugin, and freezing refuses them); updaters either return a value or edit their draft, not both']

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	await section('plain data', {
		arb: fc.record({ init: anyValue, ops: history(updateArb, { maxLength: 20 }) }),
		runs: { quick: 4000, thorough: 120000 },
		rule: 'initial value and up to 20 updates, run on createStore, createRegistry and createState against a plain variable; non-trivial: at least 4 updates, of at least 3 kinds.',
		check({ init, ops }, rec) {
			same(S.isNothing(S.nothing), true, 'isNothing(nothing)')
			const store = S.createStore(clone(init))
			const initReg = typeof init === 'object' && init !== null ? clone(init) : undefined
			const registry = initReg && S.createRegistry(initReg)
			const [first, set, onChange, reset] = S.createState(clone(init))
			equal(first, init, 'createState: initial value')
			let tracked = first
			onChange(v => {
				tracked = v
			})
			const subjects = [
				{ name: 'store', t: store, get: () => store.get() },
				{ name: 'state', t: { set, reset }, get: () => tracked }
			]
			if (registry) subjects.push({ name: 'registry', t: registry, get: () => registry.get() })
			let model = clone(init)
			for (const s of subjects) equal(s.get(), model, `${s.name}: initial value`)
			let work = 0
			ops.forEach((op, i) => {
				// many updates of a big value
				if (work > 20_000) return
				work += size(model, 1000)
				const next = modelUpdate(op, model, init)
				for (const s of subjects) {
					const where = () => `${s.name}, update ${i} (${op.op})`
					let calls = 0
					const r = applyUpdate(s.t, op, s.get(), S.nothing, draft => {
						calls++
						equal(clone(draft), model, () => `${where()}: what the updater is given`)
					})
					if (isUpdater(op)) equal(calls, 1, () => `${where()}: number of calls of the updater`)
					equal(s.get(), next, where)
					if (op.op !== 'reset') same(r, s.get(), () => `${where()}: result of set`)
				}
				model = next
				same(S.isNothing(next), false, () => `isNothing of the value after update ${i}`)
				rec.label(op.op)
			})
			rec.nontrivial(ops.length >= 4 && rec.labels.size >= 3)
			for (const op of ops) rec.label('clears', op.op === 'nothing')
		}
	})

	const fns = [() => 1, () => 2, async () => 3, Object.assign(() => 4, { x: 1 })]
	await section('functions as values', {
		arb: fc.record({
			init: fc.nat(3),
			ops: history(fc.oneof(fc.record({ set: fc.nat(3) }), fc.constant({ reset: true }), fc.constant({ undef: true })), { maxLength: 12 })
		}),
		runs: { quick: 500, thorough: 5000 },
		rule: 'histories over a state created with a function; non-trivial: at least two different functions set.',
		check({ init, ops }, rec) {
			const mk = fns.map(f => Object.assign((...a) => f(...a), f))
			const store = S.createStore(mk[init])
			let model = mk[init]
			same(store.get(), model, 'initial function')
			const used = new Set()
			for (const op of ops) {
				if (op.reset) {
					store.reset()
					model = mk[init]
				} else if (op.undef) {
					same(store.set(undefined), undefined, 'set(undefined) result')
					model = undefined
				} else {
					same(store.set(mk[op.set]), mk[op.set], 'set(fn) result')
					model = mk[op.set]
					used.add(op.set)
				}
				same(store.get(), model, () => `after ${JSON.stringify(op)}`)
			}
			rec.nontrivial(used.size >= 2)
		}
	})

	await section('values of other kinds', {
		arb: fc.record({
			init: stateable.filter(v => typeof v !== 'function'),
			ops: history(fc.oneof({ weight: 4, arbitrary: fc.record({ set: stateable }) }, { weight: 3, arbitrary: fc.record({ give: stateable }) }, { weight: 1, arbitrary: fc.constantFrom('nothing', 'noop', 'self', 'reset') }), { maxLength: 12 })
		}),
		runs: { quick: 1500, thorough: 20000 },
		rule: 'the initial value, direct values and what updaters return are of any kind (functions only from updaters, promises only directly), e.g. dates, errors, class instances, promises, symbols, sparse arrays, objects without a prototype or with symbol keys, shared parts; every value is read back as it was given (what is not plain data as the very same); non-trivial: at least 3 different values are set, both ways.',
		check({ init, ops }, rec) {
			const store = S.createStore(init)
			const [first, set, onChange, reset] = S.createState(init)
			same(first, init, 'createState: initial value')
			same(store.get(), init, 'createStore: initial value')
			let tracked = first
			onChange(v => {
				tracked = v
			})
			const subjects = [
				{ name: 'store', set: store.set, reset: store.reset, get: store.get },
				{ name: 'state', set, reset, get: () => tracked }
			]
			const ways = new Set()
			let model = init
			for (const [i, op] of ops.entries()) {
				const where = `update ${i} (${show(op)})`
				let next = model
				let f
				if ('set' in Object(op)) {
					next = op.set
					f = typeof next === 'function' ? () => next : undefined
					ways.add(f ? 'returned' : 'direct')
				} else if ('give' in Object(op)) {
					next = op.give
					f = next instanceof Promise ? undefined : () => (next === undefined ? S.nothing : next)
					ways.add(f ? 'returned' : 'direct')
				} else if (op === 'nothing') {
					next = undefined
					f = () => S.nothing
				} else if (op === 'noop') f = () => {}
				else if (op === 'self') f = d => (d instanceof Promise ? undefined : d)
				else next = init
				for (const s of subjects) {
					if (op === 'reset') s.reset()
					else {
						let given = false
						const r = f
							? s.set(d => {
									given = true
									ok(typeof d === typeof model, `${s.name}, ${where}: what the updater is given`)
									return f(d)
								})
							: s.set(next)
						same(given, f !== undefined, `${s.name}, ${where}: the updater is called`)
						if (isPlain(next)) equal(r, next, `${s.name}, ${where}: result of set`)
						else same(r, next, `${s.name}, ${where}: result of set`)
					}
					if (isPlain(next)) equal(s.get(), next, `${s.name}, ${where}`)
					else same(s.get(), next, `${s.name}, ${where}`)
				}
				model = next
			}
			rec.label('direct', ways.has('direct'))
			rec.label('returned', ways.has('returned'))
			rec.nontrivial(ways.size === 2 && ops.length >= 3)
		}
	})

	await mixedHistories(section, S, ['values'], { quick: 7000, thorough: 200000 })
}
