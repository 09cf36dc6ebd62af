import { anyValue, applyUpdate, history, isPlain, modelUpdate, stateable, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { mixedHistories } from '../harness/mix.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, eq, equal, fail, ok, resolved, same } from '../harness/util.mjs'

export const assumptions = ['handlers do not update the state themselves and do not throw']

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	await section('notifications', {
		arb: fc.record({
			init: anyValue,
			kind: fc.constantFrom('store', 'state', 'registry', 'readonly'),
			before: fc.nat(3),
			ops: history(fc.oneof({ weight: 8, arbitrary: updateArb }, { weight: 1, arbitrary: fc.constant({ op: 'subscribe' }) }), {
				maxLength: 20
			})
		}),
		runs: { quick: 4000, thorough: 120000 },
		rule: 'histories of updates with subscribers joining; every update is classified by Object.is on the value before and after and every handler must have been called once or not at all; non-trivial: at least 2 subscribers, 2 changes and 1 update without a change.',
		check({ init, kind, before, ops }, rec) {
			let target
			let get
			let onChange
			let tracked
			if (kind === 'state') {
				const [v, set, on, reset] = S.createState(clone(init))
				tracked = v
				target = { set, reset }
				onChange = on
				get = () => tracked
			} else {
				target = kind === 'registry' ? S.createRegistry(typeof init === 'object' && init !== null ? clone(init) : {}) : S.createStore(clone(init))
				const view = kind === 'readonly' ? S.toReadonlyStore(target) : target
				get = () => view.get()
				onChange = h => view.onChange(h)
			}
			const start = clone(get())
			let calls = []
			let n = 0
			const subscribe = () => {
				const id = n++
				onChange((value, prev, ...rest) => {
					if (kind === 'state') tracked = value
					calls.push({ id, value, prev, seen: get(), extra: rest.length })
				})
			}
			if (kind === 'state') before = Math.max(before, 1)
			for (let i = 0; i < before; i++) subscribe()
			let changes = 0
			let quiet = 0
			let model = start
			ops.forEach((op, i) => {
				if (op.op === 'subscribe') return subscribe()
				const where = () => `${kind}, update ${i} (${op.op})`
				const old = get()
				calls = []
				const next = modelUpdate(op, model, start)
				applyUpdate(target, op, old, S.nothing)
				const now = get()
				if (!eq(next, model) && Object.is(old, now)) fail(`${where()}: the value should have changed`)
				if (op.op === 'noop' || op.op === 'same' || op.op === 'self')
					ok(Object.is(old, now), () => `${where()}: the value must stay the same`)
				model = next
				if (Object.is(old, now)) {
					quiet++
					equal(calls.length, 0, () => `${where()}: handlers called although nothing changed`)
				} else {
					changes++
					equal(calls.map(c => c.id), [...Array(n).keys()], () => `${where()}: handlers called, in order`)
					for (const c of calls) {
						same(c.value, now, () => `${where()}: new value given to handler ${c.id}`)
						same(c.prev, old, () => `${where()}: previous value given to handler ${c.id}`)
						same(c.seen, now, () => `${where()}: get() inside handler ${c.id}`)
					}
				}
			})
			// an untouched state is reset without a change
			const fresh = kind === 'state' ? undefined : S.createStore(clone(init))
			if (fresh) {
				let hits = 0
				fresh.onChange(() => hits++)
				fresh.reset()
				equal(hits, 0, 'reset of an untouched store')
			}
			rec.label(kind)
			rec.nontrivial(n >= 2 && changes >= 2 && quiet >= 1)
		}
	})

	await section('values of other kinds', {
		arb: fc.record({
			init: stateable.filter(v => typeof v !== 'function'),
			kind: fc.constantFrom('store', 'state', 'readonly'),
			ops: history(fc.oneof({ weight: 4, arbitrary: fc.record({ v: stateable, how: fc.constantFrom('direct', 'returned', 'later') }) }, { weight: 1, arbitrary: fc.constantFrom('same', 'reset', 'noop') }), { maxLength: 10 })
		}),
		runs: { quick: 800, thorough: 15000 },
		rule: 'values of any kind (dates, errors, functions, promises, symbols, class instances, sparse arrays, ...) set directly, returned by an updater or resolved by an async one, with two handlers; every change is notified with the value before and after; non-trivial: at least 3 changes.',
		async check({ init, kind, ops }, rec) {
			let cur = init
			let target
			let on
			if (kind === 'state') {
				const [, set, onChange, reset] = S.createState(init)
				target = { set, reset, get: () => cur }
				on = onChange
			} else {
				target = S.createStore(init)
				on = kind === 'store' ? target.onChange : S.toReadonlyStore(target).onChange
			}
			let calls = []
			for (const n of [0, 1])
				on((v, prev, ...rest) => {
					cur = v
					calls.push({ n, v, prev, rest: rest.length })
				})
			let changes = 0
			for (const [i, op] of ops.entries()) {
				const where = `${kind}, update ${i}`
				const old = target.get()
				calls = []
				if (op === 'same') typeof old === 'function' ? target.set(() => old) : target.set(old)
				else if (op === 'reset') target.reset()
				else if (op === 'noop') target.set(() => {})
				else {
					const how = op.v instanceof Promise ? 'direct' : typeof op.v === 'function' && op.how === 'direct' ? 'returned' : op.how
					rec.label(how)
					const out = op.v === undefined ? S.nothing : op.v
					if (how === 'direct') target.set(op.v)
					else if (how === 'returned') target.set(() => out)
					else await resolved(target.set(async () => out), `${where}: the promise of set`)
					// what is not data is the very same
					if (how === 'direct' || !isPlain(op.v)) ok(Object.is(target.get(), op.v), `${where}: the value must be the one given`)
				}
				const now = target.get()
				if (Object.is(old, now)) equal(calls.length, 0, `${where}: notifications without a change`)
				else {
					changes++
					equal(calls.map(c => c.n), [0, 1], `${where}: handlers called`)
					for (const c of calls) {
						same(c.v, now, `${where}: new value given to handler ${c.n}`)
						same(c.prev, old, `${where}: previous value given to handler ${c.n}`)
					}
				}
			}
			rec.nontrivial(changes >= 3)
		}
	})

	await mixedHistories(section, S, ['changes'], { quick: 7000, thorough: 200000 })
}
