import { anyValue, applyEdit, applyUpdate, container, data, editArb, history, isPlain, modelUpdate, stateable, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { mixedHistories, wrapPromise } from '../harness/mix.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, fail, ok, same, settled, show, turn } from '../harness/util.mjs'

export const assumptions = ['updaters are async functions over plain data; the harness owns every await they make']

const isObj = v => typeof v === 'object' && v !== null
const MAX = 4
function reach(v, into = new Set()) {
	if (!isObj(v) || into.has(v)) return into
	into.add(v)
	for (const k of Reflect.ownKeys(v)) reach(v[k], into)
	return into
}

function outcomeOf(out, draft, nothing) {
	switch (out.kind) {
		case 'void':
			return undefined
		case 'nothing':
			return nothing
		case 'value':
			return clone(out.value)
		case 'self':
			return draft
		case 'spread':
			return isObj(draft) && !Array.isArray(draft) ? { ...draft, added: clone(out.value) } : clone(out.value)
		case 'wrap':
			return { inner: draft, value: clone(out.value) }
		case 'child': {
			if (!isObj(draft)) return undefined
			const k = Object.keys(draft).find(k => isObj(draft[k]))
			return k === undefined ? undefined : draft[k]
		}
	}
}

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	const startArb = fc.record({
		op: fc.constant('start'),
		segments: fc.array(fc.array(editArb, { maxLength: 2 }), { minLength: 1, maxLength: 3 }),
		out: fc.oneof(
			{ weight: 3, arbitrary: fc.constant({ kind: 'void' }) },
			{ weight: 1, arbitrary: fc.constantFrom({ kind: 'nothing' }, { kind: 'self' }, { kind: 'child' }, { kind: 'value', value: null }, { kind: 'value', value: 0 }, { kind: 'value', value: false }) },
			{ weight: 2, arbitrary: fc.record({ kind: fc.constantFrom('value', 'spread', 'wrap'), value: data }) },
			{ weight: 1, arbitrary: fc.constant({ kind: 'throw' }) }
		),
		drain: fc.boolean(),
		// promises come from this realm, another one, or a library
		promise: fc.constantFrom('native', 'native', 'native', 'realm', 'thenable')
	})
	const opArb = fc.oneof(
		{ weight: 4, arbitrary: startArb },
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('advance'), i: fc.nat(MAX) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('sync'), u: updateArb }) }
	)

	await section('interleavings', {
		arb: fc.record({ init: fc.oneof({ weight: 4, arbitrary: container }, { weight: 1, arbitrary: anyValue }), kind: fc.constantFrom('store', 'registry', 'state'), ops: history(opArb, { maxLength: 18 }) }),
		runs: { quick: 2500, thorough: 60000 },
		rule: 'up to 18 steps starting async updaters (each up to 3 stretches of edits separated by awaits the harness releases one at a time), synchronous updates and releases in any order; non-trivial: at least two commits, an edit after an await, and an update committed while another updater was pending.',
		async check({ init, kind, ops }, rec) {
			const begin = kind === 'registry' && !isObj(init) ? {} : init
			let target
			let get
			let onChange
			if (kind === 'state') {
				const [v, set, on, reset] = S.createState(clone(begin))
				let cur = v
				on(x => (cur = x))
				target = { set, reset }
				get = () => cur
				onChange = on
			} else {
				target = kind === 'registry' ? S.createRegistry(clone(begin)) : S.createStore(clone(begin))
				get = target.get
				onChange = target.onChange
			}
			let log = []
			onChange((v, prev) => log.push({ v, prev, seen: get() }))
			const pending = []
			let model = clone(begin)
			let step = 0
			let commits = 0
			const NOTHING = Symbol('nothing')

			// parts that were once part of the state; sync updates may leave them as they were given
			const known = new Set()
			const learn = () => reach(get(), known)
			learn()
			const checkState = where => {
				equal(get(), model, `${where}: value`)
				if (isObj(get())) ok(Object.isFrozen(get()), `${where}: the value is not frozen`)
			}
			/** compares what happened since `old` was the value */
			const checkRound = (old, where) => {
				learn()
				const now = get()
				if (Object.is(old, now)) equal(log.length, 0, `${where}: notifications without a change`)
				else {
					equal(log.length, 1, `${where}: number of notifications`)
					same(log[0].v, now, `${where}: new value notified`)
					same(log[0].prev, old, `${where}: previous value notified`)
					same(log[0].seen, now, `${where}: get() inside the handler`)
				}
				log = []
			}
			/** a pending updater has just run its last stretch and the loop was drained */
			const finish = async (p, old, where) => {
				pending.splice(pending.indexOf(p), 1)
				const s = await settled(p.promise, `${where}: promise of set`)
				if (p.out.kind === 'throw') {
					if (s.ok) fail(`${where}: the promise must reject`)
					same(s.error, p.error, `${where}: rejection`)
					same(get(), old, `${where}: value after a rejection`)
					rec.label('rejected')
				} else {
					if (!s.ok) fail(`${where}: the promise rejected: ${s.error?.stack ?? s.error}`)
					const r = outcomeOf(p.out, p.work, NOTHING)
					model = clone(r === NOTHING ? undefined : r === undefined ? p.work : r)
					commits++
					equal(s.value, model, `${where}: result of the promise`)
					same(s.value, get(), `${where}: result of the promise and get()`)
					for (const o of reach(get())) if (!known.has(o)) ok(Object.isFrozen(o), `${where}: a part made by the updater is not frozen`)
					rec.label('edit after an await', p.editedLate)
					rec.label('overlapping', p.overlapped || pending.length > 0)
					rec.label(`out ${p.out.kind}`)
				}
				checkState(where)
				checkRound(old, where)
				for (const q of pending) q.overlapped = true
			}
			let undrained
			const drain = async () => {
				if (!undrained) return
				const { p } = undrained
				undrained = undefined
				const old = get()
				await turn()
				if (p.segments.length === p.done) await finish(p, old, `step ${step} (draining)`)
			}
			const start = (op, where) => {
				const before = get()
				const p = { ...op, gates: [], done: 0, work: undefined, promise: undefined, error: new Error(`updater ${step}`), overlapped: false, editedLate: false }
				let calls = 0
				rec.label(`promise: ${op.promise}`)
				p.promise = target.set(wrapPromise[op.promise](async draft => {
					calls++
					p.work = clone(draft)
					equal(p.work, model, `${where}: what the updater is given`)
					for (let i = 0; i < p.segments.length; i++) {
						if (i > 0) {
							await new Promise(r => p.gates.push(r))
							// also the copy handed out before must still be usable
							equal(clone(draft), p.work, `${where}: the draft after an await`)
						}
						for (const e of p.segments[i]) {
							if (!isObj(draft)) continue
							applyEdit(draft, e)
							applyEdit(p.work, e)
							if (i > 0) p.editedLate = true
						}
						// edits through `alias` share structure only inside one draft
						p.done = i + 1
					}
					if (p.out.kind === 'throw') throw p.error
					return outcomeOf(p.out, draft, S.nothing)
				}))
				// only observed through settled(); keep it from counting as unhandled
				Promise.resolve(p.promise).catch(() => {})
				equal(calls, 1, `${where}: number of calls of the updater`)
				ok(typeof p.promise?.then === 'function', `${where}: set(async) must return a promise`)
				same(get(), before, `${where}: value right after starting`)
				equal(log.length, 0, `${where}: notifications right after starting`)
				pending.push(p)
				if (p.segments.length === 1 && !op.drain) {
					undrained = { p }
					return undefined
				}
				return turn().then(() => {
					if (p.segments.length === p.done) return finish(p, before, where)
					same(get(), before, `${where}: value while pending`)
					equal(log.length, 0, `${where}: notifications while pending`)
				})
			}
			const release = async (p, where) => {
				const old = get()
				if (!p.gates.length) {
					const s = await settled(p.promise, `${where}: promise of an updater that broke off`)
					fail(`${where}: the updater broke off: ${s.error?.stack ?? s.error}`)
				}
				p.gates.shift()()
				await turn()
				if (p.done === p.segments.length) await finish(p, old, where)
				else {
					same(get(), old, `${where}: value while pending`)
					equal(log.length, 0, `${where}: notifications while pending`)
				}
			}
			for (const op of ops) {
				step++
				const where = `step ${step} (${op.op})`
				if (op.op !== 'sync' && undrained) await drain()
				if (op.op === 'start') {
					if (pending.length >= MAX) continue
					const waiting = start(op, where)
					if (waiting) await waiting
				} else if (op.op === 'advance') {
					if (pending.length) await release(pending[op.i % pending.length], where)
				} else {
					const old = get()
					model = modelUpdate(op.u, model, begin)
					applyUpdate(target, op.u, old, S.nothing)
					checkState(where)
					checkRound(old, where)
					for (const q of pending) q.overlapped = true
					rec.label('synchronous update before the updater could run', undrained !== undefined)
				}
			}
			await drain()
			while (pending.length) {
				step++
				await release(pending[0], `step ${step} (final release)`)
			}
			rec.label(kind)
			rec.nontrivial(commits >= 2 && rec.labels.has('edit after an await') && rec.labels.has('overlapping'))
		}
	})

	await section('values of other kinds', {
		arb: fc.record({
			init: stateable,
			ops: history(fc.record({ v: stateable, n: fc.nat(3), promise: fc.constantFrom(...Object.keys(wrapPromise)), fail: fc.integer({ min: 0, max: 9 }).map(n => n === 7) }), { minLength: 1, maxLength: 8 })
		}),
		runs: { quick: 600, thorough: 12000 },
		rule: 'up to 8 async updaters at once that resolve to, or reject with, values of any kind (no promises: those are waited for), in any order; the state and the promise of set then hold that very value; non-trivial: at least 3 values of which one is not plain data.',
		async check({ init, ops }, rec) {
			const store = S.createStore(typeof init === 'function' ? 0 : init)
			const log = []
			store.onChange((v, prev) => log.push([v, prev]))
			const pending = []
			const finish = async n => {
				const [p] = pending.splice(n % pending.length, 1)
				const old = store.get()
				log.length = 0
				const where = `updater ${p.i} (${p.op.fail ? 'rejecting with' : 'resolving to'} ${show(p.op.v)})`
				if (p.op.fail) p.reject(p.op.v)
				else p.resolve(p.op.v === undefined ? S.nothing : p.op.v)
				const s = await settled(p.promise, `${where}: promise of set`)
				if (p.op.fail) {
					if (s.ok) fail(`${where}: the promise must reject`)
					same(s.error, p.op.v, `${where}: rejection`)
					same(store.get(), old, `${where}: value after a rejection`)
				} else {
					if (!s.ok) fail(`${where}: the promise rejected: ${s.error?.stack ?? s.error}`)
					same(s.value, store.get(), `${where}: result of the promise and get()`)
					if (isPlain(p.op.v)) equal(store.get(), p.op.v, `${where}: value`)
					else same(store.get(), p.op.v, `${where}: value`)
					rec.label('not plain', !isPlain(p.op.v))
				}
				if (Object.is(old, store.get())) equal(log.length, 0, `${where}: notifications without a change`)
				else equal(log, [[store.get(), old]], `${where}: notifications`)
			}
			for (const [i, op] of ops.entries()) {
				if (op.v instanceof Promise) continue
				const p = { i, op }
				const body = async () => {
					await 0
					return new Promise((resolve, reject) => Object.assign(p, { resolve, reject }))
				}
				p.promise = store.set(wrapPromise[op.promise](body))
				Promise.resolve(p.promise).catch(() => {})
				pending.push(p)
				await turn()
				if (op.n === 0) await finish(op.n)
				if (op.n === 1 && pending.length > 1) await finish(pending.length - 1)
			}
			while (pending.length) await finish(ops[0].n)
			rec.nontrivial(ops.length >= 3 && rec.labels.has('not plain'))
		}
	})

	await mixedHistories(section, S, ['values', 'promises'], { quick: 7000, thorough: 200000 })
}
