import { few, history, part } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, same, show } from '../harness/util.mjs'

export const assumptions = ['entry handlers edit the draft they are given; what they return is ignored']

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	const arrayHandlers = {
		push: { lib: S.push, ref: (a, e) => void a.push(e) },
		unshift: { lib: S.unshift, ref: (a, e) => void a.unshift(e) },
		twice: { ref: (a, e) => void a.push(e, e) },
		unique: { ref: (a, e) => void (a.includes(e) || a.push(e)) },
		returning: { ref: (a, e) => a.push(e) },
		drop: { ref: (a, e) => void (a.indexOf(e) >= 0 && a.splice(a.indexOf(e), 1)) },
		length: { ref: (a, _e) => void a.push(a.length) }
	}
	const op = fc.oneof(
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('add'), entries: few(fc.oneof({ weight: 3, arbitrary: fc.nat(4) }, { weight: 1, arbitrary: part.map(special => ({ special })) }), { maxLength: 5 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('set'), value: fc.array(fc.nat(4), { maxLength: 4 }), through: fc.boolean() }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('edit'), n: fc.nat(4), through: fc.boolean() }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('reset'), through: fc.boolean() }) }
	)
	function watch(store) {
		const log = []
		store.onChange((v, prev) => log.push([v, prev]))
		return log
	}
	function checkRound(log, old, now, where) {
		if (Object.is(old, now)) equal(log.length, 0, `${where}: notifications without a change`)
		else {
			equal(log.length, 1, `${where}: number of notifications`)
			same(log[0][0], now, `${where}: new value notified`)
			same(log[0][1], old, `${where}: previous value notified`)
		}
		log.length = 0
	}

	await section('lists', {
		arb: fc.record({ init: fc.array(fc.nat(4), { maxLength: 4 }), handler: fc.constantFrom(...Object.keys(arrayHandlers)), bare: fc.boolean(), ops: history(op, { maxLength: 10 }) }),
		runs: { quick: 3000, thorough: 60000 },
		rule: 'array stores with push, unshift and custom entry handlers; add calls of 0 to 5 entries (sometimes up to 150; numbers, and now and then values of any kind) mixed with other updates through both the plain and the extended store, against folding over a plain array; non-trivial: an add of at least two entries and one of none or an update in between.',
		check({ init, handler, bare, ops }, rec) {
			const h = arrayHandlers[handler]
			const store = S.createStore([...init])
			const fn = h.lib ?? h.ref
			const ext = bare ? { ...store, add: S.adder(store, fn) } : S.withAdder(store, fn)
			const log = watch(store)
			const extLog = watch(ext)
			let model = [...init]
			let other = false
			let multi = false
			ops.forEach((o, i) => {
				if (model.length > 1000 && o.op === 'add') return
				const where = `step ${i} (${o.op} ${o.entries ? show(o.entries) : ''})`
				// what is compared in a draft has no identity
				const comparing = ['unique', 'drop'].includes(handler)
				const entries = o.entries?.map(e => (typeof e === 'number' ? e : comparing && typeof e.special === 'object' ? null : e.special))
				rec.label('entry that is not a number', !!entries?.some(e => typeof e !== 'number'))
				rec.label('entry that is an array', !!entries?.some(Array.isArray))
				const old = store.get()
				if (o.op === 'add') {
					const before = clone(model)
					const r = ext.add(...entries)
					for (const e of clone(entries)) h.ref(model, e)
					same(r, undefined, `${where}: result of add`)
					multi ||= o.entries.length >= 2
					other ||= o.entries.length === 0
					if (!o.entries.length || before.length === model.length && before.every((b, j) => Object.is(b, model[j]))) {
						if (!['drop'].includes(handler)) same(store.get(), old, `${where}: nothing to change`)
					}
				} else {
					other = true
					const t = o.through ? ext : store
					if (o.op === 'set') {
						model = [...o.value]
						t.set([...o.value])
					} else if (o.op === 'edit') {
						model.push(o.n)
						t.set(a => void a.push(o.n))
					} else {
						model = [...init]
						t.reset()
					}
				}
				equal(store.get(), model, `${where}: value`)
				same(ext.get(), store.get(), `${where}: both handles`)
				checkRound(log, old, store.get(), where)
				checkRound(extLog, old, store.get(), `${where} (extended store)`)
			})
			rec.label(handler)
			rec.nontrivial(multi && other)
		}
	})

	const recHandlers = {
		put: (r, e) => void (r[e.k] = e.v),
		first: (r, e) => (r[e.k] ? false : (r[e.k] = e.v)),
		count: (r, e) => void (r[e.k] = (r[e.k] ?? 0) + e.v),
		remove: (r, e) => void (e.v % 2 ? (r[e.k] = e.v) : delete r[e.k])
	}
	const entry = fc.record({ k: fc.constantFrom('a', 'b', 'c'), v: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 1, max: 4 }) }, { weight: 1, arbitrary: part }) })
	const counted = ['count', 'remove']
	await section('records', {
		arb: fc.record({
			init: fc.dictionary(fc.constantFrom('a', 'b', 'c'), fc.nat(3), { maxKeys: 2 }),
			kind: fc.constantFrom('registry', 'store'),
			handler: fc.constantFrom(...Object.keys(recHandlers)),
			ops: fc.array(fc.oneof({ weight: 4, arbitrary: few(entry, { maxLength: 5 }) }, { weight: 1, arbitrary: fc.constant(null) }), { maxLength: 8 })
		}),
		runs: { quick: 2000, thorough: 30000 },
		rule: 'registries and record stores with four entry handlers, of numbers and of values of any kind (null resets); non-trivial: an add with two entries for the same key.',
		check({ init, kind, handler, ops }, rec) {
			if (counted.includes(handler)) ops = ops.map(o => o && o.map(e => ({ ...e, v: typeof e.v === 'number' && e.v > 0 ? e.v : 1 })))
			const fn = recHandlers[handler]
			const base = kind === 'registry' ? S.createRegistry({ ...init }) : S.createStore({ ...init })
			const ext = S.withAdder(base, fn)
			const log = watch(base)
			let model = { ...init }
			ops.forEach((o, i) => {
				const old = base.get()
				const where = `step ${i}`
				if (o === null) {
					base.reset()
					model = { ...init }
				} else {
					ext.add(...o.map(e => ({ ...e })))
					for (const e of o) fn(model, e)
					rec.nontrivial(new Set(o.map(e => e.k)).size < o.length)
				}
				equal(ext.get(), model, `${where}: value`)
				same(base.get(), ext.get(), `${where}: both handles`)
				checkRound(log, old, base.get(), where)
				if (kind === 'registry') {
					equal(ext.keys().sort(), Object.keys(model).sort(), `${where}: keys of the extended registry`)
					equal(ext.size(), Object.keys(model).length, `${where}: size of the extended registry`)
					for (const k of ['a', 'b', 'c']) same(ext.has(k), model[k] !== undefined, `${where}: has(${k})`)
					equal(ext.values(), ext.keys().map(k => model[k]), `${where}: values of the extended registry`)
				}
			})
			rec.label(kind)
			rec.label(handler)
		}
	})
}
