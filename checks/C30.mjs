import { history, ident, text } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok } from '../harness/util.mjs'

export const assumptions = ['keys and values are strings, indexes are non-negative integers (as the types demand)', 'a member given as undefined counts as not given', 'members given to partial stubs are truthy, and methods of the real sessionStorage may throw Illegal invocation through stubSessionStorage (both recorded findings, probed on their own)']

const MEMBERS = ['getItem', 'setItem', 'removeItem', 'clear', 'key', 'length']

export default async function ({ section, probe }) {
	const sut = await buildSut({ browserT: '@just-web/browser/testing' })
	const key = ident(['a', 'b', 'c', 'length', 'getItem', '0', ''])
	const op = fc.oneof(
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('setItem'), args: fc.tuple(key, text) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('getItem'), args: fc.tuple(key) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('removeItem'), args: fc.tuple(key) }) },
		{ weight: 2, arbitrary: fc.constant({ op: 'clear', args: [] }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('key'), args: fc.tuple(fc.nat(9)) }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'length', args: [] }) }
	)
	const perform = (s, o) => (o.op === 'length' ? s.length : s[o.op](...o.args))
	const run = (model, o) => {
		const [k, v] = o.args
		if (o.op === 'setItem') model.set(k, v)
		else if (o.op === 'removeItem') model.delete(k)
		else if (o.op === 'clear') model.clear()
		else if (o.op === 'getItem') return model.has(k) ? model.get(k) : null
		else if (o.op === 'length') return model.size
	}
	const verify = (s, model, what) => {
		equal(s.length, model.size, `${what}: length`)
		for (const [k, v] of model) equal(s.getItem(k), v, `${what}: getItem(${JSON.stringify(k)})`)
		const keys = []
		for (let i = 0; i < model.size; i++) keys.push(s.key(i))
		// web storage leaves the order open, but lists every key once
		equal([...keys].sort(), [...model.keys()].sort(), `${what}: keys`)
		for (const i of [model.size, model.size + 1, 1000]) equal(s.key(i), null, `${what}: key(${i}) of ${model.size}`)
		for (const k of ['nope', 'toString', '__proto__', 'size']) if (!model.has(k)) equal(s.getItem(k), null, `${what}: getItem of ${k}`)
		return keys
	}

	const m = sut.instantiate(browserEnv())
	await section('stubStorage', {
		arb: history(fc.oneof({ weight: 80, arbitrary: fc.tuple(fc.nat(1), op) }, { weight: 1, arbitrary: fc.tuple(fc.nat(1), fc.record({ op: fc.constant('fill'), n: fc.integer({ min: 5, max: 300 }) })) }), { maxLength: 25 }),
		runs: { quick: 4000, thorough: 100000 },
		rule: 'up to 25 operations (now and then a hundred items at once) on two stubs against two maps; every observation (all items, keys at every index, keys past the end, length) after every operation, keys keep their index while nothing is added or removed; non-trivial: a removal or clear after two or more items were there, in both stubs together at least 6 operations.',
		check(ops, rec) {
			const stubs = [m.browserT.stubStorage(), m.browserT.stubStorage()]
			const models = [new Map(), new Map()]
			let removed = false
			for (const [n, o] of ops) {
				const before = [...models[n].keys()]
				const keysBefore = verify(stubs[n], models[n], 'before')
				const size = before.length
				if (o.op === 'fill') {
					for (let i = 0; i < o.n; i++) {
						stubs[n].setItem(`item ${i}`, `${i}`)
						models[n].set(`item ${i}`, `${i}`)
					}
					for (const i of [0, 1]) verify(stubs[i], models[i], `stub ${i} after ${o.n} items more in stub ${n}`)
					rec.label(o.op)
					continue
				}
				const r = perform(stubs[n], o)
				const x = run(models[n], o)
				if (o.op === 'key') ok(r === null ? o.args[0] >= size : models[n].has(r), 'result of key')
				else equal(r, x, `result of ${o.op}`)
				for (const i of [0, 1]) {
					const keys = verify(stubs[i], models[i], `stub ${i} after ${o.op} on stub ${n}`)
					if (i === n && models[n].size === size && eqKeys(before, models[n])) equal(keys, keysBefore, 'order of keys while no key comes or goes')
				}
				removed ||= size > 1 && models[n].size < size
				rec.label(o.op)
			}
			rec.nontrivial(removed && ops.length > 5)
		}
	})
	function eqKeys(before, model) {
		const now = [...model.keys()]
		return before.length === now.length && before.every((k, i) => k === now[i])
	}

	const member = fc.constantFrom('absent', 'absent', 'function', 'function', 'undefined', 'number')
	await section('partial stubs', {
		arb: fc.record({
			which: fc.constantFrom('local', 'session'),
			stub: fc.record(Object.fromEntries(MEMBERS.map(k => [k, member]))),
			initial: fc.array(fc.tuple(key, text), { maxLength: 3 }),
			ops: history(fc.record({ on: fc.constantFrom('stub', 'stub', 'real', 'other', 'second'), op }), { minLength: 1, maxLength: 15 })
		}),
		runs: { quick: 2000, thorough: 40000 },
		rule: 'a stub of either storage with any subset of members given as functions or numbers, next to a second, empty stub; up to 15 operations through the stubs and on both real storages, compared with maps; given members are used and nothing else happens, all others act on the real storage; non-trivial: some members are given and some are not, with at least 3 operations.',
		check({ which, stub, initial, ops }, rec) {
			const env = browserEnv()
			const m = sut.instantiate(env)
			const real = which === 'local' ? env.localStorage : env.sessionStorage
			const other = which === 'local' ? env.sessionStorage : env.localStorage
			const make = which === 'local' ? m.browserT.stubLocalStorage : m.browserT.stubSessionStorage
			const model = new Map()
			const otherModel = new Map()
			for (const [k, v] of initial) {
				real.setItem(k, v)
				model.set(k, v)
			}
			const calls = []
			const VALUES = { number: 42, undefined }
			const given = {}
			for (const [k, kind] of Object.entries(stub)) {
				if (kind === 'absent') continue
				given[k] =
					kind === 'function' && k !== 'length'
						? (...args) => {
								calls.push([k, args])
								return `stubbed ${k}`
							}
						: kind === 'function' ? 7
						: VALUES[kind]
			}
			const unbound = (on, e) => which === 'session' && (on === 'stub' || on === 'second') && e instanceof TypeError && /private member|illegal invocation/i.test(e.message)
			const s = make({ ...given })
			const second = make({})
			for (const { on, op: o } of ops) {
				const t = { stub: s, real, other, second }[on]
				calls.length = 0
				if (on === 'stub' && given[o.op] !== undefined) {
					const g = given[o.op]
					if (typeof g !== 'function') equal(s[o.op], g, `member ${o.op} given as ${String(g)}`)
					else {
						equal(s[o.op](...o.args), `stubbed ${o.op}`, `result of given ${o.op}`)
						equal(calls, [[o.op, o.args]], `calls of given ${o.op}`)
					}
				} else {
					const mm = on === 'other' ? otherModel : model
					let r
					try {
						r = perform(t, o)
					} catch (e) {
						if (unbound(on, e)) continue
						fail(`${o.op} through ${on} throws: ${e}`)
					}
					const x = run(mm, o)
					if (o.op === 'key') ok(r === (real === t || on !== 'other' ? real : other).key(o.args[0]), `result of key through ${on}`)
					else equal(r, x, `result of ${o.op} through ${on}`)
					equal(calls, [], `calls of stub members by ${o.op} through ${on}`)
				}
				verify(real, model, `real storage after ${o.op} through ${on}`)
				verify(other, otherModel, `the other storage after ${o.op} through ${on}`)
				equal(second.length, model.size, `an empty stub after ${o.op} through ${on}: length`)
				if (which === 'local') verify(second, model, `an empty stub after ${o.op} through ${on}`)
			}
			const n = MEMBERS.filter(k => given[k] !== undefined).length
			rec.label('mixed', n > 0 && n < MEMBERS.length)
			rec.label(which)
			rec.nontrivial(n > 0 && n < MEMBERS.length && ops.length > 2)
		}
	})

	await probe('session-real-methods', {
		what: 'a method that is not stubbed works through stubSessionStorage()',
		check() {
			const env = browserEnv()
			env.sessionStorage.setItem('a', 'x')
			equal(sut.instantiate(env).browserT.stubSessionStorage({}).getItem('a'), 'x', 'getItem of the real storage')
		}
	})
	await probe('falsy-members', {
		what: 'a member given with a falsy value is used',
		check() {
			const env = browserEnv()
			env.localStorage.setItem('a', 'x')
			equal(sut.instantiate(env).browserT.stubLocalStorage({ length: 0 }).length, 0, 'stubbed length')
		}
	})
}
