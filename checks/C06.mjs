import { PROTO_NAMES, history, ident, isPlain, part } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, same } from '../harness/util.mjs'

export const assumptions = ['__proto__ as a key only in records without a prototype (immer refuses it elsewhere)']

const S1 = Symbol('one')
const S2 = Symbol.for('two')
const S3 = Symbol()
const S4 = Symbol('')
const SAFE = ['a', 'b', 'toString', 'constructor', 'hasOwnProperty', '1', '0', '', 'length', S1, S2, S3, S4]
const PROBES = [...new Set([...SAFE, ...PROTO_NAMES, 'missing', 1, 0, Symbol.iterator])]

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())
	const val = fc.oneof({ weight: 1, arbitrary: fc.constantFrom(undefined, null, 0, false, '', 'v', Number.NaN, 7, true) }, { weight: 1, arbitrary: part })
	// the last index means __proto__, where possible
	const key = fc.oneof({ weight: 3, arbitrary: fc.nat(SAFE.length) }, { weight: 1, arbitrary: ident() })
	const entries = fc.array(fc.tuple(key, val), { maxLength: 5 })
	const op = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('put'), k: key, v: val }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('delete'), k: key }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constantFrom('replace', 'return'), entries }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'reset' }) }
	)
	await section('views', {
		arb: fc.record({ how: fc.constantFrom('none', 'plain', 'bare'), entries, ops: history(op, { maxLength: 12, crowd: 'k' }), symbols: fc.constantFrom(...Array(60).fill(0), 40, 150, 300), app: fc.boolean(), view: fc.boolean() }),
		runs: { quick: 4000, thorough: 80000 },
		rule: 'registries created from nothing, a plain record or a bare one, with up to 12 puts (values of any kind, also undefined and falsy ones), deletions, replacements and resets, against a Map; non-trivial: a symbol key, a prototype-named key and a deletion or replacement occurred.',
		check({ how, entries, ops, view, symbols }, rec) {
			const crowd = Array.from({ length: symbols }, (_, i) => [Symbol(i % 7), i])
			const bare = how === 'bare'
			const name = k => (typeof k === 'symbol' ? k : k === '__proto__' || k === SAFE.length ? (bare ? '__proto__' : 'a') : typeof k === 'string' ? k : SAFE[k])
			const rec0 = list => {
				const r = bare ? Object.create(null) : {}
				for (const [k, v] of [...list, ...crowd]) r[name(k)] = v
				return r
			}
			const map0 = list => {
				const m = new Map()
				for (const [k, v] of [...list, ...crowd]) m.set(name(k), v)
				return m
			}
			const registry = how === 'none' ? S.createRegistry() : S.createRegistry(rec0(entries))
			const initial = how === 'none' ? new Map() : map0(entries)
			const subject = view ? S.toReadonlyRegistry(registry) : registry
			let model = new Map(initial)
			const check = where => {
				const r = subject.get()
				const keys = subject.keys()
				const own = [...model.keys()]
				const strings = own.filter(k => typeof k === 'string').sort()
				const symbols = own.filter(k => typeof k === 'symbol')
				equal(keys.filter(k => typeof k === 'string').sort(), strings, `${where}: string keys`)
				equal(new Set(keys.filter(k => typeof k !== 'string')), new Set(symbols), `${where}: symbol keys`)
				equal(keys.length, own.length, `${where}: number of keys`)
				equal(keys, [...Object.keys(r), ...Object.getOwnPropertySymbols(r)], `${where}: order of keys`)
				equal(subject.size(), own.length, `${where}: size`)
				equal(subject.values(), keys.map(k => model.get(k)), `${where}: values`)
				for (const k of new Set([...PROBES, ...own])) {
					const m = model.get(typeof k === 'number' ? String(k) : k)
					same(subject.has(k), m !== undefined, `${where}: has(${String(k)})`)
				}
				for (const k of own) (isPlain(model.get(k)) ? equal : same)(r[k], model.get(k), `${where}: get()[${String(k)}]`)
				// what was listed belongs to the caller
				const values = subject.values()
				keys.reverse()
				keys.pop()
				values.push('of the caller')
				equal(subject.keys().length, own.length, `${where}: number of keys after changing a listing`)
				equal(subject.values(), subject.keys().map(k => model.get(k)), `${where}: values after changing a listing`)
				equal(subject.size(), own.length, `${where}: size after changing a listing`)
			}
			check('initially')
			let removed = false
			ops.forEach((op, i) => {
				if (op.op === 'put') {
					model.set(name(op.k), op.v)
					registry.set(r => {
						r[name(op.k)] = op.v
					})
				} else if (op.op === 'delete') {
					removed ||= model.has(name(op.k))
					model.delete(name(op.k))
					registry.set(r => {
						delete r[name(op.k)]
					})
				} else if (op.op === 'replace') {
					removed = true
					model = map0(op.entries)
					registry.set(rec0(op.entries))
				} else if (op.op === 'return') {
					removed = true
					model = map0(op.entries)
					registry.set(() => rec0(op.entries))
				} else {
					model = new Map(initial)
					registry.reset()
				}
				for (const k of model.keys()) {
					rec.label('symbol key', typeof k === 'symbol')
					rec.label('prototype name', PROTO_NAMES.includes(k))
					rec.label('undefined value', model.get(k) === undefined)
				}
				check(`step ${i} (${op.op})`)
			})
			rec.label(how)
			rec.label('readonly view', view)
			rec.nontrivial(removed && rec.labels.has('symbol key') && rec.labels.has('prototype name'))
		}
	})
}
