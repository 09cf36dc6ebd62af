import { applyUpdate, container, data, history, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, ok, same } from '../harness/util.mjs'

export const assumptions = []

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())
	const MUTATORS = ['set', 'reset', 'add', 'update', 'clear', 'delete', 'push']

	await section('views', {
		arb: fc.record({
			registry: fc.boolean(),
			adder: fc.boolean(),
			init: container,
			lateAt: fc.nat(8),
			disposeAt: fc.nat(14),
			ops: history(fc.oneof({ weight: 4, arbitrary: updateArb }, { weight: 1, arbitrary: fc.record({ op: fc.constant('record'), value: fc.dictionary(fc.constantFrom('a', 'b', 'toString'), data, { maxKeys: 3 }) }) }), { minLength: 1, maxLength: 14 })
		}),
		runs: { quick: 3000, thorough: 60000 },
		rule: 'a readonly view made at the start and one made later, both subscribed through, compared with their source after every update; non-trivial: at least 3 changes, and an update after a subscription made through a view was disposed.',
		check({ registry, adder, init, lateAt, disposeAt, ops }, rec) {
			const start = registry && Array.isArray(init) ? { list: init } : init
			let src = registry ? S.createRegistry(clone(start)) : S.createStore(clone(start))
			if (adder) src = S.withAdder(src, (d, e) => void (Array.isArray(d) ? d.push(e) : (d.added = e)))
			const toReadonly = registry ? S.toReadonlyRegistry : S.toReadonlyStore
			const source = []
			// inside the first handler of a change, whoever made a view from it and whenever
			src.onChange(() => {
				const late = toReadonly(src)
				for (const { v } of [...views, { v: late }]) {
					same(v.get(), src.get(), 'get() inside a handler subscribed before the view was made')
					if (registry && typeof src.get() === 'object' && src.get() !== null) {
						equal(v.keys(), src.keys(), 'keys() inside a handler')
						equal(v.size(), src.size(), 'size() inside a handler')
					}
				}
				for (const m of MUTATORS) ok(!(m in late), `a view made inside a handler has ${m}`)
			})
			const views = [{ v: toReadonly(src), seen: [], on: true }]
			const subscribe = w => {
				w.dispose = w.v.onChange((a, b) => w.seen.push([a, b]))
			}
			subscribe(views[0])
			src.onChange((a, b) => source.push([a, b]))
			let after = false
			let changes = 0
			const compare = where => {
				for (const { v } of views) {
					same(v.get(), src.get(), `${where}: get()`)
					if (registry && typeof src.get() === 'object' && src.get() !== null) {
						equal(v.keys(), src.keys(), `${where}: keys()`)
						equal(v.size(), src.size(), `${where}: size()`)
						const values = v.values()
						const sv = src.values()
						ok(values.length === sv.length && values.every((x, i) => Object.is(x, sv[i])), `${where}: values()`)
						for (const k of ['a', 'b', 'toString', 'list', 'added']) same(v.has(k), src.has(k), `${where}: has(${k})`)
					}
					for (const m of MUTATORS) ok(!(m in v), `${where}: the view has ${m}`)
				}
			}
			compare('initially')
			ops.forEach((op, i) => {
				const where = `step ${i} (${op.op})`
				if (i === lateAt) {
					const w = { v: toReadonly(src), seen: [], on: true }
					views.push(w)
					subscribe(w)
				}
				if (i === disposeAt) {
					views[0].dispose()
					views[0].on = false
				}
				for (const w of views) w.seen = []
				source.length = 0
				if (op.op === 'record') src.set({ ...op.value })
				else applyUpdate(src, op, src.get(), S.nothing)
				compare(where)
				views.forEach((w, j) => {
					equal(w.seen.length, w.on ? source.length : 0, `${where}: calls of the handler subscribed through view ${j}`)
					if (w.on && w.seen.length) {
						same(w.seen[0][0], source[0][0], `${where}: new value through view ${j}`)
						same(w.seen[0][1], source[0][1], `${where}: previous value through view ${j}`)
					}
				})
				changes += source.length
				if (!views[0].on) after = true
			})
			rec.label(registry ? 'registry' : 'store')
			rec.label('with adder', adder)
			rec.nontrivial(changes >= 3 && after)
		}
	})
}
