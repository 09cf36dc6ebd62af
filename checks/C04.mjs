import { anyValue, applyEdit, applyUpdate, editArb, history, modelUpdate, size, updateArb } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, eq, equal, fail, ok, same } from '../harness/util.mjs'

export const assumptions = ['states hold plain data; objects given to set() are not modified by the caller afterwards']

const isObj = v => typeof v === 'object' && v !== null
function reach(v, into = new Set()) {
	if (!isObj(v) || into.has(v)) return into
	into.add(v)
	for (const k of Reflect.ownKeys(v)) reach(v[k], into)
	return into
}

export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	const failing = fc.record({
		op: fc.constant('throw'),
		edits: fc.array(editArb, { maxLength: 4 }),
		what: fc.constantFrom('error', 'string', 'undefined', 'null', 'object', 'returns as well')
	})
	await section('snapshots', {
		arb: fc.record({
			init: anyValue,
			kind: fc.constantFrom('store', 'registry', 'state'),
			ops: history(fc.oneof({ weight: 5, arbitrary: updateArb }, { weight: 1, arbitrary: failing }), { maxLength: 16 })
		}),
		runs: { quick: 3000, thorough: 60000 },
		rule: 'histories of updates, some of them failing after some edits; every value ever obtained is compared with its content at that time after every later step, and parts made by updaters must be frozen; non-trivial: at least 3 different object snapshots, and a failing updater that had edited something or an in-place edit.',
		check({ init, kind, ops }, rec) {
			let target
			let get
			let onChange
			let tracked
			const start = kind === 'registry' && !isObj(init) ? {} : init
			if (kind === 'state') {
				const [v, set, on, reset] = S.createState(clone(start))
				tracked = v
				target = { set, reset }
				get = () => tracked
				onChange = on
			} else {
				target = kind === 'registry' ? S.createRegistry(clone(start)) : S.createStore(clone(start))
				get = target.get
				onChange = target.onChange
			}
			const snaps = new Map()
			const take = (v, how) => {
				if (!isObj(v)) return
				ok(Object.isFrozen(v), `${how}: the value is not frozen`)
				if (!snaps.has(v)) snaps.set(v, { copy: clone(v), how })
			}
			let hits = 0
			onChange((v, prev) => {
				hits++
				tracked = v
				take(v, 'new value in a handler')
				take(prev, 'previous value in a handler')
			})
			take(get(), 'initial get()')
			let model = clone(start)
			let edited = false
			let work = 0
			const intact = (where, which = () => true) => {
				let j = 0
				for (const [v, s] of snaps) {
					if (!which(j++)) continue
					work += size(s.copy, 1000)
					if (!eq(v, s.copy)) equal(v, s.copy, `${where}: changed the value obtained earlier from ${s.how}`)
				}
			}
			ops.forEach((op, i) => {
				// many updates of a big value
				if (work > 50_000) return
				work += size(model, 1000)
				const where = `step ${i} (${op.op})`
				const old = get()
				hits = 0
				if (op.op === 'throw') {
					const err = { error: new Error('boom'), string: 'boom', undefined: undefined, null: null, object: { code: 1 } }[op.what]
					let caught
					let refused = false
					try {
						target.set(draft => {
							if (isObj(draft)) for (const e of op.edits) applyEdit(draft, e)
							if (op.what === 'returns as well' && isObj(draft) && !eq(clone(draft), model)) {
								refused = true
								return op.edits.length % 3 === 0 ? S.nothing : op.edits.length % 3 === 1 ? { other: 1 } : null
							}
							throw err
						})
					} catch (e) {
						caught = { e }
					}
					if (!caught) fail(`${where}: set() did not throw`)
					if (refused) {
						ok(caught.e instanceof Error, `${where}: an updater that edits and returns a value is not refused with an error`)
						rec.label('edits and returns')
					} else same(caught.e, err, `${where}: error seen by the caller`)
					same(get(), old, `${where}: value after the failure`)
					equal(hits, 0, `${where}: notifications`)
					if (op.edits.length && isObj(old)) {
						edited = true
						rec.label('failed after edits')
					}
				} else {
					const known = reach(old)
					const next = modelUpdate(op, model, start)
					const r = applyUpdate(target, op, old, S.nothing)
					equal(get(), next, `${where}: value`)
					model = next
					take(get(), `${where}: get()`)
					if (op.op !== 'reset') take(r, `${where}: result of set`)
					if (['return', 'edit', 'spread', 'child'].includes(op.op)) {
						edited = true
						for (const o of reach(get()))
							if (!known.has(o) && !Object.isFrozen(o)) fail(`${where}: a part made by the updater is not frozen: ${JSON.stringify(Object.keys(o))}`)
					}
				}
				// all of them, or of many some at each step
				intact(where, j => snaps.size < 30 || (i + j) % 10 === 0 || j > snaps.size - 5)
			})
			intact('at the end')
			rec.label(kind)
			rec.nontrivial(edited && snaps.size >= 3)
		}
	})
}
