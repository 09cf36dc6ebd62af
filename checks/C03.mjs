import { history } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { mixedHistories } from '../harness/mix.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, same } from '../harness/util.mjs'

export const assumptions = ['handlers neither update the state nor subscribe while a change is delivered']

const H = 5
export default async function ({ section }) {
	const sut = await buildSut({ states: '@just-web/states' })
	const { states: S } = sut.instantiate(browserEnv())

	const op = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('sub'), h: fc.nat(H - 1) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('dispose'), i: fc.nat(20) }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'undo' }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('change'), inside: fc.array(fc.record({ by: fc.nat(H - 1), dispose: fc.nat(20) }), { maxLength: 3 }) }) }
	)
	await section('subscriptions', {
		arb: fc.record({ kind: fc.constantFrom('store', 'state', 'registry', 'readonly'), ops: history(op, { maxLength: 24 }) }),
		runs: { quick: 5000, thorough: 150000 },
		rule: 'histories of subscribe / dispose (any disposer, any number of times) / change, with disposals scripted inside handlers, against a list of subscriptions; non-trivial: a repeated or stale dispose, or one inside a handler, followed by a change.',
		check({ kind, ops }, rec) {
			let set
			let on
			let get
			if (kind === 'state') {
				const [, s, o] = S.createState({ n: 0 })
				let v
				o(x => (v = x))
				set = s
				on = o
				get = () => v
			} else {
				const store = kind === 'registry' ? S.createRegistry({ n: 0 }) : S.createStore({ n: 0 })
				const view = kind === 'readonly' ? S.toReadonlyStore(store) : store
				set = store.set
				on = view.onChange
				get = view.get
			}
			const model = [] // ids of handlers, in order, each subscribed once
			const disposers = []
			let calls = []
			let inside = []
			let goneInRound = new Set()
			const runDispose = i => {
				if (!disposers.length) return
				const d = disposers[i % disposers.length]
				rec.label('repeated dispose', d.used)
				if (d.sub && model.includes(d.sub)) {
					model.splice(model.indexOf(d.sub), 1)
					goneInRound.add(d.sub.h)
				} else rec.label('stale dispose')
				d.used = true
				d.fn()
			}
			const handlers = [...Array(H).keys()].map(h => () => {
				calls.push(h)
				for (const x of inside) {
					if (x.by === h) {
						rec.label('dispose inside')
						runDispose(x.dispose)
					}
				}
			})
			let risky = false
			let n = 0
			for (const o of ops) {
				if (o.op === 'sub') {
					const dup = model.some(s => s.h === o.h)
					const fn = on(handlers[o.h])
					const sub = dup ? undefined : { h: o.h }
					if (sub) model.push(sub)
					rec.label('duplicate subscribe', dup)
					disposers.push({ fn, sub, used: false })
				} else if (o.op === 'dispose') {
					runDispose(o.i)
				} else if (o.op === 'undo') {
					runDispose(disposers.length - 1)
				} else {
					calls = []
					inside = o.inside
					goneInRound = new Set()
					const expected = model.map(s => s.h)
					n++
					set(v => {
						v.n = n
					})
					// whoever was unsubscribed in this very round may or may not have been reached
					const must = expected.filter(h => !goneInRound.has(h))
					equal(calls.filter(h => !goneInRound.has(h)), must, `change ${n}: handlers called`)
					for (const h of goneInRound)
						if (calls.filter(c => c === h).length > 1) fail(`change ${n}: handler ${h} called more than once`)
					if (calls.some(h => !expected.includes(h))) fail(`change ${n}: an unsubscribed handler was called`)
					same(get().n, n, 'value after the change')
					if (rec.labels.has('repeated dispose') || rec.labels.has('stale dispose') || rec.labels.has('dispose inside')) risky = true
				}
			}
			rec.label(kind)
			rec.nontrivial(risky)
		}
	})

	await mixedHistories(section, S, ['subscriptions'], { quick: 7000, thorough: 200000 })
}
