import vm from 'node:vm'
import { history } from './gen.mjs'
import { fc } from './sut.mjs'
import { equal, fail, same, settled, turn } from './util.mjs'

export const wrapPromise = {
	native: f => f,
	realm: vm.runInNewContext('f => async d => await f(d)'),
	thenable: f => d => {
		const p = f(d)
		return { then: (...a) => p.then(...a) }
	}
}

const H = 4
const MAX = 3
/**
 * Everything a state can do in one history: synchronous and async updates, resets, subscriptions and their ends.
 * `judge` says what is compared: values, changes (as one subscriber sees them), subscriptions (who is called), promises.
 */
export function mixedHistories(section, S, judge, runs) {
	const k = fc.nat(3)
	const op = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('set'), k }) },
		{ weight: 2, arbitrary: fc.constant({ op: 'inc' }) },
		{ weight: 3, arbitrary: fc.constant({ op: 'reset' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('start'), k, kind: fc.constantFrom('value', 'inc', 'inc', 'fail'), promise: fc.constantFrom('native', 'native', 'native', 'realm', 'thenable') }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('settle'), i: fc.nat(MAX - 1) }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('async'), k, kind: fc.constantFrom('value', 'inc', 'inc', 'fail') }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('sub'), h: fc.nat(H - 1) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('dispose'), i: fc.nat(20) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('leave'), i: fc.nat(H - 1) }) }
	)
	return section('everything at once', {
		arb: fc.record({ kind: fc.constantFrom('store', 'state'), wrapped: fc.boolean(), init: k, watched: fc.boolean(), ops: history(op, { minLength: 1, maxLength: 30 }) }),
		runs,
		rule: `up to 30 steps on one small state: values set, updaters, resets, async updaters that end at once or later (also by failing), handlers subscribed and unsubscribed, against a reference of value, handlers and pending updaters; compared: ${judge.join(', ')}; non-trivial: an async update and a subscription or its end come before a change.`,
		async check({ kind, wrapped, init, watched, ops }, rec) {
			// the value is a number, or a record with a number in it
			const wrap = n => (wrapped ? { n } : n)
			const unwrap = v => (wrapped ? v.n : v)
			let set
			let on
			let reset
			let get
			if (kind === 'store') {
				const s = S.createStore(wrap(init))
				;({ set, onChange: on, reset, get } = s)
			} else {
				const [v, ...rest] = S.createState(wrap(init))
				;[set, on, reset] = rest
				let now = v
				// the way to follow a bare state
				on(x => (now = x))
				get = () => now
			}
			let model = init
			const subs = []
			const disposers = []
			const pending = []
			let calls = []
			const changes = []
			if (watched) on((v, prev) => changes.push([v, prev]))
			const handlers = [...Array(H).keys()].map(h => (v, prev) => void calls.push([h, v, prev]))
			let old
			const settle = async (p, where) => {
				pending.splice(pending.indexOf(p), 1)
				p.open()
				const s = await settled(p.promise, `${where}: promise of set`)
				if (p.kind === 'fail') {
					if (judge.includes('promises')) {
						if (s.ok) fail(`${where}: the promise must reject`)
						same(s.error, p.error, `${where}: rejection`)
					}
					return
				}
				model = p.kind === 'value' ? p.k : p.given + 1
				if (judge.includes('promises')) {
					if (!s.ok) fail(`${where}: the promise rejected: ${s.error?.stack ?? s.error}`)
					same(s.value, get(), `${where}: result of the promise and value`)
				}
			}
			const start = (o, where) => {
				const p = { ...o, error: new Error(where), given: model }
				const gate = new Promise(r => (p.open = r))
				p.promise = set(
					wrapPromise[o.promise ?? 'native'](async d => {
						if (judge.includes('promises')) equal(unwrap(d), p.given, `${where}: what the updater is given`)
						await gate
						if (o.kind === 'fail') throw p.error
						if (o.kind === 'value') return wrap(o.k)
						if (!wrapped) return d + 1
						d.n++
					})
				)
				Promise.resolve(p.promise).catch(() => {})
				pending.push(p)
				return p
			}
			let mixed = 0
			for (const [i, o] of ops.entries()) {
				const where = `step ${i} (${o.op})`
				old = get()
				const before = model
				calls = []
				changes.length = 0
				let result
				// a reset, and a record set, replace the value even if it is equal
				let replaced = false
				if (o.op === 'set') {
					result = set(wrap(o.k))
					model = o.k
					replaced = true
				} else if (o.op === 'inc') {
					result = set(v => {
						if (!wrapped) return v + 1
						v.n++
					})
					model++
				} else if (o.op === 'reset') {
					reset()
					model = init
					replaced = true
				} else if (o.op === 'start') {
					if (pending.length < MAX) start(o, where)
				} else if (o.op === 'settle') {
					const p = pending[o.i % pending.length]
					if (p) {
						await settle(p, where)
						replaced = p.kind !== 'fail'
						if (mixed % 2 === 0) mixed++
					}
				} else if (o.op === 'async') {
					await settle(start(o, where), where)
					replaced = o.kind !== 'fail'
					if (mixed % 2 === 0) mixed++
				} else if (o.op === 'sub') {
					disposers.push({ h: o.h, sub: subs.includes(o.h) ? undefined : {}, fn: on(handlers[o.h]) })
					if (!subs.includes(o.h)) subs.push(o.h)
					if (mixed % 2) mixed++
				} else if (disposers.length) {
					// any unsubscribe function, or the one of a handler that is subscribed
					const live = disposers.filter(d => d.sub)
					const d = o.op === 'leave' ? live[o.i % live.length] : disposers[o.i % disposers.length]
					if (d) {
						d.fn()
						if (d.sub) {
							subs.splice(subs.indexOf(d.h), 1)
							d.sub = undefined
						}
						if (mixed % 2) mixed++
					}
				}
				const now = get()
				if (judge.includes('values')) {
					equal(unwrap(now), model, `${where}: value`)
					if (o.op === 'set' || o.op === 'inc') same(result, now, `${where}: result of set`)
				}
				const changed = !Object.is(old, now)
				if (before === model && !replaced) same(now, old, `${where}: the value without a change`)
				if (judge.includes('changes')) {
					if (before !== model) equal(changed, true, `${where}: changed`)
					if (watched) equal(changes, changed ? [[now, old]] : [], `${where}: changes seen by a subscriber`)
				}
				if (judge.includes('subscriptions')) {
					equal(calls.map(c => c[0]), before !== model || changed ? subs : [], `${where}: handlers called`)
				}
				rec.label(o.op)
				rec.nontrivial(mixed >= 2 && changed && before !== model)
			}
			while (pending.length) await settle(pending[0], 'at the end')
			if (judge.includes('values')) equal(unwrap(get()), model, 'value at the end')
		}
	})
}
