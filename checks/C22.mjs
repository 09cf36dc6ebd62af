import EventEmitterNode from 'node:events'
import { create, logTail } from '../harness/apps.mjs'
import { PROTO_NAMES, confusable, history, other, text } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, eq, equal, fail, ok, same } from '../harness/util.mjs'

export const assumptions = [
	'listeners do not subscribe or unsubscribe during an emission',
	'thrown values are not functions (the logger would call them)',
	'node emitters: event names are not `error`, and no prototype names',
	'emitters follow the EventEmitter interface (an EventTarget cannot be given)'
]

/** The least an emitter has to offer. */
class TinyEmitter {
	#list = []
	addListener(type, listener) {
		this.#list.push({ type, listener })
		return this
	}
	removeListener(type, listener) {
		const i = this.#list.findIndex(l => l.type === type && l.listener === listener)
		if (i >= 0) this.#list.splice(i, 1)
		return this
	}
	emit(type, ...args) {
		const l = this.#list.filter(l => l.type === type)
		for (const x of l) x.listener(...args)
		return l.length > 0
	}
}

export default async function ({ section }) {
	const sut = await buildSut({ appT: '@just-web/app/testing', app: '@just-web/app', events: '@just-web/events' })
	const m = sut.instantiate(browserEnv())
	const { logLevels } = m.app
	const type = fc.oneof({ weight: 6, arbitrary: fc.constantFrom('a', 'b', 'a.b', 'just') }, { weight: 1, arbitrary: confusable }, { weight: 1, arbitrary: text.filter(t => t !== 'error' && t !== 'newListener' && t !== 'removeListener' && !PROTO_NAMES.includes(t)) })
	const thrown = fc.oneof(
		{ weight: 3, arbitrary: fc.string({ maxLength: 4 }).map(s => new Error(s)) },
		fc.constantFrom('text', 0, null, undefined, { code: 1 }, Symbol.for('x'), false, ''),
		other.filter(v => typeof v !== 'function')
	)
	const args = fc.oneof({ weight: 15, arbitrary: fc.array(fc.oneof(fc.anything({ maxDepth: 1, withNullPrototype: false }), other), { maxLength: 7 }) }, { weight: 1, arbitrary: fc.array(other, { minLength: 8, maxLength: 40 }) })
	const op = fc.oneof(
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('on'), type, how: fc.constantFrom('on', 'addListener', 'once', 'listenTo'), throws: fc.option(fc.record({ value: thrown, on: fc.nat(2) }), { freq: 3 }) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('off'), n: fc.nat(8) }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('emit'), type, args }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('emitKnown'), n: fc.nat(8), args }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('emitJust'), type, value: fc.oneof(fc.anything({ maxDepth: 1 }), other), meta: fc.oneof(fc.constant(undefined), fc.anything({ maxDepth: 1 }), other) }) }
	)
	await section('histories', {
		arb: fc.record({ emitter: fc.constantFrom('default', 'default', 'node', 'tiny'), early: fc.array(fc.record({ type, throws: fc.option(fc.record({ value: thrown, on: fc.nat(2) }), { freq: 3 }) }), { maxLength: 2 }), direct: fc.nat(255), ops: history(op, { minLength: 1, maxLength: 20 }) }),
		runs: { quick: 2500, thorough: 60000 },
		rule: 'up to 20 subscriptions (on, addListener, once, justEvent.listenTo; every third listener throws on one of its calls), removals and emissions (of arguments, and errors, of any kind) on the default emitter, an EventEmitter of node or a minimal one (given with or without listeners, and also used directly), against an ordered list of listeners; non-trivial: a listener throws, and the same event is emitted again later to a listener that does not.',
		async check({ emitter, early, direct, ops }, rec) {
			const own = emitter === 'node' ? new EventEmitterNode() : emitter === 'tiny' ? new TinyEmitter() : undefined
			own?.setMaxListeners?.(0)
			let calls = []
			const listeners = []
			const listener = (id, type, throws, once) => {
				const me = { id, type, once, live: true, count: 0, throws }
				me.fn = (...args) => {
					const bad = throws && me.count++ === throws.on
					calls.push({ id, args, threw: !!bad })
					if (bad) throw throws.value
				}
				listeners.push(me)
				return me
			}
			// listeners the emitter had before it was given to the app
			if (own) for (const [i, x] of early.entries()) own.addListener(x.type, listener(`early ${i}`, x.type, x.throws, false).fn)
			const app = await create(m.appT.justTestApp().with(own ? m.events.eventsGizmoFn({ emitter: own }) : m.events.eventsGizmoFn()))
			const log = logTail(app)
			const failed = new Set()
			for (const [j, op] of ops.entries()) {
				const where = `step ${j}: ${op.op} ${JSON.stringify(op.type ?? '')} (${emitter} emitter)`
				calls = []
				// the emitter given in the options is the one of the app
				const e = own && (direct >> (j % 8)) & 1 ? own : app.events.emitter
				if (op.op === 'on') {
					let how = op.how
					if (emitter === 'tiny' && (how === 'on' || how === 'once')) how = 'addListener'
					const me = listener(j, op.type, op.throws, how === 'once')
					if (how === 'listenTo') m.events.justEvent(op.type).listenTo(e, me.fn)
					else e[how](op.type, me.fn)
					equal(calls, [], `${where}: listeners called`)
					continue
				}
				if (op.op === 'off') {
					const live = listeners.filter(l => l.live)
					if (!live.length) continue
					const l = live[op.n % live.length]
					e.removeListener(l.type, l.fn)
					l.live = false
					equal(calls, [], `${where}: listeners called`)
					continue
				}
				const liveTypes = listeners.filter(l => l.live).map(l => l.type)
				if (op.op === 'emitKnown' && !liveTypes.length) continue
				const type = op.op === 'emitKnown' ? liveTypes[op.n % liveTypes.length] : op.type
				const args = op.op === 'emitJust' ? [op.value, op.meta] : op.args
				const expected = listeners.filter(l => l.live && l.type === type)
				try {
					if (op.op === 'emitJust') m.events.justEvent(type).emitBy(e, op.value, op.meta)
					else e.emit(type, ...args)
				} catch (x) {
					fail(`${where}: emit threw ${x?.stack ?? String(x)}`)
				}
				// exactly the listeners up to the first failing one; what follows it may or may not be reached
				const firstBad = calls.findIndex(c => c.threw)
				const must = firstBad < 0 ? expected.length : firstBad + 1
				ok(calls.length >= must, () => `${where}: ${calls.length} listeners called, expected ${must}`)
				equal(calls.slice(0, must).map(c => c.id), expected.slice(0, must).map(l => l.id), `${where}: listeners called, in order`)
				const rest = calls.slice(must).map(c => c.id)
				equal(expected.slice(must).map(l => l.id).filter(id => rest.includes(id)), rest, `${where}: listeners called after a failing one`)
				for (const c of calls) {
					equal(c.args.length, args.length, `${where}: number of arguments of listener ${c.id}`)
					args.forEach((a, i) => same(c.args[i], a, `${where}: argument ${i} of listener ${c.id}`))
				}
				for (const c of calls) {
					const l = listeners.find(l => l.id === c.id)
					if (l.once) l.live = false
					if (c.threw) failed.add(type)
					else rec.label('works after a failure', failed.has(type))
				}
				const errors = log.next().filter(x => x.level <= logLevels.error)
				const thrownNow = calls.filter(c => c.threw).map(c => listeners.find(l => l.id === c.id).throws.value)
				equal(errors.length, thrownNow.length, `${where}: number of errors logged`)
				thrownNow.forEach((v, i) => {
					ok(errors[i].level === logLevels.error && errors[i].id === app.name, `${where}: the error is logged by the app logger as an error`)
					ok(errors[i].args.some(a => Object.is(a, v) || eq(a, v)), `${where}: the logged entry has the thrown value`)
				})
				rec.label('through the given emitter', e === own && calls.length > 0)
				rec.label('throws', thrownNow.length > 0)
				rec.label('throws a non-error', thrownNow.some(v => !(v instanceof Error)))
				rec.label('more than 5 arguments', args.length > 5 && calls.length > 0)
			}
			rec.label(emitter)
			rec.nontrivial(rec.labels.has('works after a failure'))
		}
	})
}
