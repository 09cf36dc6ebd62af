import { create, logTail, mentions } from '../harness/apps.mjs'
import { PROTO_NAMES, history, ident, other } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, same } from '../harness/util.mjs'

export const assumptions = ['handlers are functions']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', commands: '@just-web/commands', keyboard: '@just-web/keyboard' })
	const m = sut.instantiate(browserEnv())
	const { logLevels } = m.app
	const id = ident()
	const kind = fc.oneof(
		{ weight: 6, arbitrary: fc.constantFrom('value', 'undefined', 'throw', 'promise', 'first') },
		{ weight: 3, arbitrary: fc.record({ returns: other }) },
		{ weight: 1, arbitrary: fc.record({ throws: other }) }
	)
	const argsArb = fc.oneof({ weight: 20, arbitrary: fc.array(fc.oneof(fc.anything({ maxDepth: 1 }), other, fc.constant(undefined)), { maxLength: 4 }) }, { weight: 2, arbitrary: fc.array(other, { minLength: 5, maxLength: 40 }) }, { weight: 1, arbitrary: fc.constantFrom(110, 300).map(n => Array.from({ length: n }, (_, i) => i)) })
	const op = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('register'), id, kind }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('registerAgain'), n: fc.nat(20), kind }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('reuse'), n: fc.nat(20), of: fc.nat(20), own: fc.boolean() }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('invoke'), id, args: argsArb }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('invokeKnown'), n: fc.nat(20), args: argsArb }) }
	)
	await section('histories', {
		arb: fc.record({
			options: fc.option(fc.uniqueArray(fc.record({ id, kind }), { selector: x => x.id, maxLength: 4 })),
			crowd: fc.constantFrom(...Array(80).fill(0), 40, 110, 300),
			keyboard: fc.boolean(),
			ops: history(op, { maxLength: 16, crowd: 'id' })
		}),
		runs: { quick: 5000, thorough: 80000 },
		rule: 'handlers from the options, then up to 16 registrations and invocations over colliding, prototype-named and arbitrary Unicode ids, with arguments, results and errors of any kind, against a map of ids to handlers; non-trivial: an overridden id is invoked and an unregistered prototype-named or arbitrary id is invoked.',
		async check({ options, crowd, keyboard, ops }, rec) {
			if (options) for (let i = 0; i < crowd; i++) if (!options.some(o => o.id === `crowd ${i}`)) options = [...options, { id: `crowd ${i}`, kind: 'value' }]
			let calls = []
			let n = 0
			const make = (id, kind) => {
				const me = ++n
				const result = kind === 'promise' ? Promise.resolve(me) : kind === 'undefined' ? undefined : 'returns' in Object(kind) ? kind.returns : { me }
				const throws = kind === 'throw' || 'throws' in Object(kind)
				const error = kind === 'throw' ? new Error(`from ${me}`) : kind.throws
				return {
					me,
					kind,
					throws,
					result,
					error,
					id,
					fn: (...args) => {
						calls.push({ me, args })
						if (throws) throw error
						return kind === 'first' ? args[0] : result
					}
				}
			}
			const model = new Map()
			let given
			if (options) {
				given = Object.fromEntries(
					options.map(o => {
						const h = make(o.id, o.kind)
						model.set(o.id, h)
						return [o.id, h.fn]
					})
				)
			}
			let inc = m.appT.justTestApp()
			if (keyboard) inc = inc.with(m.keyboard.keyboardGizmoFn())
			const app = await create(inc.with(given ? m.commands.commandsGizmoFn({ handlers: given }) : m.commands.commandsGizmoFn()))
			const { handlers } = app.commands
			const log = logTail(app)
			const views = where => {
				equal(handlers.keys().map(String).sort(), [...model.keys()].sort(), `${where}: keys`)
				for (const k of new Set([...model.keys(), ...PROTO_NAMES, 'a', 'b', 'zzz', '']))
					same(handlers.has(k), model.has(k), `${where}: has(${JSON.stringify(k)})`)
			}
			views('initially')
			const overridden = new Set()
			for (let [i, op] of ops.entries()) {
				calls = []
				if (op.op === 'register' || op.op === 'registerAgain' || op.op === 'reuse') {
					if (op.op !== 'register') {
						if (!model.size) continue
						op = { ...op, id: [...model.keys()][op.n % model.size] }
					}
					const where = `step ${i}: register(${JSON.stringify(op.id)})`
					// also the very handler which this id or another one has
					const h = op.op === 'reuse' ? [...model.values()][(op.own ? op.n : op.of) % model.size] : make(op.id, op.kind)
					const had = model.has(op.id)
					handlers.register(op.id, h.fn)
					model.set(op.id, h)
					const entries = log.next()
					const notices = entries.filter(e => e.level === logLevels.notice)
					if (had) {
						overridden.add(op.id)
						ok(notices.some(e => mentions(e, op.id)), `${where}: overriding must log a notice naming the id`)
					} else equal(notices.length, 0, `${where}: notices for a new id`)
					equal(entries.filter(e => e.level <= logLevels.error).length, 0, `${where}: errors logged`)
					equal(calls.length, 0, `${where}: handlers called by registering`)
				} else {
					const keys = [...model.keys()]
					if (op.op === 'invokeKnown' && !keys.length) continue
					const id = op.op === 'invoke' ? op.id : keys[op.n % keys.length]
					const where = `step ${i}: invoke(${JSON.stringify(id)})`
					const h = model.get(id)
					let out
					try {
						out = { value: handlers.invoke(id, ...op.args) }
					} catch (error) {
						out = { error }
					}
					const errors = log.next().filter(e => e.level <= logLevels.error)
					if (!h) {
						if ('error' in out) fail(`${where}: threw ${out.error?.stack ?? out.error}`)
						same(out.value, undefined, `${where}: result for an unregistered command`)
						equal(calls.length, 0, `${where}: handlers called`)
						ok(errors.some(e => e.level === logLevels.error && mentions(e, id)), `${where}: an error naming the id must be logged`)
						rec.label('unregistered prototype name', PROTO_NAMES.includes(id))
						rec.label('unregistered')
					} else {
						equal(calls.length, 1, `${where}: number of handler calls`)
						equal(calls[0].me, h.me, `${where}: handler called`)
						equal(calls[0].args.length, op.args.length, `${where}: number of arguments`)
						op.args.forEach((a, j) => same(calls[0].args[j], a, `${where}: argument ${j}`))
						if (h.throws) {
							ok('error' in out, `${where}: what the handler throws must reach the caller`)
							same(out.error, h.error, `${where}: error`)
						} else {
							if ('error' in out) fail(`${where}: threw ${out.error?.stack ?? out.error}`)
							same(out.value, h.kind === 'first' ? op.args[0] : h.result, `${where}: result`)
						}
						equal(errors.length, 0, `${where}: errors logged`)
						rec.label('overridden invoked', overridden.has(id))
					}
				}
				views(`step ${i}`)
			}
			rec.label('options', model.size > 0 && options)
			rec.nontrivial(rec.labels.has('overridden invoked') && rec.labels.has('unregistered'))
		}
	})
}
