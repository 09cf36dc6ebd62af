import { create } from '../harness/apps.mjs'
import { history, ident, other, text } from '../harness/gen.mjs'
import { browserEnv, FakeErrorEvent } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, ok, same } from '../harness/util.mjs'

export const assumptions = ['subscribers of the error store do not throw', 'the page dispatches cancelable error events']

const ERROR = 400

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		browser: '@just-web/browser',
		browserT: '@just-web/browser/testing',
		log: '@just-web/log'
	})

	const event = fc.record({
		message: text,
		filename: fc.oneof({ weight: 2, arbitrary: fc.constantFrom('', 'http://localhost/a.js', 'b.js', 'http://localhost/a%20b/c.js?v=1#x', 'file:///C:/a/../b.js', 'webpack-internal:///./src/a.ts', '<anonymous>', `http://localhost/${'x'.repeat(300)}.js`) }, { weight: 1, arbitrary: ident(['a.js']) }),
		lineno: fc.oneof(fc.nat(9), fc.nat(2 ** 31)),
		colno: fc.oneof(fc.nat(9), fc.nat(2 ** 31)),
		error: fc.oneof({ weight: 2, arbitrary: fc.constantFrom('error', 'same error', 'subclass', 'frozen', 'undefined', 'null', 'text', 'number', 'object', 'DOMException', 'missing', 'browser error') }, { weight: 1, arbitrary: fc.record({ v: other }) }),
		prevented: fc.boolean()
	})
	const phase = fc.array(event, { maxLength: 2 })
	const step = fc.oneof(
		{
			weight: 3,
			arbitrary: fc.record({
				op: fc.constant('create'),
				test: fc.boolean(),
				gizmo: fc.constantFrom('browser', 'browser test'),
				preventDefault: fc.constantFrom('no options', 'no option', undefined, false, true, true),
				logLevel: fc.constantFrom(undefined, ERROR, Number.POSITIVE_INFINITY),
				before: phase,
				inCreate: phase,
				inStart: phase,
				inInit: phase,
				inAppStart: phase
			})
		},
		{ weight: 8, arbitrary: fc.record({ op: fc.constant('event'), event }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('subscribe'), app: fc.nat(9) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('unsubscribe'), app: fc.nat(9), n: fc.nat(9) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('tamper'), app: fc.nat(9) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('cleanup'), app: fc.nat(9) }) }
	)

	await section('errors', {
		arb: history(step, { minLength: 1, maxLength: 16 }),
		runs: { quick: 800, thorough: 20000 },
		rule: 'a fresh page; apps are created at any time, error events (every field, any thrown value) are dispatched before, between, after and from inside gizmos that are created before and after the browser gizmo; the records, notifications, logs and prevented defaults of all apps are compared with a list kept aside after every step; apps made with the browser gizmo itself are cleaned up at any time; non-trivial: two apps or an event during a creation, and at least two events in total.',
		async check(steps, rec) {
			const env = browserEnv()
			const m = sut.instantiate(env)
			const apps = []
			const shared = new Error('shared')
			let total = 0
			let during = 0
			let work = 0
			class Special extends Error {}
			const thrown = (kind, i) =>
				typeof kind === 'object' ? kind.v
				: kind === 'error' ? new Error(`error ${i}`)
				: kind === 'same error' ? shared
				: kind === 'subclass' ? new Special('special', { cause: shared })
				: kind === 'browser error' ? new m.browser.BrowserError('of its own', 'c.js', 1, 2, shared)
				: kind === 'frozen' ? Object.freeze(new TypeError('frozen'))
				: kind === 'DOMException' ? new DOMException('quota', 'QuotaExceededError')
				: kind === 'null' ? null
				: kind === 'text' ? 'some text'
				: kind === 'number' ? 0
				: kind === 'object' ? { a: [1] }
				: undefined
			const dispatch = d => {
				total++
				work += total * apps.length
				const error = thrown(d.error, total)
				const ev = new FakeErrorEvent({ message: d.message, filename: d.filename, lineno: d.lineno, colno: d.colno, error })
				if (d.prevented) ev.preventDefault()
				env.window.dispatchEvent(ev)
				let prevent = d.prevented
				for (const a of apps) {
					if (!a.listening) continue
					prevent ||= a.prevent
					a.expected.push({ ...d, error })
				}
				same(ev.defaultPrevented, prevent, `default of an error event prevented (options of the apps: ${apps.map(a => a.prevent)})`)
				for (const a of apps) if (a.browser) check(a)
			}
			// everything known about one app, at any time after its browser gizmo was created
			const check = a => {
				const errors = a.browser.errors.get()
				ok(Array.isArray(errors), 'errors.get() is an array')
				equal(errors.length, a.expected.length, `number of errors of app ${a.name}`)
				ok(Object.isFrozen(errors), 'the array of errors is frozen')
				for (let i = a.checked; i < errors.length; i++) {
					const e = errors[i]
					const x = a.expected[i]
					ok(e instanceof m.browser.BrowserError && e instanceof Error, `error ${i} is a BrowserError`)
					equal([e.message, e.source, e.lineno, e.colno], [x.message, x.filename, x.lineno, x.colno], `error ${i} of app ${a.name}`)
					same(e.cause, x.error, `cause of error ${i} of app ${a.name}`)
					for (const s of a.subscribers) {
						const call = s.calls.shift()
						ok(call, `handler of app ${a.name} was not called for error ${i}`)
						equal([call[0].length, call[1].length], [i + 1, i], `lengths of (new, previous) of error ${i}`)
						same(call[0][i], e, 'last error of the new value')
						same(call[2], call[0], 'errors.get() inside the handler')
					}
					ok(!a.errors.includes(e), 'the error is a new one')
					a.errors.push(e)
				}
				a.checked = errors.length
				for (const [i, e] of a.errors.entries()) same(errors[i], e, `error ${i} of app ${a.name} later`)
				for (const s of a.subscribers) equal(s.calls.length, 0, `further calls of a handler of app ${a.name}`)
				for (const s of a.gone) equal(s.calls.length, 0, `calls of an unsubscribed handler of app ${a.name}`)
				for (const [value, n] of a.snapshots) equal(value.length, n, 'length of a value read earlier')
				if (errors.length && a.snapshots.length < 5) a.snapshots.push([errors, errors.length])
				const entries = a.memory.logs.filter(e => e.level === ERROR)
				equal(entries.length, a.errors.length, `error entries in the log of app ${a.name}`)
				const last = entries.at(-1)
				if (last) {
					ok(last.args.includes(a.errors.at(-1)), `the log entry of app ${a.name} has the error`)
					ok(last.id === a.name || last.id.startsWith(`${a.name}:`), `logger ${last.id} of the entry of app ${a.name}`)
				}
			}
			for (const s of steps) {
				// many errors in many apps: each adds to the list of each
				if (work > 90_000) break
				if (s.op === 'create') {
					const a = {
						name: `app${apps.length}`,
						gizmo: s.gizmo,
						prevent: s.preventDefault === true,
						expected: [],
						errors: [],
						checked: 0,
						subscribers: [],
						gone: [],
						snapshots: [],
						listening: false,
						memory: m.log.createMemoryLogReporter()
					}
					const log = { reporters: [a.memory], ...(s.logLevel === undefined ? {} : { logLevel: s.logLevel }) }
					const make = s.gizmo === 'browser' ? m.browser.browserGizmoFn : m.browserT.browserTestGizmoFn
					const options = s.preventDefault === 'no option' ? {} : { preventDefault: s.preventDefault }
					const fire = list => list.forEach(e => (during++, dispatch(e)))
					const inc = (s.test ? m.appT.justTestApp : m.app.justApp)({ name: a.name, log })
						.with({
							async create() {
								apps.push(a)
								fire(s.before)
								return { before: 1 }
							}
						})
						.with(s.preventDefault === 'no options' ? make() : make(options))
						.with({
							async create(ctx) {
								// the gizmo was created just before this one
								a.listening = true
								a.browser = ctx.browser
								a.fields = Object.keys(ctx.browser.errors)
								fire(s.inCreate)
								return [{ later: 1 }, () => fire(s.inStart)]
							}
						})
						.init(() => fire(s.inInit))
					a.app = await create(inc, 'app creation', () => fire(s.inAppStart))
					same(a.app.browser.errors, a.browser.errors, 'errors store of the app')
				} else if (s.op === 'event') dispatch(s.event)
				else if (apps.length) {
					const a = apps[s.app % apps.length]
					if (s.op === 'subscribe') {
						const sub = { calls: [] }
						sub.off = a.browser.errors.onChange((now, before) => sub.calls.push([now, before, a.browser.errors.get()]))
						a.subscribers.push(sub)
					} else if (s.op === 'unsubscribe' && a.subscribers.length) {
						const [sub] = a.subscribers.splice(s.n % a.subscribers.length, 1)
						sub.off()
						a.gone.push(sub)
					} else if (s.op === 'tamper') {
						for (const f of ['set', 'reset', 'add']) ok(!(f in a.browser.errors), `the error store offers ${f}`)
						try {
							a.browser.errors.get().push(new Error('mine'))
						} catch {}
					} else if (s.op === 'cleanup' && a.gizmo === 'browser') {
						// the test gizmo makes its browser gizmo in an incubation of its own, which has no app to clean up
						m.app.incubate.cleanup(a.app)
						a.listening = false
						rec.label('cleaned up')
					}
				}
				for (const a of apps) check(a)
			}
			rec.label('several apps', apps.length > 1)
			rec.label('during creation', during > 0)
			rec.label('prevented', apps.some(a => a.prevent && a.expected.length))
			rec.label('events', total > 1)
			rec.nontrivial(total > 1 && (apps.length > 1 || during > 0))
		}
	})
}
