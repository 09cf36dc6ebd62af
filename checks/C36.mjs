import { MARKS, history } from '../harness/gen.mjs'
import { create } from '../harness/apps.mjs'
import { browserEnv, FakeErrorEvent } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, same, show } from '../harness/util.mjs'

export const assumptions = [
	'handlers do not throw, and do not remove handlers of the kind that is being called (see C03)',
	'nothing is claimed about the order in which one handler sees an outer change and a change made inside of it',
	'clearLanguage is not called from inside a language handler; updaters do not call back'
]

export default async function ({ section }) {
	const sut = await buildSut({
		appT: '@just-web/app/testing',
		commands: '@just-web/commands',
		browser: '@just-web/browser',
		i18n: '@just-web/i18n',
		bi: '@just-web/browser-i18n',
		routes: '@just-web/routes',
		events: '@just-web/events',
		states: '@just-web/states',
		prefs: '@just-web/preferences',
		keyboard: '@just-web/keyboard',
		bp: '@just-web/browser-preferences'
	})
	const id = fc.constantFrom('a', 'b', 'c', ...MARKS)
	const route = fc.constantFrom('/', '/a', '/b', ...MARKS)
	const n = fc.nat(3)
	const subject = fc.constantFrom('store', 'app store', 'registry')
	const action = fc.oneof(
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('register'), id }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('invoke'), id, arg: n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('call'), id: fc.constantFrom('a', 'b'), arg: n }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('connect'), id: fc.constantFrom('a', 'b') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('route'), route }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('navigate'), route: fc.option(route, { nil: undefined, freq: 3 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('unroute'), n }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear routes') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('config'), route: fc.constantFrom('/', '/a', '/b') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear prefs') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('bind'), id, key: fc.constantFrom('a', 'ctrl+b') }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('language'), to: fc.constantFrom('de', 'fr', 'ja'), how: fc.constantFrom('method', 'command') }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('emit'), type: fc.constantFrom('x', 'y'), arg: n }) },
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('set'), subject, how: fc.constantFrom('value', 'updater', 'updater', 'reset', 'same'), n: fc.nat(5) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('pref'), key: fc.constantFrom('k', 'l'), value: fc.constantFrom('1', '2', undefined), how: fc.constantFrom('value', 'updater', 'store') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('error'), message: fc.constantFrom('e', 'f') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('contribute'), id }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('listen'), kind: fc.constantFrom('store', 'app store', 'registry', 'language', 'language', 'x', 'y', 'contributions', 'bindings', 'errors') }) }
	)

	await section('nested calls', {
		arb: fc.record({
			impl: fc.constantFrom('memory', 'browser'),
			handlers: fc.record({ store: fc.integer({ min: 1, max: 2 }), 'app store': fc.nat(2), registry: fc.nat(2), language: fc.integer({ min: 1, max: 2 }), x: fc.integer({ min: 1, max: 2 }), y: fc.nat(1), contributions: fc.nat(1), bindings: fc.nat(1), errors: fc.nat(1) }),
			steps: history(action, { minLength: 2, maxLength: 10 }),
			inside: fc.array(fc.array(action, { minLength: 1, maxLength: 2 }), { maxLength: 14, size: 'max' })
		}),
		runs: { quick: 2500, thorough: 60000 },
		rule: 'an app with handlers of every kind (commands, routes, language, events, stores, registry, contributions, key bindings, recorded errors); up to 10 calls from outside, and up to 14 handler calls that make up to two calls of their own, to any depth; every call must call exactly the handlers it should, in order, with its own arguments, and everything the app answers must be the result of all calls in the order they were made, after each of them; non-trivial: calls at least two deep, of at least 3 kinds from inside handlers.',
		async check({ impl, handlers, steps, inside }, rec) {
			const env = browserEnv()
			const m = sut.instantiate(env)
			let inc = m.appT.justTestApp({ name: 'app' }).with(m.keyboard.keyboardGizmoFn()).with(m.commands.commandsGizmoFn()).with(m.browser.browserGizmoFn()).with(m.routes.routesGizmo).with(m.events.eventsGizmoFn()).with(m.states.statesGizmo)
			inc = impl === 'memory' ? inc.with(m.prefs.memoryPreferencesGizmo).with(m.i18n.i18nGizmoFn({ language: 'en' })) : inc.with(m.bp.browserPreferencesGizmo).with(m.bi.browserI18nGizmo)
			const app = await create(inc)
			const subjects = {
				store: { s: m.states.createStore(0), init: 0, value: 0 },
				'app store': { s: app.states.createStore(1), init: 1, value: 1 },
				registry: { s: m.states.createRegistry({ n: 0 }), init: 0, value: 0, registry: true }
			}
			const queue = [...inside]
			const frames = []
			let deepest = 0
			let failure
			const kinds = new Set()
			/** What every handler does: it notes the call, and then makes calls of its own. */
			const enter = (who, args) => {
				const frame = frames.at(-1)
				ok(frame, `${who} is called by nobody`)
				frame.calls.push([who, ...args])
				deepest = Math.max(deepest, frames.length)
				try {
					for (const a of queue.shift() ?? []) {
						kinds.add(a.op)
						perform(a)
					}
				} catch (e) {
					// the app may log what a handler throws, instead of passing it on
					failure ??= e
					throw e
				}
			}
			const expectCalls = (what, expected, f) => {
				const frame = { calls: [] }
				frames.push(frame)
				let out
				try {
					out = f()
				} finally {
					frames.pop()
				}
				if (failure) throw failure
				equal(frame.calls, expected(), `${'nested '.repeat(frames.length)}${what}: the handlers it calls`)
				return out
			}
			const times = (k, f) => [...Array(k).keys()].map(f)
			const model = { initial: '/', bindings: new Map(), handlers: new Map(), routes: new Map(), language: app.i18n.getLanguage(), prefs: new Map(), errors: 0, contributions: new Map(), defaults: new Map() }
			let serial = 0
			const registrations = []
			const commands = Object.fromEntries(['a', 'b'].map(i => [i, m.commands.command({ id: i }, (...args) => (enter(`default of ${i}`, args), `default of ${i}`))]))
			const connected = new Set()
			/** the number of handlers of each kind, named by kind and number */
			const count = {}
			const listen = kind => {
				const i = (count[kind] = (count[kind] ?? 0) + 1) - 1
				const who = `${kind} ${i}`
				const s = subjects[kind]
				if (s) s.s.onChange((v, before) => enter(who, s.registry ? [v.n, before.n] : [v, before]))
				else if (kind === 'language') app.i18n.languageChanged((a, b) => enter(who, [a, b]))
				else if (kind === 'contributions') app.commands.contributions.onChange(c => enter(who, [Object.keys(c).length]))
				else if (kind === 'bindings') app.keyboard.keyBindingContributions.onChange(c => enter(who, [Object.keys(c).length]))
				else if (kind === 'errors') app.browser.errors.onChange(list => enter(who, [list.length]))
				else app.events.emitter.addListener(kind, v => enter(who, [v]))
			}
			for (const [kind, k] of Object.entries(handlers)) times(k, () => listen(kind))
			/** the calls of all handlers there are now */
			const all = (kind, args) => {
				const calls = times(count[kind] ?? 0, i => [`${kind} ${i}`, ...args])
				return () => calls
			}

			function contributed(i) {
				if (model.contributions.has(i)) return () => []
				model.contributions.set(i, true)
				const size = others + model.contributions.size
				return all('contributions', [size])
			}
			const others = app.commands.contributions.size()
			const otherBindings = app.keyboard.keyBindingContributions.size()
			function perform(a) {
				if (['connect', 'call'].includes(a.op) && !Object.hasOwn(commands, a.id)) a = { ...a, id: 'a' }
				const what = show(a)
				if (frames.length > 30) return fail('calls nested without an end')
				switch (a.op) {
					case 'register': {
						const who = `handler ${serial++} of ${a.id}`
						expectCalls(what, () => [], () => app.commands.handlers.register(a.id, (...args) => (enter(who, args), who)))
						model.handlers.set(a.id, who)
						break
					}
					case 'call':
					case 'invoke': {
						const direct = a.op === 'call'
						const who = direct && !connected.has(a.id) ? `default of ${a.id}` : model.handlers.get(a.id)
						const out = expectCalls(what, () => (who ? [[who, a.arg]] : []), () => (direct ? commands[a.id](a.arg) : app.commands.handlers.invoke(a.id, a.arg)))
						same(out, who, `${what}: result`)
						break
					}
					case 'connect': {
						// subscribers of the contributions may register another handler meanwhile
						model.handlers.set(a.id, `default of ${a.id}`)
						connected.add(a.id)
						expectCalls(what, contributed(a.id), () => commands[a.id].connect(app))
						break
					}
					case 'contribute':
						expectCalls(what, contributed(a.id), () => app.commands.contributions.add({ id: a.id }))
						break
					case 'route': {
						const who = `route ${a.route} ${serial++}`
						let off
						expectCalls(what, () => [], () => (off = app.routes.register(a.route, () => enter(who, []))))
						registrations.push({ off, route: a.route, who })
						if (!model.routes.has(a.route)) model.routes.set(a.route, who)
						break
					}
					case 'navigate': {
						const who = model.routes.get(a.route ?? model.initial)
						expectCalls(what, () => (who ? [[who]] : []), () => app.routes.navigate(a.route))
						break
					}
					case 'unroute': {
						if (!registrations.length) break
						const r = registrations[a.n % registrations.length]
						expectCalls(what, () => [], r.off)
						if (model.routes.get(r.route) === r.who) model.routes.delete(r.route)
						break
					}
					case 'clear routes':
						expectCalls(what, () => [], () => app.routes.clearRoutes())
						model.routes.clear()
						break
					case 'config':
						model.initial = a.route
						expectCalls(what, () => [], () => app.routes.config({ initialRoute: a.route }))
						break
					case 'clear prefs':
						expectCalls(what, () => [], () => app.preferences.clearAll())
						model.prefs.clear()
						break
					case 'bind': {
						const known = model.bindings.has(a.id)
						if (!known) model.bindings.set(a.id, a.key)
						expectCalls(what, known ? () => [] : all('bindings', [otherBindings + model.bindings.size]), () => app.keyboard.keyBindingContributions.add({ id: a.id, key: a.key }))
						break
					}
					case 'language': {
						const before = model.language
						model.language = a.to
						expectCalls(
							what,
							all('language', [a.to, before]),
							() => (a.how === 'method' ? app.i18n.setLanguage(a.to) : app.commands.handlers.invoke('@just-web/i18n/set-language', a.to))
						)
						break
					}
					case 'emit':
						expectCalls(what, all(a.type, [a.arg]), () => app.events.emitter.emit(a.type, a.arg))
						break
					case 'error': {
						const size = ++model.errors
						expectCalls(what, all('errors', [size]), () => env.window.dispatchEvent(new FakeErrorEvent({ message: a.message })))
						break
					}
					case 'set': {
						const s = subjects[a.subject]
						const before = s.value
						s.value = a.how === 'reset' ? s.init : a.how === 'same' ? before : a.how === 'value' ? a.n : before + a.n
						const now = s.value
						const changes = s.registry ? now !== before || a.how === 'value' || (a.how === 'reset' && s.touched) : now !== before
						if (a.how !== 'same' && a.how !== 'reset' && changes) s.touched = true
						if (a.how === 'reset') s.touched = false
						expectCalls(
							what,
							changes ? all(a.subject, [now, before]) : () => [],
							() => {
								if (a.how === 'reset') s.s.reset()
								else if (a.how === 'same') s.s.set(s.s.get())
								else if (a.how === 'value') s.s.set(s.registry ? { n: a.n } : a.n)
								else if (s.registry)
									s.s.set(d => {
										d.n += a.n
									})
								else s.s.set(v => v + a.n)
							}
						)
						break
					}
					case 'listen':
						expectCalls(what, () => [], () => listen(a.kind))
						break
					case 'pref': {
						expectCalls(what, () => [], () => {
							if (a.how === 'value') app.preferences.set(a.key, a.value)
							else if (a.how === 'updater') app.preferences.set(a.key, () => a.value)
							else app.preferences.createStore(a.key).set(a.value)
						})
						if (a.value === undefined) model.prefs.delete(a.key)
						else model.prefs.set(a.key, a.how === 'store' ? JSON.stringify(a.value) : a.value)
					}
				}
				for (const [name, s] of Object.entries(subjects)) same(s.registry ? s.s.get().n : s.s.get(), s.value, `get() of the ${name} after ${what}`)
				equal(app.i18n.getLanguage(), model.language, `language after ${what}`)
				if (impl === 'browser' && frames.length === 0 && a.op === 'language') equal(env.localStorage.getItem('@just-web/browser-i18n/app/language'), model.language, `stored language after ${what}`)
				for (const k of ['k', 'l']) equal(app.preferences.get(k), model.prefs.get(k), `preference ${k} after ${what}`)
				for (const r of ['/', '/a', '/b']) same(app.routes.hasRoute(r), model.routes.has(r), `hasRoute(${r}) after ${what}`)
				for (const i of ['a', 'b', 'c']) {
					same(app.commands.handlers.has(i), model.handlers.has(i), `has(${i}) after ${what}`)
					same(app.commands.contributions.has(i), model.contributions.has(i), `contribution ${i} after ${what}`)
					same(app.keyboard.keyBindingContributions.get()[i]?.key, model.bindings.get(i), `binding of ${i} after ${what}`)
				}
				equal(app.browser.errors.get().length, model.errors, `number of errors after ${what}`)
			}
			for (const a of steps) perform(a)
			rec.label('two deep', deepest >= 2)
			rec.label('three deep', deepest >= 3)
			for (const k of kinds) rec.label(`inside: ${k}`)
			rec.nontrivial(deepest >= 2 && kinds.size >= 3)
		}
	})
}
