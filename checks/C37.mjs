import { create } from '../harness/apps.mjs'
import { browserEnv, FakeErrorEvent, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, ok, same, settled, show } from '../harness/util.mjs'

export const assumptions = [
	'nothing is claimed about the handlers that come after a failing one in the same call (except that they are called in order, if at all), nor about clearLanguage() with failing handlers',
	'a failing clearAll() may have removed any of the preferences'
]

/** A storage whose operations fail on demand, as one that is full or blocked. */
class FailingStorage extends FakeStorage {
	failing
	#check(what) {
		if (this.failing?.ops.includes(what)) {
			this.failing.happened = true
			throw this.failing.error
		}
	}
	getItem(k) {
		this.#check('read')
		return super.getItem(k)
	}
	setItem(k, v) {
		this.#check('write')
		super.setItem(k, v)
	}
	removeItem(k) {
		this.#check('remove')
		super.removeItem(k)
	}
}

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		commands: '@just-web/commands',
		browser: '@just-web/browser',
		i18n: '@just-web/i18n',
		bi: '@just-web/browser-i18n',
		routes: '@just-web/routes',
		events: '@just-web/events',
		states: '@just-web/states',
		prefs: '@just-web/preferences',
		bp: '@just-web/browser-preferences'
	})
	const id = fc.constantFrom('a', 'b')
	const fails = fc.boolean()
	/** which handler fails, if any */
	const bad = fc.option(fc.nat(2), { nil: undefined, freq: 2 })
	const broken = fc.constantFrom('none', 'none', 'none', 'write', 'write', 'remove', 'read')
	const n = fc.nat(4)
	const subject = fc.constantFrom('store', 'app store', 'registry')
	const op = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('invoke'), id, how: fc.constantFrom('id', 'command'), outcome: fc.constantFrom('value', 'throws', 'rejects', 'resolves'), n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('register'), id }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('navigate'), route: fc.constantFrom('/', '/a', '/b', undefined, undefined), fails }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constantFrom('register route', 'register route', 'remove route'), route: fc.constantFrom('/', '/a', '/b') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('initial route'), route: fc.constantFrom('/', '/a', '/b') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear routes') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('emit'), bad, n }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('language'), to: fc.constantFrom('de', 'fr', 'ja'), how: fc.constantFrom('method', 'command', 'id'), bad, broken: fc.constantFrom('none', 'none', 'write') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear language') }) },
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('set'), subject, how: fc.constantFrom('value', 'edit', 'return', 'async edit', 'async return'), updater: fc.constantFrom('works', 'works', 'fails', 'fails after editing'), bad, n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('reset'), subject, bad }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('add'), entries: fc.array(n, { minLength: 1, maxLength: 3 }), failsAt: fc.option(fc.nat(2), { nil: undefined }), bad }) },
		{ weight: 6, arbitrary: fc.record({ op: fc.constant('pref'), key: fc.constantFrom('k', 'l'), value: fc.constantFrom('1', '2', undefined), store: fc.boolean(), how: fc.constantFrom('value', 'updater', 'async'), fails, broken }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('unserializable'), key: fc.constantFrom('k', 'l'), updater: fc.boolean() }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear prefs'), broken }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('contribute'), id: fc.constantFrom('a', 'b', 'c', 'd'), connect: fc.boolean(), fails }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('page error'), message: fc.constantFrom('e', 'f') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('create'), fails: fc.constantFrom('no', 'create', 'start', 'app start', 'init'), later: fc.boolean() }) }
	)

	await section('failing calls', {
		arb: fc.record({
			impl: fc.constantFrom('memory', 'browser', 'browser'),
			subscribers: fc.record({ store: fc.nat(2), 'app store': fc.nat(2), registry: fc.nat(3), list: fc.nat(2), language: fc.nat(3), events: fc.nat(3) }),
			ops: fc.array(op, { minLength: 2, maxLength: 25, size: 'max' }),
			repeat: fc.oneof({ weight: 4, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.record({ at: fc.nat(24), times: fc.constantFrom(3, 25, 60) }) })
		}),
		runs: { quick: 2000, thorough: 40000 },
		rule: 'up to 25 uses of an app (one of them sometimes repeated up to 60 times) in which any participant may fail: command, route and language handlers, event listeners, subscribers, updaters (sync, async, after editing), adders, values that cannot be stored, a storage that cannot be read or written, creations of other apps on the page (retried later); the error must reach the caller (or the log, for events), what the call did must be all or nothing as stated, and everything the app answers is compared with a model after every step; non-trivial: at least 2 kinds of calls fail, and each of 2 such kinds works again later.',
		async check({ impl, subscribers, ops, repeat }, rec) {
			if (repeat) ops = ops.flatMap((o, i) => (i === repeat.at % ops.length ? Array(repeat.times).fill(o) : [o]))
			const localStorage = new FailingStorage()
			const env = browserEnv({ localStorage, language: 'en' })
			const m = sut.instantiate(env)
			let inc = m.appT.justTestApp({ name: 'app' }).with(m.commands.commandsGizmoFn()).with(m.browser.browserGizmoFn()).with(m.routes.routesGizmo).with(m.events.eventsGizmoFn()).with(m.states.statesGizmo)
			inc = impl === 'memory' ? inc.with(m.prefs.memoryPreferencesGizmo).with(m.i18n.i18nGizmoFn({ language: 'en' })) : inc.with(m.bp.browserPreferencesGizmo).with(m.bi.browserI18nGizmo)
			const app = await create(inc)

			let calls = []
			/** who is to fail, and with what */
			let armed
			let failures = 0
			const error = () => new Error(`failure ${++failures}`)
			const handler = (group, i) => (...args) => {
				calls.push([group, i, ...args])
				if (armed?.group === group && armed.i === i) throw armed.error
			}
			const subjects = {
				store: { s: m.states.createStore(0), init: 0, value: 0, wrap: v => v },
				'app store': { s: app.states.createStore(1), init: 1, value: 1, wrap: v => v },
				registry: { s: m.states.createRegistry({ n: 0 }), init: 0, value: 0, wrap: v => ({ n: v }), registry: true }
			}
			const list = m.states.withAdder(m.states.createStore([]), (r, e) => {
				if (armed?.group === 'adder' && armed.i-- === 0) throw armed.error
				r.push(e)
			})
			const model = { list: [], handlers: new Map(), language: 'en', stored: undefined, prefs: new Map(), errors: 0, contributions: new Set(), connected: new Set() }
			for (const [k, s] of Object.entries(subjects)) for (let i = 0; i < subscribers[k]; i++) s.s.onChange(handler(k, i))
			for (let i = 0; i < subscribers.list; i++) list.onChange(handler('list', i))
			for (let i = 0; i < subscribers.language; i++) app.i18n.languageChanged(handler('language', i))
			for (let i = 0; i < subscribers.events; i++) app.events.emitter.addListener('x', handler('events', i))
			app.commands.contributions.onChange(() => handler('contributions', 0)())
			let outcome
			const behave = (who, args) => {
				calls.push([who, ...args])
				if (outcome.kind === 'throws') throw outcome.error
				if (outcome.kind === 'rejects') return Promise.reject(outcome.error)
				return outcome.kind === 'resolves' ? Promise.resolve(outcome.value) : outcome.value
			}
			const commands = {}
			for (const i of ['a', 'b', 'c', 'd']) commands[i] = m.commands.command({ id: i }, (...args) => behave(`default of ${i}`, args))
			let route
			const routes = { initial: '/', now: new Map() }
			const addRoute = (r, note) => {
				const entry = { who: `${r} ${note}` }
				entry.remove = app.routes.register(r, () => {
					calls.push(['route', entry.who])
					if (route) throw route
				})
				if (!routes.now.has(r)) routes.now.set(r, entry)
			}
			addRoute('/', 'first')
			addRoute('/a', 'first')
			const size = app.commands.contributions.size()
			let serial = 0
			const failed = new Map()
			const again = new Set()

			for (const [j, op] of ops.entries()) {
				const where = `step ${j}: ${show(op)}`
				calls = []
				armed = undefined
				let didFail = false
				/** runs it and compares how it ends: with an error, or without */
				const run = async (f, expected, note = '') => {
					let r
					try {
						r = f()
					} catch (e) {
						if (!expected || expected.async) throw e
						same(e, expected.error, `${where}${note}: the error the caller gets`)
						didFail = true
						return undefined
					}
					if (r instanceof Promise) {
						const s = await settled(r, `${where}${note}: the promise`)
						if (s.ok) {
							ok(!expected, `${where}${note}: the failure does not reach the caller`)
							return s.value
						}
						if (!expected) throw s.error
						same(s.error, expected.error, `${where}${note}: the error the promise rejects with`)
						didFail = true
						return undefined
					}
					ok(!expected, `${where}${note}: the failure does not reach the caller`)
					return r
				}
				/** all handlers of the group, or up to the failing one at least */
				const reached = (group, count, args) => {
					const mine = calls.filter(c => c[0] === group)
					const all = [...Array(count).keys()].map(i => [group, i, ...args])
					equal(mine, all.slice(0, mine.length), `${where}: handlers called`)
					const must = armed?.group === group && armed.i < count ? armed.i + 1 : count
					ok(mine.length >= must, `${where}: ${mine.length} of ${must} handlers called`)
				}
				const none = group => equal(calls.filter(c => c[0] === group), [], `${where}: handlers called`)
				const arm = (group, i, count) => {
					if (i === undefined || i >= count) return undefined
					armed = { group, i, error: error() }
					return { error: armed.error }
				}
				switch (op.op) {
					case 'register': {
						const who = `handler ${serial++}`
						await run(() => app.commands.handlers.register(op.id, (...args) => behave(who, args)))
						model.handlers.set(op.id, who)
						break
					}
					case 'invoke': {
						outcome = { kind: op.outcome, value: `value ${j}`, error: error() }
						const connected = model.connected.has(op.id)
						const who = op.how === 'id' || connected ? model.handlers.get(op.id) : `default of ${op.id}`
						const bad = who && (op.outcome === 'throws' || op.outcome === 'rejects')
						const r = await run(() => (op.how === 'id' ? app.commands.handlers.invoke(op.id, op.n, j) : commands[op.id](op.n, j)), bad ? { error: outcome.error, async: op.outcome === 'rejects' } : undefined)
						if (!bad) equal(r, who && outcome.value, `${where}: result`)
						equal(calls, who ? [[who, op.n, j]] : [], `${where}: handlers called`)
						break
					}
					case 'navigate': {
						const target = routes.now.get(op.route ?? routes.initial)
						route = op.fails ? error() : undefined
						const logged = app.log.reporter.logs.length
						await run(() => app.routes.navigate(op.route), target && route && { error: route })
						equal(calls, target ? [['route', target.who]] : [], `${where}: handlers called`)
						same(app.log.reporter.logs.slice(logged).filter(l => l.level <= m.app.logLevels.error).length, target ? 0 : 1, `${where}: errors logged`)
						break
					}
					case 'register route':
						addRoute(op.route, `of step ${j}`)
						break
					case 'remove route':
						routes.now.get(op.route)?.remove()
						routes.now.delete(op.route)
						break
					case 'initial route':
						app.routes.config({ initialRoute: op.route })
						routes.initial = op.route
						break
					case 'clear routes':
						app.routes.clearRoutes()
						routes.now.clear()
						break
					case 'emit': {
						const logged = app.log.reporter.logs.length
						const e = arm('events', op.bad, subscribers.events)
						await run(() => void app.events.emitter.emit('x', op.n))
						reached('events', subscribers.events, [op.n])
						const errors = app.log.reporter.logs.slice(logged).filter(l => l.level <= m.app.logLevels.error)
						equal(errors.length, e ? 1 : 0, `${where}: errors logged`)
						if (e) {
							ok(errors[0].args.includes(e.error), `${where}: the error is logged`)
							didFail = true
						}
						break
					}
					case 'language': {
						const before = model.language
						const e = arm('language', op.bad, subscribers.language)
						const write = op.broken === 'write' && impl === 'browser'
						if (write) localStorage.failing = { ops: ['write'], error: error() }
						const expected = write ? { error: localStorage.failing.error } : e
						await run(() => (op.how === 'method' ? app.i18n.setLanguage(op.to) : op.how === 'id' ? app.commands.handlers.invoke('@just-web/i18n/set-language', op.to) : m.i18n.setLanguageCommand(op.to)), expected)
						localStorage.failing = undefined
						model.language = op.to
						if (!write) {
							model.stored = op.to
							reached('language', subscribers.language, [op.to, before])
						}
						break
					}
					case 'clear language': {
						if (impl !== 'browser') break
						const before = model.language
						await run(() => app.i18n.clearLanguage())
						model.language = 'en'
						model.stored = undefined
						reached('language', subscribers.language, ['en', before])
						break
					}
					case 'reset':
					case 'set': {
						const s = subjects[op.subject]
						const before = s.value
						const updates = op.op === 'set' && op.how !== 'value'
						const asynchronous = updates && op.how.startsWith('async')
						const updaterFails = updates && op.updater !== 'works' ? error() : undefined
						const value = op.op === 'reset' ? s.init : updates ? before + op.n : op.n
						const e = updaterFails || (value === before && (!s.registry || updates)) ? undefined : arm(op.subject, op.bad, subscribers[op.subject])
						const body = d => {
							if (op.updater === 'fails') throw updaterFails
							if (op.how.endsWith('edit') && s.registry) {
								d.n += op.n
								if (updaterFails) throw updaterFails
								return undefined
							}
							if (updaterFails) {
								if (s.registry) d.n = 99
								throw updaterFails
							}
							return s.registry ? (value === before ? d : { n: value }) : d + op.n
						}
						const updater = asynchronous ? async d => (await undefined, body(d)) : body
						// a registry set to an equal record may or may not tell its subscribers
						const free = s.registry && value === before
						const expected = updaterFails ? { error: updaterFails, async: asynchronous } : e && !free ? { error: e.error, async: asynchronous } : undefined
						if (free) armed = undefined
						await run(() => (op.op === 'reset' ? s.s.reset() : s.s.set(updates ? updater : s.wrap(op.n))), expected)
						if (updaterFails) none(op.subject)
						else {
							s.value = value
							if (!free) {
								if (value === before) none(op.subject)
								else reached(op.subject, subscribers[op.subject], [s.wrap(value), s.wrap(before)])
							}
						}
						break
					}
					case 'add': {
						const before = model.list
						if (op.failsAt !== undefined && op.failsAt < op.entries.length) {
							armed = { group: 'adder', i: op.failsAt, error: error() }
							await run(() => list.add(...op.entries), { error: armed.error })
							none('list')
							break
						}
						const e = arm('list', op.bad, subscribers.list)
						await run(() => list.add(...op.entries), e)
						model.list = [...before, ...op.entries]
						reached('list', subscribers.list, [model.list, before])
						break
					}
					case 'pref': {
						const updates = op.how !== 'value'
						const updaterFails = updates && op.fails ? error() : undefined
						const faulty = impl === 'browser' && op.broken !== 'none'
						if (faulty) localStorage.failing = { ops: [op.broken], error: error(), happened: false }
						const target = op.store ? app.preferences.createStore(op.key) : { set: v => app.preferences.set(op.key, v) }
						const body = () => {
							if (updaterFails) throw updaterFails
							return op.value ?? (op.store ? m.states.nothing : undefined)
						}
						const f = () => target.set(!updates ? op.value : op.how === 'async' ? async () => (await undefined, body()) : body)
						let result
						try {
							const r = f()
							result = r instanceof Promise ? await settled(r, `${where}: the promise`) : { ok: true }
						} catch (e) {
							result = { ok: false, error: e }
						}
						const storageFailed = faulty && localStorage.failing.happened
						const storageError = localStorage.failing?.error
						localStorage.failing = undefined
						// the storage may or may not be read, and before or after the updater runs
						if (storageFailed) {
							ok(!result.ok, `${where}: the failure of the storage does not reach the caller`)
							ok(result.error === storageError || (updaterFails && result.error === updaterFails), `${where}: the error of the storage`)
							didFail = true
						} else if (updaterFails) {
							ok(!result.ok, `${where}: the failure of the updater does not reach the caller`)
							same(result.error, updaterFails, `${where}: the error of the updater`)
							didFail = true
						} else {
							if (!result.ok) throw result.error
							ok(!faulty || op.broken !== (op.value === undefined ? 'remove' : 'write') || (op.value === undefined && !model.prefs.has(op.key)), `${where}: nothing is written`)
							if (op.value === undefined) model.prefs.delete(op.key)
							else model.prefs.set(op.key, op.store ? JSON.stringify(op.value) : op.value)
						}
						break
					}
					case 'unserializable': {
						const value = {}
						value.self = value
						const store = app.preferences.createStore(op.key)
						let threw
						try {
							store.set(op.updater ? () => value : value)
						} catch (e) {
							threw = e
						}
						ok(threw instanceof Error, `${where}: a value that cannot be stored is accepted silently`)
						didFail = true
						break
					}
					case 'clear prefs': {
						const faulty = impl === 'browser' && op.broken !== 'none'
						if (faulty) localStorage.failing = { ops: [op.broken], error: error(), happened: false }
						let threw
						try {
							app.preferences.clearAll()
						} catch (e) {
							threw = e
						}
						const storageFailed = faulty && localStorage.failing.happened
						const storageError = localStorage.failing?.error
						localStorage.failing = undefined
						same(threw, storageFailed ? storageError : undefined, `${where}: the error the caller gets`)
						if (!storageFailed) model.prefs.clear()
						else {
							didFail = true
							for (const [k, v] of [...model.prefs]) {
								const now = app.preferences.get(k)
								ok(now === undefined || now === v, `${where}: ${k} has become ${show(now)}`)
								if (now === undefined) model.prefs.delete(k)
							}
						}
						break
					}
					case 'contribute': {
						const isNew = !model.contributions.has(op.id)
						const e = op.fails && isNew ? arm('contributions', 0, 1) : undefined
						await run(() => (op.connect ? commands[op.id].connect(app) : app.commands.contributions.add({ id: op.id })), e)
						model.contributions.add(op.id)
						if (op.connect) {
							model.connected.add(op.id)
							model.handlers.set(op.id, `default of ${op.id}`)
						}
						equal(calls.length, isNew ? 1 : 0, `${where}: subscribers of the contributions`)
						break
					}
					case 'page error':
						env.window.dispatchEvent(new FakeErrorEvent({ message: op.message }))
						model.errors++
						break
					case 'create': {
						let broken = op.fails
						const e = error()
						const failIf = x => {
							if (broken === x) throw e
						}
						const other = m.appT
							.justTestApp({ name: `app ${j}` })
							.with(m.commands.commandsGizmoFn())
							.with(m.browser.browserGizmoFn())
							.with({
								create: async () => {
									await undefined
									failIf('create')
									return [{ other: j }, async () => failIf('start')]
								}
							})
							.init(async () => failIf('init'))
						const make = () => other.create(async () => failIf('app start'))
						const s = await settled(make(), `${where}: the creation`)
						same(s.ok, broken === 'no', `${where}: the creation succeeds`)
						if (!s.ok) {
							same(s.error, e, `${where}: the error of the creation`)
							didFail = true
							if (op.later) {
								broken = 'no'
								const again = await settled(make(), `${where}: the second creation`)
								if (!again.ok) throw again.error
								equal(again.value.other, j, `${where}: the app created then`)
							}
						}
					}
				}
				armed = undefined
				// everything the app answers
				for (const [k, s] of Object.entries(subjects)) equal(s.s.get(), s.wrap(s.value), `${where}: ${k}`)
				equal(list.get(), model.list, `${where}: list`)
				same(app.i18n.getLanguage(), model.language, `${where}: language`)
				if (impl === 'browser') same(env.localStorage.getItem(storageKey), model.stored ?? null, `${where}: stored language`)
				for (const k of ['k', 'l']) {
					same(app.preferences.get(k), model.prefs.get(k), `${where}: preference ${k}`)
					const text = model.prefs.get(k)
					if (text !== undefined) equal(app.preferences.createStore(k).get(), JSON.parse(text), `${where}: store of ${k}`)
				}
				for (const i of ['a', 'b', 'c', 'd']) {
					same(app.commands.handlers.has(i), model.handlers.has(i), `${where}: handler of ${i}`)
					same(app.commands.contributions.has(i), model.contributions.has(i), `${where}: contribution ${i}`)
				}
				same(app.commands.contributions.size(), size + model.contributions.size, `${where}: number of contributions`)
				for (const r of ['/', '/a', '/b']) same(app.routes.hasRoute(r), routes.now.has(r), `${where}: route ${r}`)
				same(app.browser.errors.get().length, model.errors, `${where}: number of errors`)
				if (didFail) failed.set(op.op, j)
				else if (failed.has(op.op)) again.add(op.op)
			}
			for (const k of failed.keys()) rec.label(`fails: ${k}`)
			rec.nontrivial(failed.size > 1 && again.size > 1)
		}
	})
}
const storageKey = '@just-web/browser-i18n/app/language'
