import { create } from '../harness/apps.mjs'
import { applyEdit, container, editArb, editArbOf, few, history, ident, json } from '../harness/gen.mjs'
import { browserEnv, FakeErrorEvent, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, eq, equal, fail, show } from '../harness/util.mjs'

export const assumptions = [
	'objects given may become frozen, as a state freezes what it holds; only their content is compared',
	'an emitter, a history, a storage, a reporter and functions are given to be used, so they are left out'
]

const plain = v => Array.isArray(v) || (typeof v === 'object' && v !== null && [Object.prototype, null].includes(Object.getPrototypeOf(v)))
/** freezes all that is plain; `used` are parts given to be used */
function freeze(v, used) {
	if (!plain(v) || used.has(v) || Object.isFrozen(v)) return v
	for (const k of Reflect.ownKeys(v)) freeze(v[k], used)
	return Object.freeze(v)
}

/** the content, with the parts that are given to be used as they are */
function snapshot(v, used) {
	if (!plain(v) || used.has(v)) return v
	const r = Array.isArray(v) ? [] : Object.create(Object.getPrototypeOf(v))
	for (const k of Reflect.ownKeys(v)) if (!(k === 'length' && Array.isArray(v))) Object.defineProperty(r, k, { value: snapshot(v[k], used), enumerable: true })
	return r
}

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		log: '@just-web/log',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		os: '@just-web/os/testing',
		browserT: '@just-web/browser/testing',
		prefs: '@just-web/preferences',
		bp: '@just-web/browser-preferences',
		bk: '@just-web/browser-keyboard',
		i18n: '@just-web/i18n',
		routes: '@just-web/routes',
		events: '@just-web/events',
		states: '@just-web/states',
		fetchT: '@just-web/fetch/testing',
		formatjs: '@just-web/formatjs',
		preset: '@just-web/presets-browser/testing'
	})
	const id = ident(['a.b', 'c.d']).filter(s => s !== '__proto__')
	const opt = arb => fc.option(arb, { nil: undefined })
	const unique = (arb, o) => fc.uniqueArray(arb, { selector: x => x.id, ...o })
	const contribution = fc.record({ id, title: fc.constantFrom('T', ''), description: fc.constantFrom('D'), commandPalette: fc.boolean(), extra: json }, { requiredKeys: ['id'] })
	const binding = fc.record({ id, key: fc.constantFrom('ctrl+a', 'x', 'ctrl+k ctrl+x'), mac: fc.constantFrom('cmd+a', '') }, { requiredKeys: ['id', 'key'] })
	const level = fc.constantFrom(400, 720, Number.POSITIVE_INFINITY)
	const given = fc.record({
		log: opt(fc.record({ logLevel: level, reporters: fc.constant(true), customLevels: fc.constantFrom({ silly: 750 }, {}) }, { requiredKeys: [] })),
		commands: opt(fc.record({ contributions: unique(contribution, { maxLength: 4 }), handlers: fc.uniqueArray(id, { maxLength: 4 }) }, { requiredKeys: [] })),
		keyboard: opt(fc.record({ keyBindingContributions: unique(binding, { maxLength: 4 }) }, { requiredKeys: [] })),
		browser: opt(fc.record({ navigator: fc.constant({ language: 'xx', plugins: [1] }), location: fc.constant({ pathname: '/own', nested: { a: 1 } }), preventDefault: fc.boolean() }, { requiredKeys: [] })),
		preset: fc.boolean(),
		prefs: fc.constantFrom('memory', 'browser'),
		os: opt(fc.record({ isMac: fc.constant('given') }, { requiredKeys: [] })),
		fetch: fc.boolean(),
		events: fc.boolean(),
		formatjs: fc.record({ locale: fc.constantFrom('en', 'de'), messages: fc.constantFrom({ hi: 'hi {name}', n: '{n, number, short} {n, plural, one {one} other {#}}' }, {}), formats: fc.constantFrom({ number: { short: { maximumFractionDigits: 1 } } }) }, { requiredKeys: ['locale', 'messages'] }),
		merged: fc.array(fc.dictionary(fc.constantFrom('extra', 'more', 'toString'), json, { maxKeys: 2 }), { maxLength: 2 }),
		started: opt(json)
	})
	const n = fc.nat(3)
	const op = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('contribute'), list: few(contribution, { maxLength: 3 }) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('bind'), list: few(binding, { maxLength: 3 }) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('command'), info: fc.oneof(contribution, fc.tuple(contribution, binding).map(([c, b]) => ({ ...b, ...c }))), again: fc.boolean() }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('invoke'), n, args: fc.array(json, { maxLength: 3 }) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('state'), value: container, by: fc.constantFrom('createStore', 'createState'), own: fc.boolean() }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('registry'), value: fc.dictionary(fc.constantFrom('a', 'b', 'toString'), json), own: fc.boolean() }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('state set'), n, value: container }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('state edit'), n, edits: fc.array(editArb, { minLength: 1, maxLength: 3 }), async: fc.boolean() }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('state return'), n, value: container }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('state reset'), n }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('list'), value: fc.array(json, { maxLength: 3 }), entries: fc.array(json, { minLength: 1, maxLength: 3 }), how: fc.constantFrom('push', 'unshift', 'own') }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('pref store'), key: fc.constantFrom('k', 'l'), value: opt(json) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('pref set'), n, value: json }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('pref edit'), n, edits: fc.array(editArbOf(json), { minLength: 1, maxLength: 3 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('pref clear') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('route config'), route: fc.constantFrom('/', '/a') }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'navigate' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('logger'), level, id: fc.constantFrom('x', 'y'), args: fc.array(json, { maxLength: 3 }) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('log'), method: fc.constantFrom('info', 'error', 'trace', 'warn'), args: fc.array(json, { maxLength: 3 }) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('emit'), args: fc.array(json, { maxLength: 3 }), fails: fc.boolean() }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('format'), id: fc.constantFrom('hi', 'n', 'none'), values: fc.record({ name: fc.constantFrom('a', 'b'), n: fc.nat(2) }, { requiredKeys: [] }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('error'), cause: json }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'fetch' }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'isMac' }) }
	)

	await section('gifts', {
		arb: fc.record({ test: fc.boolean(), given, ops: history(op, { minLength: 2, maxLength: 16 }) }),
		runs: { quick: 1200, thorough: 30000 },
		rule: 'an app composed with generated options of every gizmo and merged objects, and up to 16 later calls given objects (contributions, bindings, commands, states and their updates, defaults and values of preferences, configurations, logger options, arguments); run three times on equal pages: with fresh objects, with the very same objects again, and with deeply frozen ones; everything seen must be the same and every object must have the content it had; non-trivial: at least 8 objects given, and an edit of a state or preference.',
		async check({ test, given, ops }, rec) {
			const gifts = []
			const runs = []
			for (const mode of ['fresh', 'again', 'frozen']) {
				const env = browserEnv({ seed: 3, fetch: async () => 'page' })
				const m = sut.instantiate(env)
				const memory = m.log.createMemoryLogReporter()
				const trace = []
				const see = (...what) => trace.push(clone(what))
				let k = 0
				const used = new Set([memory])
				/** what is given: the same object when it is given again */
				const gift = (what, make) => {
					const i = k++
					if (mode === 'again') {
						if (gifts[i]?.what !== what) fail(`harness: gift ${i} is ${gifts[i]?.what}, not ${what}`)
						return gifts[i].value
					}
					const value = make()
					const g = { what, value, before: snapshot(value, used) }
					if (mode === 'frozen') {
						freeze(value, used)
						frozen.push(g)
					} else gifts.push(g)
					return value
				}
				const frozen = []
				runs.push({ mode, trace, gifts: mode === 'frozen' ? frozen : gifts })
				let calls = () => {}
				const copy = v => (v === undefined ? undefined : clone(v))
				// reporters and handlers are of this run
				const logOptions = given.log && (mode === 'again' ? { ...clone(given.log), reporters: [memory] } : gift('log options', () => ({ ...copy(given.log), reporters: [memory] })))
				if (given.log && mode === 'again') k++
				const appOptions = { name: 'app', ...(logOptions && { log: logOptions }) }
				freeze(mode === 'frozen' ? appOptions : undefined, used)
				let inc = (test ? m.appT.justTestApp : m.app.justApp)(appOptions)
				const options = (what, make) => (given[what] ? [gift(`options of ${what}`, make)] : [])
				inc = inc.with(m.keyboard.keyboardGizmoFn(...options('keyboard', () => copy(given.keyboard))))
				inc = inc.with(
					m.commands.commandsGizmoFn(
						...options('commands', () => ({ ...copy(given.commands), ...(given.commands.handlers && { handlers: Object.fromEntries(given.commands.handlers.map(h => [h, (...args) => args.length])) }) }))
					)
				)
				if (given.preset) inc = inc.with(m.preset.presetsBrowserTestGizmoFn(gift('options of the preset', () => ({ browser: copy(given.browser) }))))
				else {
					inc = inc.with(m.browserT.browserTestGizmoFn(...options('browser', () => copy(given.browser))))
					inc = inc.with(given.prefs === 'memory' ? m.prefs.memoryPreferencesGizmo : m.bp.browserPreferencesGizmo)
				}
				inc = inc.with(m.os.osTestGizmoFn(...options('os', () => (given.os.isMac ? { isMac: () => true } : {}))))
				if (given.fetch) inc = inc.with(m.fetchT.fetchTestGizmoFn(gift('options of fetch', () => ({ fetch: async () => 'given' }))))
				inc = inc.with(m.bk.browserKeyboardGizmo).with(m.routes.routesGizmo).with(m.states.statesGizmo)
				inc = inc.with(m.events.eventsGizmoFn(...(given.events ? [gift('options of events', () => ({}))] : [])))
				inc = inc.with(m.i18n.i18nGizmoFn(gift('options of i18n', () => ({ language: 'en' }))))
				inc = inc.with(m.formatjs.formatJSGizmoFn(gift('options of formatjs', () => ({ config: { ...copy(given.formatjs), onError() {} } }))))
				for (const o of given.merged) inc = inc.merge(gift('merged object', () => copy(o)))
				if (given.started !== undefined) inc = inc.with({ create: () => [gift('what a gizmo gives', () => ({ started: copy(given.started) })), () => {}] })
				const app = await create(inc)
				for (const r of ['/', '/a']) app.routes.register(r, () => see('route', r))
				app.events.emitter.addListener('x', (...args) => {
					see('event', args)
					if (args.at(-1) === 'fails') throw new Error('listener')
				})
				app.commands.handlers.register('last', (...args) => args)
				const states = [{ get: () => app.keyboard.keyBindingContributions.get(), set: () => {}, reset: () => {} }]
				const stores = []
				const make = {
					createStore: (s, v) => s.createStore(v),
					createRegistry: (s, v) => s.createRegistry(v),
					createState: (s, v) => {
						let [value, set, onChange, reset] = s.createState(v)
						onChange(v => (value = v))
						return { get: () => value, set, onChange, reset }
					}
				}
				const track = s => {
					states.push(s)
					s.onChange((v, before) => see('change', v, before))
				}
				const look = () => [
					{ ...app.commands.contributions.get() },
					{ ...app.keyboard.keyBindingContributions.get() },
					app.commands.handlers.keys(),
					app.i18n.getLanguage(),
					states.slice(1).map(s => s.get()),
					stores.map(s => s.get()),
					[...FakeStorage.dump(env.localStorage)],
					['extra', 'more', 'started'].map(f => app[f]),
					{ ...app.browser.navigator }.language,
					app.browser.errors.get().map(e => [e.message, e.cause])
				]
				for (const [j, o] of ops.entries()) {
					const where = `step ${j}: ${o.op}`
					let result
					try {
						result = await perform(o)
					} catch (e) {
						result = ['threw', e?.message]
					}
					see(where, result, look())
				}
				see('log', memory.logs.filter(e => e.id === 'app' || e.id.startsWith('app:')).map(e => [e.id, e.level, ...e.args.map(x => (typeof x === 'string' ? x.replaceAll(app.id, '<id>') : x instanceof Error ? `${x.message}` : x))]))
				rec.label('many gifts', k >= 8)

				async function perform(o) {
					const state = states.length > 1 ? states[1 + (o.n % (states.length - 1))] : undefined
					const store = stores[o.n % stores.length]
					switch (o.op) {
						case 'contribute':
							return app.commands.contributions.add(...o.list.map(c => gift('contribution', () => copy(c))))
						case 'bind':
							return app.keyboard.keyBindingContributions.add(...o.list.map(c => gift('key binding', () => copy(c))))
						case 'command': {
							const c = m.commands.command(gift('definition of a command', () => copy(o.info)), (...args) => args)
							c.connect(app)
							if (o.again) c.connect(app, () => 'again')
							return [c.id, c.name, c.title, c(gift('argument', () => ({ a: [1] })))]
						}
						case 'invoke':
							return app.commands.handlers.invoke(['last', 'none', 'a.b', 'c.d'][o.n], ...o.args.map(a => gift('argument', () => copy(a))))
						case 'state':
							return void track(make[o.by](o.own ? app.states : m.states, gift('initial value', () => copy(o.value))))
						case 'registry':
							return void track(make.createRegistry(o.own ? app.states : m.states, gift('initial record', () => copy(o.value))))
						case 'state set':
							return state?.set(gift('new value', () => copy(o.value)))
						case 'state edit':
							if (o.async)
								return await state?.set(async d => {
									for (const e of o.edits) {
										applyEdit(d, e)
										await undefined
									}
								})
							return state?.set(d => {
								for (const e of o.edits) applyEdit(d, e)
							})
						case 'state return':
							return state?.set(() => gift('result of an updater', () => copy(o.value)))
						case 'state reset':
							return state?.reset()
						case 'list': {
							const s = m.states.createStore(gift('initial list', () => copy(o.value)))
							const l = m.states.withAdder(s, o.how === 'own' ? (d, e) => void d.push(e, e) : m.states[o.how])
							l.add(...o.entries.map(e => gift('entry', () => copy(e))))
							return void track(l)
						}
						case 'pref store':
							return void stores.push(o.value === undefined ? app.preferences.createStore(o.key) : app.preferences.createStore(o.key, gift('default', () => copy(o.value))))
						case 'pref set':
							return store?.set(gift('value of a preference', () => copy(o.value)))
						case 'pref edit':
							return store?.set(d => {
								if (d) for (const e of o.edits) applyEdit(d, e)
							})
						case 'pref clear':
							return app.preferences.clearAll()
						case 'route config':
							return app.routes.config(gift('configuration of routes', () => ({ initialRoute: o.route })))
						case 'navigate':
							return app.routes.navigate()
						case 'logger':
							return app.log.getLogger(`${o.id}${o.level}`, gift('options of a logger', () => ({ level: o.level }))).info(...o.args.map(a => gift('logged', () => copy(a))))
						case 'log':
							return app.log[o.method](...o.args.map(a => gift('logged', () => copy(a))))
						case 'emit':
							return app.events.emitter.emit('x', ...o.args.map(a => gift('argument of an event', () => copy(a))), ...(o.fails ? ['fails'] : []))
						case 'format':
							return app.formatjs.intl.formatMessage(gift('message', () => ({ id: o.id, defaultMessage: 'none' })), gift('values', () => copy(o.values)))
						case 'error':
							return void env.window.dispatchEvent(new FakeErrorEvent({ message: 'm', error: gift('cause of an error', () => copy(o.cause)) }))
						case 'fetch':
							return await app.fetch('/')
						case 'isMac':
							return app.os.isMac()
					}
				}
			}
			for (const { mode, gifts } of runs)
				for (const g of gifts) equal(g.value, g.before, `content of what was given (${g.what}${mode === 'frozen' ? ', frozen' : ''})`)
			const [first, ...others] = runs
			for (const o of others) {
				const i = first.trace.findIndex((t, i) => !eq(normal(t), normal(o.trace[i])))
				if (i >= 0) equal(normal(o.trace[i]), normal(first.trace[i]), `${o.mode === 'again' ? 'with the same objects again' : 'with frozen objects'}: ${show(first.trace[i][0])}`)
				equal(o.trace.length, first.trace.length, `${o.mode}: number of things seen`)
			}
			const changed = ops.some(o => o.op.endsWith('edit'))
			rec.label('edit', changed)
			rec.nontrivial(rec.labels.has('many gifts') && changed)
		}
	})
}

/** Functions differ from run to run. */
function normal(v) {
	if (typeof v === 'function') return 'function'
	if (v instanceof Error) return `error ${v.message}`
	if (Array.isArray(v)) return v.map(normal)
	if (v && typeof v === 'object') return Object.fromEntries(Reflect.ownKeys(v).map(k => [k, normal(v[k])]))
	return v
}
