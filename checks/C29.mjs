import { create } from '../harness/apps.mjs'
import { appName, history, ident, json, logId, text } from '../harness/gen.mjs'
import { browserEnv, FakeErrorEvent, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { eq, equal, fail, same, settled, show, turn } from '../harness/util.mjs'

export const assumptions = ['the app has commands before the preset', 'names of apps do not contain colons']

const PROVIDED = ['browser', 'fetch', 'preferences', 'history']

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		log: '@just-web/log',
		logT: '@just-web/log/testing',
		browser: '@just-web/browser',
		browserT: '@just-web/browser/testing',
		prefs: '@just-web/browser-preferences',
		history: '@just-web/history',
		historyT: '@just-web/history/testing',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		os: '@just-web/os',
		events: '@just-web/events',
		fetchT: '@just-web/fetch/testing',
		preset: '@just-web/presets-browser',
		presetT: '@just-web/presets-browser/testing'
	})
	const given = fc.constantFrom('absent', 'absent', 'given')
	const appArb = fc.record({
		justTest: fc.boolean(),
		name: appName(['app', 'other', '日本']),
		logLevel: fc.constantFrom(undefined, undefined, 400, Number.POSITIVE_INFINITY),
		override: fc.option(fc.constantFrom('log gizmo', 'log of another app'), { freq: 3 }),
		overrideLate: fc.boolean(),
		commands: fc.boolean(),
		keyboard: fc.boolean(),
		extras: fc.subarray(['os', 'events', 'fetch', 'static', 'symbol', 'function']),
		test: fc.boolean(),
		options: fc.option(
			fc.record({
				browser: fc.option(fc.record({ preventDefault: fc.constantFrom(undefined, true, false), fetch: given, localStorage: given, sessionStorage: given, navigator: given, location: given })),
				history: given
			}),
			{ freq: 5 }
		)
	})
	const key = ident(['k', 'l', 'm'])
	const op = fc.record({
		app: fc.nat(1),
		what: fc.oneof(
			{ weight: 3, arbitrary: fc.record({ op: fc.constant('set'), key, value: fc.option(text, { nil: undefined, freq: 5 }), how: fc.constantFrom('value', 'updater', 'async') }) },
			{ weight: 2, arbitrary: fc.record({ op: fc.constant('get'), key, fallback: fc.option(text, { nil: undefined }) }) },
			{ weight: 1, arbitrary: fc.constant({ op: 'clear' }) },
			{ weight: 2, arbitrary: fc.record({ op: fc.constant('store'), key, value: json }) },
			{ weight: 2, arbitrary: fc.record({ op: fc.constant('error'), message: text, lineno: fc.nat(9) }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('fetch'), input: fc.constantFrom('/', '/a') }) },
			{ weight: 2, arbitrary: fc.record({ op: fc.constant('push'), path: fc.constantFrom('/', '/a', '/b?q#h') }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('go'), n: fc.integer({ min: -2, max: 2 }) }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('invoke'), command: fc.nat(9), key }) }
		)
	})

	await section('preset', {
		arb: fc.record({ apps: fc.array(appArb, { minLength: 1, maxLength: 2 }), ops: history(op, { maxLength: 16 }), seed: fc.nat(99) }),
		runs: { quick: 600, thorough: 12000 },
		rule: 'one or two apps with any earlier gizmos (log replaced, fetch, os, events, static fields) and any options are built on two equal pages, once with the preset and once with the separate gizmos; up to 16 uses of preferences, errors, fetch, history and commands must give the same results, storages, logs and locations; what the apps had before the preset must stay identical; non-trivial: two apps or a replaced log, and at least three uses.',
		async check({ apps, ops, seed }, rec) {
			const sides = []
			for (const preset of [true, false]) {
				const fetched = []
				const env = browserEnv({ seed, fetch: async (...args) => (fetched.push(args), 'page') })
				const m = sut.instantiate(env)
				const side = { env, m, fetched, apps: [] }
				sides.push(side)
				const other = await create(m.appT.justTestApp({ name: 'elsewhere' }))
				for (const a of apps) {
					const memory = m.log.createMemoryLogReporter()
					const elsewhere = other.log.reporter
					const log = { reporters: [memory], ...(a.logLevel === undefined ? {} : { logLevel: a.logLevel }) }
					const override = inc =>
						a.override === 'log gizmo' ? inc.with(m.logT.logTestGizmoFn())
						: a.override ? inc.merge({ log: other.log })
						: inc
					let inc = (a.justTest ? m.appT.justTestApp : m.app.justApp)({ name: a.name, log })
					if (!a.overrideLate) inc = override(inc)
					if (a.keyboard) inc = inc.with(m.keyboard.keyboardGizmoFn())
					inc = inc.with(a.commands ? m.commands.commandsGizmoFn({ commands: { contributions: [{ id: 'x.y' }], handlers: { 'x.y': () => 1 } } }) : m.commands.commandsGizmoFn())
					if (a.overrideLate) inc = override(inc)
					const earlier = async () => 'earlier'
					for (const x of a.extras) {
						if (x === 'os') inc = inc.with(m.os.osGizmo)
						else if (x === 'events') inc = inc.with(m.events.eventsGizmoFn())
						else if (x === 'fetch') inc = inc.with(m.fetchT.fetchTestGizmoFn({ fetch: earlier }))
						else if (x === 'static') inc = inc.merge({ extra: { deep: [1] } })
						else if (x === 'function') inc = inc.merge({ fn: class Own {}, zero: 0, nil: null })
					}
					const ctxBefore = {}
					inc = inc.with({
						create(ctx) {
							// `load` belongs to the context of gizmos, no app has it
							for (const k of Object.keys(ctx)) if (k !== 'load') ctxBefore[k] = ctx[k]
							return {}
						}
					})
					const use = {
						fetch: async () => 'own',
						localStorage: new FakeStorage(),
						sessionStorage: new FakeStorage(),
						navigator: { language: 'xx' },
						location: { pathname: '/own' },
						history: m.historyT.createMemoryHistory()
					}
					const pick = (k, v) => (v === 'given' ? { [k]: use[k] } : v === 'absent' ? {} : { [k]: v })
					const b = a.options?.browser
					const browser = b ? Object.assign({}, ...Object.entries(b).map(([k, v]) => pick(k, v))) : undefined
					const history = a.options?.history === 'given' ? { history: use.history } : undefined
					if (preset) {
						const fn = a.test ? m.presetT.presetsBrowserTestGizmoFn : m.preset.presetsBrowserGizmoFn
						inc = inc.with(a.options ? fn({ ...(browser ? { browser } : {}), ...(history ? { history } : {}) }) : fn())
					} else
						inc = inc
							.with((a.test ? m.browserT.browserTestGizmoFn : m.browser.browserGizmoFn)(browser))
							.with(m.prefs.browserPreferencesGizmo)
							.with(m.history.historyGizmoFn(history ?? (a.test ? { history: m.historyT.createMemoryHistory() } : undefined)))
					const app = await create(inc)
					for (const k of Object.keys(ctxBefore)) if (!PROVIDED.includes(k)) same(app[k], ctxBefore[k], `field ${k} the app had before (${preset ? 'preset' : 'separate gizmos'})`)
					const all = new Set([...Object.keys(ctxBefore), ...PROVIDED])
					equal(Object.keys(app).sort(), [...all].sort(), 'fields of the app')
					// identities
					for (const k of ['localStorage', 'sessionStorage', 'navigator', 'location'])
						same(app.browser[k], a.test && b?.[k] === 'given' ? use[k] : env[k], `browser.${k}`)
					if (b?.fetch === 'given') same(app.fetch, use.fetch, 'app.fetch')
					else if (a.extras.includes('fetch')) same(app.fetch, earlier, 'app.fetch')
					if (history) same(app.history, use.history, 'app.history')
					side.apps.push({ a, app, memory, elsewhere, replaced: a.override === 'log gizmo' ? app.log.reporter : { logs: [] }, use })
				}
			}
			const norm = (side, v) => {
				let s = v instanceof Error ? `${v.constructor.name.replace(/^_/, '')}: ${v.message} ${v.lineno} ${v.cause?.message}` : show(v)
				for (const [i, { app }] of side.apps.entries()) s = s.replaceAll(app.id, `<id ${i}>`)
				return s
			}
			const dump = s => [...FakeStorage.dump(s)]
			const observe = side => ({
				storage: [dump(side.env.localStorage), dump(side.env.sessionStorage)],
				location: { ...side.env.location },
				fetched: [...side.fetched],
				console: side.env.console.calls.map(([m, args]) => [m, ...args.map(x => norm(side, x))]),
				apps: side.apps.map(({ app, memory, elsewhere, replaced, use }) => ({
					logs: [memory, elsewhere, replaced].map(r => r.logs.map(e => [e.id, e.level, ...e.args.map(x => norm(side, x))])),
					own: [dump(use.localStorage), dump(use.sessionStorage)],
					errors: app.browser.errors.get().map(e => norm(side, e)),
					history: [app.history.location.pathname, app.history.location.search, app.history.location.hash, app.history.action],
					commands: [app.commands.handlers.keys(), app.commands.contributions.keys()],
					keys: app.keyboard?.keyBindingContributions.keys()
				}))
			})
			const compare = what => {
				const [p, s] = sides.map(observe)
				if (eq(p, s)) return
				for (const k of Object.keys(s)) equal(p[k], s[k], `${k} after ${what}: preset versus separate gizmos`)
				fail('unreachable')
			}
			compare('creation')
			for (const { app: n, what } of ops) {
				const results = []
				for (const side of sides) {
					const { app } = side.apps[n % side.apps.length]
					const run = async () => {
						const { preferences } = app
						if (what.op === 'set') {
							if (what.how === 'value') return preferences.set(what.key, what.value)
							const seen = []
							await preferences.set(what.key, before => {
								seen.push(before)
								return what.how === 'async' ? turn().then(() => what.value) : what.value
							})
							return seen
						}
						if (what.op === 'get') return preferences.get(what.key, what.fallback)
						if (what.op === 'clear') return preferences.clearAll()
						if (what.op === 'store') {
							const store = preferences.createStore(`store ${what.key}`, 'none')
							const before = store.get()
							store.set(what.value)
							return [before, store.get()]
						}
						if (what.op === 'error') {
							const ev = new FakeErrorEvent({ message: what.message, lineno: what.lineno, error: new Error(what.message) })
							side.env.window.dispatchEvent(ev)
							return ev.defaultPrevented
						}
						if (what.op === 'fetch') return app.fetch(what.input)
						if (what.op === 'push') return app.history.push(what.path)
						if (what.op === 'go') {
							app.history.go(what.n)
							return turn()
						}
						const ids = app.commands.handlers.keys()
						return app.commands.handlers.invoke(ids[what.command % ids.length], what.key, 'x')
					}
					results.push(await settled(run(), what.op))
				}
				const [p, s] = results.map((r, i) => (r.ok ? r : { ok: false, error: norm(sides[i], r.error) }))
				equal(p, s, `result of ${show(what)}: preset versus separate gizmos`)
				if (!p.ok) fail(`${show(what)} fails: ${p.error}`)
				compare(show(what))
			}
			// error logging and preferences act for the app itself
			for (const side of sides.slice(0, 1))
				for (const { a, app, use, memory, elsewhere, replaced } of side.apps) {
					const storage = a.test && a.options?.browser?.localStorage === 'given' ? use.localStorage : side.env.localStorage
					app.preferences.set('last', 'value')
					const keys = dump(storage).map(([k]) => k)
					if (!keys.some(k => k.startsWith(`${a.name}:`))) fail(`no key of app ${a.name} in ${keys}`)
					const logs = a.override === 'log of another app' ? elsewhere : a.override ? replaced : memory
					const n = logs.logs.length
					side.env.window.dispatchEvent(new FakeErrorEvent({ message: 'last' }))
					const name = a.override === 'log of another app' ? 'elsewhere' : a.name
					if (!logs.logs.slice(n).some(e => e.id === logId(name) || e.id.startsWith(`${logId(name)}:`))) fail(`the error is not in the log of app ${a.name}`)
				}
			rec.label('two apps', apps.length > 1)
			rec.label('log replaced', apps.some(a => a.override))
			rec.label('test preset', apps.some(a => a.test))
			for (const o of ops) rec.label(o.what.op)
			rec.nontrivial(ops.length > 2 && (apps.length > 1 || apps.some(a => a.override)))
		}
	})
}
