import { create } from '../harness/apps.mjs'
import { appName, history, ident, text } from '../harness/gen.mjs'
import { browserEnv, FakeErrorEvent, FakeKeyEvent, FakeStorage, UA } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { eq, equal, fail, same, settled, show, turn } from '../harness/util.mjs'

export const assumptions = ['names of apps do not contain colons', 'one app with a keyboard per page']

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		log: '@just-web/log',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		os: '@just-web/os',
		browserT: '@just-web/browser/testing',
		prefs: '@just-web/preferences',
		prefsT: '@just-web/preferences/testing',
		bp: '@just-web/browser-preferences',
		bpT: '@just-web/browser-preferences/testing',
		bk: '@just-web/browser-keyboard',
		bkT: '@just-web/browser-keyboard/testing'
	})
	const given = fc.constantFrom('absent', 'absent', 'given')
	const options = fc.option(
		fc.record(
			{
				name: appName(['app', 'other', '日本']),
				log: fc.record({ logLevel: fc.constantFrom(400, 0, Number.POSITIVE_INFINITY), reporters: fc.constant('own') }, { requiredKeys: [] }),
				browser: fc.record({ localStorage: given, sessionStorage: given, navigator: given, location: given, fetch: given, preventDefault: fc.boolean() }, { requiredKeys: [] })
			},
			{ requiredKeys: [] }
		)
	)
	const appArb = fc.oneof(
		fc.record({ kind: fc.constant('memory preferences') }),
		{ weight: 3, arbitrary: fc.record({ kind: fc.constant('browser preferences'), options }) },
		fc.record({ kind: fc.constant('browser keyboard') })
	)
	const key = ident(['k', 'l', 'm'])
	const op = fc.record({
		app: fc.nat(2),
		what: fc.oneof(
			{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), key, value: fc.option(text, { nil: undefined, freq: 5 }), how: fc.constantFrom('value', 'updater', 'async') }) },
			{ weight: 2, arbitrary: fc.record({ op: fc.constant('get'), key, fallback: fc.option(text, { nil: undefined }) }) },
			{ weight: 1, arbitrary: fc.constant({ op: 'clear' }) },
			{ weight: 3, arbitrary: fc.record({ op: fc.constant('bind'), id: fc.constantFrom('a.b', 'c.d'), key: fc.constantFrom('ctrl+a', 'x'), mac: fc.constantFrom(undefined, 'cmd+a') }) },
			{ weight: 4, arbitrary: fc.constantFrom({ ctrlKey: true, code: 65 }, { metaKey: true, code: 65 }, { code: 88 }).map(p => ({ op: 'press', ctrlKey: false, metaKey: false, ...p })) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('error'), message: text }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('fetch') }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('log'), level: fc.constantFrom('info', 'debug', 'trace', 'error'), message: text }) },
			{ weight: 1, arbitrary: fc.record({ op: fc.constant('isMac') }) }
		)
	})

	await section('test apps', {
		arb: fc.record({ ua: fc.constantFrom('mac', 'linux'), apps: fc.array(appArb, { minLength: 1, maxLength: 3 }), ops: history(op, { maxLength: 14 }), seed: fc.nat(99) }),
		runs: { quick: 1500, thorough: 20000 },
		rule: 'one to three apps on two equal pages, on one made by the ready-made functions and on the other composed by hand from the same gizmos with the same options; up to 14 uses (preferences, key bindings and key presses, errors, fetch, logging) must give the same results, fields, storages, logs, handlers and bindings; non-trivial: at least two apps and three uses, or options that name the app or replace its storage.',
		async check({ ua, apps, ops, seed }, rec) {
			const list = apps.filter((a, i) => a.kind !== 'browser keyboard' || apps.findIndex(b => b.kind === a.kind) === i)
			const sides = []
			for (const ready of [true, false]) {
				const fetched = []
				const env = browserEnv({ seed, ua: UA[ua], fetch: async (...args) => (fetched.push(args), 'page') })
				const m = sut.instantiate(env)
				const side = { env, m, fetched, apps: [] }
				sides.push(side)
				for (const a of list) {
					const use = { localStorage: new FakeStorage(), sessionStorage: new FakeStorage(), navigator: { language: 'xx' }, location: { pathname: '/own' }, fetch: async () => 'own' }
					let opts = a.options ?? undefined
					const memory = m.log.createMemoryLogReporter()
					if (opts) {
						const browser = opts.browser && Object.fromEntries(Object.entries(opts.browser).filter(([, v]) => v !== 'absent').map(([k, v]) => [k, v === 'given' ? use[k] : v]))
						opts = {
							...opts,
							...(opts.log ? { log: { ...opts.log, ...(opts.log.reporters ? { reporters: [memory] } : {}) } } : {}),
							...(browser ? { browser } : {})
						}
					}
					let p
					if (ready)
						p =
							a.kind === 'memory preferences' ? m.prefsT.setupMemoryPreferencesTestApp()
							: a.kind === 'browser keyboard' ? m.bkT.browserKeyboardGizmoTestApp()
							: a.options === null ? m.bpT.browserPreferencesGizmoTestApp()
							: m.bpT.browserPreferencesGizmoTestApp(opts)
					else {
						const inc = m.appT.justTestApp(opts).with(m.keyboard.keyboardGizmoFn()).with(m.commands.commandsGizmoFn())
						p = (
							a.kind === 'memory preferences' ? inc.with(m.prefs.memoryPreferencesGizmo)
							: a.kind === 'browser keyboard' ? inc.with(m.os.osGizmo).with(m.bk.browserKeyboardGizmo)
							: inc.with(m.browserT.browserTestGizmoFn(opts?.browser)).with(m.bp.browserPreferencesGizmo)
						).create()
					}
					const app = await create({ create: () => p })
					same(app.name, opts?.name ?? 'test', `name of the ${a.kind} app`)
					if (app.browser)
						for (const k of ['localStorage', 'sessionStorage', 'navigator', 'location'])
							same(app.browser[k], a.options?.browser?.[k] === 'given' ? use[k] : env[k], `browser.${k} of the ${a.kind} app`)
					side.apps.push({ a, app, memory, use, calls: [] })
				}
			}
			const norm = v => (v instanceof Error ? `${v.constructor.name.replace(/^_/, '')}: ${v.message}` : show(v))
			const dump = s => [...FakeStorage.dump(s)]
			const observe = side => ({
				storage: [dump(side.env.localStorage), dump(side.env.sessionStorage)],
				fetched: [...side.fetched],
				console: side.env.console.calls.map(([m, args]) => [m, ...args.map(norm)]),
				apps: side.apps.map(({ app, memory, use, calls }) => ({
					fields: Object.keys(app).sort(),
					name: app.name,
					idLength: app.id.length,
					logLevel: app.log.logLevel,
					logs: [memory, app.log.reporter].map(r => r.logs.map(e => [e.id, e.level, ...e.args.map(x => norm(x).replaceAll(app.id, '<id>'))])),
					own: [dump(use.localStorage), dump(use.sessionStorage)],
					errors: app.browser?.errors.get().map(norm),
					handlers: app.commands.handlers.keys(),
					contributions: app.commands.contributions.keys(),
					keys: { ...app.keyboard.keyBindingContributions.get() },
					calls: [...calls]
				}))
			})
			const compare = what => {
				const [p, s] = sides.map(observe)
				if (eq(p, s)) return
				for (const k of Object.keys(s)) equal(p[k], s[k], `${k} after ${what}: ready-made versus composed`)
				fail('unreachable')
			}
			compare('creation')
			let uses = 0
			for (const { app: n, what } of ops) {
				const results = []
				for (const side of sides) {
					const { app, calls } = side.apps[n % side.apps.length]
					const run = async () => {
						const { preferences } = app
						if (what.op === 'set' && preferences) {
							if (what.how === 'value') return preferences.set(what.key, what.value)
							const seen = []
							await preferences.set(what.key, before => {
								seen.push(before)
								return what.how === 'async' ? turn().then(() => what.value) : what.value
							})
							return seen
						}
						if (what.op === 'get' && preferences) return preferences.get(what.key, what.fallback)
						if (what.op === 'clear' && preferences) return preferences.clearAll()
						if (what.op === 'bind') {
							app.commands.handlers.register(what.id, () => void calls.push(what.id))
							return void app.keyboard.keyBindingContributions.add({ id: what.id, key: what.key, ...(what.mac ? { mac: what.mac } : {}) })
						}
						if (what.op === 'press') {
							const init = { which: what.code, keyCode: what.code, ctrlKey: what.ctrlKey, metaKey: what.metaKey }
							const events = ['keydown', ...(what.ctrlKey || what.metaKey ? [] : ['keypress']), 'keyup'].map(
								type => new FakeKeyEvent(type, type === 'keypress' ? { ...init, which: what.code + 32, charCode: what.code + 32 } : init)
							)
							for (const e of events) side.env.document.dispatchEvent(e)
							return events.map(e => e.defaultPrevented)
						}
						if (what.op === 'error') {
							const ev = new FakeErrorEvent({ message: what.message, error: new Error(what.message) })
							side.env.window.dispatchEvent(ev)
							return ev.defaultPrevented
						}
						if (what.op === 'fetch') return app.fetch?.('/')
						if (what.op === 'log') return void app.log[what.level](what.message)
						if (what.op === 'isMac') return app.os?.isMac()
					}
					results.push(await settled(run(), what.op))
				}
				const [p, s] = results.map(r => (r.ok ? r : { ok: false, error: norm(r.error) }))
				equal(p, s, `result of ${show(what)}: ready-made versus composed`)
				if (!p.ok) fail(`${show(what)} fails: ${p.error}`)
				compare(show(what))
				uses++
				rec.label(what.op)
			}
			for (const a of list) rec.label(a.kind)
			const named = list.some(a => a.options?.name || a.options?.browser?.localStorage === 'given')
			rec.label('named or own storage', named)
			rec.label('a command is run by a key', sides[0].apps.some(a => a.calls.length > 0))
			rec.nontrivial((list.length > 1 || named) && uses > 2)
		}
	})
}
