import { MARKS, logId, text } from './gen.mjs'
import { browserEnv, FakeErrorEvent, FakeKeyEvent, FakeStorage, UA } from './env.mjs'
import { buildSut, fc } from './sut.mjs'
import { fail, show, turn } from './util.mjs'

/**
 * Whole apps on one page: which gizmos they have, how their creation and their uses are interleaved, and everything that can be
 * seen of each of them, step by step.
 */
export async function buildWorld() {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		log: '@just-web/log',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		os: '@just-web/os',
		browser: '@just-web/browser',
		browserT: '@just-web/browser/testing',
		prefs: '@just-web/preferences',
		bp: '@just-web/browser-preferences',
		bk: '@just-web/browser-keyboard',
		i18n: '@just-web/i18n',
		bi: '@just-web/browser-i18n',
		routes: '@just-web/routes',
		events: '@just-web/events',
		states: '@just-web/states',
		fetch: '@just-web/fetch',
		preset: '@just-web/presets-browser'
	})
	const key = fc.constantFrom('k', 'l', 'store', ...MARKS)
	const id = fc.constantFrom('a.b', 'c.d', 'shared.command', ...MARKS)
	const option = fc.boolean()
	const appArb = fc.record({
		test: fc.boolean(),
		level: fc.constantFrom(400, 720, 0, Number.POSITIVE_INFINITY),
		keyboard: fc.constantFrom('none', 'contributions', 'contributions', 'bound'),
		web: fc.constantFrom('none', 'browser', 'browser', 'browser test', 'preset', 'preset'),
		preventDefault: option,
		prefs: fc.constantFrom('none', 'memory', 'memory', 'browser', 'browser'),
		i18n: fc.constantFrom('none', 'plain', 'browser'),
		routes: option,
		events: option,
		states: option
	})
	const what = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), key, value: fc.option(fc.constantFrom('1', '2', ''), { nil: undefined }), how: fc.constantFrom('value', 'updater', 'async') }) },
		{ weight: 2, arbitrary: fc.constant({ op: 'settle' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('get'), key }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'clear' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('pref store'), key, how: fc.constantFrom('value', 'updater'), value: fc.nat(3) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('register'), id }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('invoke'), id, arg: fc.nat(3) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('connect'), id, key: fc.constantFrom(undefined, 'ctrl+a', 'x') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('connect shared'), id: fc.constantFrom('a.b', 'palette') }) },
		{ weight: 2, arbitrary: fc.constant({ op: 'palette' }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('bind'), id, key: fc.constantFrom('ctrl+a', 'x') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('language'), how: fc.constantFrom('method', 'command'), to: fc.constantFrom('de', 'fr', 'en-US') }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'on language' }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'clear language' }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('route'), route: fc.constantFrom('/', '/a', '/b') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('navigate'), route: fc.constantFrom(undefined, '/', '/a', '/b') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('initial route'), route: fc.constantFrom('/a', '/b') }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constantFrom('unroute', 'clear routes') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('listen'), type: fc.constantFrom('x', 'y'), throws: fc.boolean() }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('emit'), type: fc.constantFrom('x', 'y') }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'state' }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('state set'), value: fc.nat(3) }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'watch errors' }) },
		{ weight: 1, arbitrary: fc.constant({ op: 'fetch' }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('log'), level: fc.constantFrom('error', 'info', 'trace'), message: fc.constantFrom('one', 'two') }) }
	)
	const step = fc.oneof(
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('advance'), app: fc.nat(2), by: fc.integer({ min: 1, max: 8 }) }) },
		{ weight: 8, arbitrary: fc.record({ op: fc.constant('use'), app: fc.nat(2), what }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('error'), message: text }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('press'), code: fc.constantFrom(65, 88, 75) }) }
	)

	const parts = ['keyboard', 'commands', 'web', 'prefs', 'i18n', 'routes', 'events', 'states', 'os', 'bound']
	return { appArb, what, step, run, parts }

	/** What every app gives, step by step; with `only`, the others are never made. */
	async function run({ ua, apps, names, sharedGizmos, options, ready, steps }, bound, only, rec) {
		const fetched = []
		const env = browserEnv({ seed: 7, ua: UA[ua], fetch: async (...args) => (fetched.push(args), 'page') })
		const m = sut.instantiate(env)
		for (const n of names) {
			env.localStorage.setItem(`${n}:k`, 'MQ==')
			env.localStorage.setItem(`@just-web/browser-i18n/${n}/language`, 'nl')
		}
		const sharedCommands = new Map([
			['a.b', m.commands.command({ id: 'a.b', title: 'Shared by the apps', key: 'ctrl+a' })],
			['palette', m.commands.showCommandPalette]
		])
		let calls // where the handlers of the options note their calls
		const makeOptions = () => ({
			commands: options
				? { handlers: { 'shared.command': x => (calls?.push(['shared.command', x]), `shared ${x}`) }, contributions: [{ id: 'shared.command', title: 'Shared' }] }
				: undefined,
			keyboard: options ? { keyBindingContributions: [{ id: 'shared.command', key: 'x' }] } : undefined
		})
		const makeGizmos = o => {
			const made = new Map()
			return (what, make) => {
				if (!made.has(what)) made.set(what, make(o))
				return made.get(what)
			}
		}
		const commonOptions = makeOptions()
		const common = makeGizmos(commonOptions)
		const list = apps.map((a, i) => {
			if (only !== undefined && i !== only) return undefined
			const get = sharedGizmos ? common : makeGizmos(makeOptions())
			const memory = m.log.createMemoryLogReporter()
			const me = { i, name: names[i], memory, gates: [], calls: [], trace: [], pending: [], stores: new Map(), states: [], unroute: [], reported: 0 }
			const logOptions = { logLevel: a.level, reporters: [memory] }
			let inc = (a.test ? m.appT.justTestApp : m.app.justApp)({ name: me.name, log: logOptions })
			const gate = () => {
				let open
				const p = new Promise(r => (open = r))
				me.gates.push(open)
				inc = inc.with({ create: () => p })
			}
			const add = g => {
				gate()
				inc = inc.with(g)
			}
			const web = a.web
			// every gizmo with the parts of the app that have to be there before it
			const parts = []
			const part = (name, needs, gizmo) => parts.push({ name, needs, gizmo })
			if (a.keyboard !== 'none') part('keyboard', [], get('keyboard', o => m.keyboard.keyboardGizmoFn(o.keyboard)))
			part('commands', [], get('commands', o => m.commands.commandsGizmoFn(o.commands)))
			if (web === 'browser') part('web', [], get(`browser ${a.preventDefault}`, () => m.browser.browserGizmoFn({ preventDefault: a.preventDefault })))
			if (web === 'browser test') part('web', [], get(`browser test ${a.preventDefault}`, () => m.browserT.browserTestGizmoFn({ preventDefault: a.preventDefault })))
			if (web === 'preset') part('web', ['keyboard', 'commands'], get(`preset ${a.preventDefault}`, () => m.preset.presetsBrowserGizmoFn({ browser: { preventDefault: a.preventDefault } })))
			// where the preset has preferences too, the later ones win
			const replaced = web === 'preset' ? ['web'] : []
			if (a.prefs === 'memory') part('prefs', ['keyboard', 'commands', ...replaced], m.prefs.memoryPreferencesGizmo)
			if (a.prefs === 'browser' && web !== 'none') part('prefs', ['keyboard', 'commands', 'web'], m.bp.browserPreferencesGizmo)
			if (a.i18n === 'plain') part('i18n', ['keyboard', 'commands'], get('i18n', () => m.i18n.i18nGizmoFn({ language: 'en' })))
			if (a.i18n === 'browser' && web !== 'none') part('i18n', ['keyboard', 'commands', 'web'], m.bi.browserI18nGizmo)
			if (a.routes) part('routes', [], m.routes.routesGizmo)
			if (a.events) part('events', [], get('events', () => m.events.eventsGizmoFn()))
			if (a.states) part('states', [], m.states.statesGizmo)
			if (i === bound) {
				part('os', [], m.os.osGizmo)
				part('bound', ['keyboard', 'commands', 'os'], m.bk.browserKeyboardGizmo)
			}
			const priority = p => a.order?.indexOf(p.name) ?? 0
			me.order = []
			while (parts.length) {
				const ready = parts.filter(p => !p.needs.some(n => parts.some(q => q.name === n)))
				const next = ready.reduce((x, y) => (priority(y) < priority(x) ? y : x))
				parts.splice(parts.indexOf(next), 1)
				me.order.push(next.name)
				add(next.gizmo)
			}
			gate()
			me.started = inc.create().then(
				app => {
					me.app = app
				},
				error => {
					me.error = error
				}
			)
			if (ready) for (const open of me.gates.splice(0)) open()
			return me
		})
		const settle = async () => {
			for (let k = 0; k < 4; k++) await turn()
		}
		const norm = v => (v instanceof Error ? `${v.constructor.name.replace(/^_/, '')}: ${v.message}` : show(v))
		/** everything of an app that can be seen now, and the logs and calls since the last time */
		const observe = (me, step, result) => {
			const { app, memory } = me
			const scrub = s => (app ? s.replaceAll(app.id, '<id>') : s)
			const logs = memory.logs.slice(me.reported)
			me.reported = memory.logs.length
			me.trace.push({
				step,
				result: result && scrub(norm(result)),
				error: me.error && norm(me.error),
				// loggers without an app report through the first log made on the page
				logs: logs.filter(e => e.id === logId(me.name) || e.id.startsWith(`${logId(me.name)}:`)).map(e => [e.id, e.level, ...e.args.map(x => scrub(norm(x)))]),
				calls: me.calls.splice(0),
				storage: [...FakeStorage.dump(env.localStorage)].filter(([k]) => k.startsWith(`${me.name}:`) || k === `@just-web/browser-i18n/${me.name}/language`).sort(([a], [b]) => (a < b ? -1 : 1)),
				...(app && {
					fields: Object.keys(app).sort(),
					name: app.name,
					logLevel: app.log.logLevel,
					handlers: app.commands.handlers.keys(),
					contributions: { ...app.commands.contributions.get() },
					bindings: app.keyboard && { ...app.keyboard.keyBindingContributions.get() },
					errors: app.browser?.errors.get().map(norm),
					language: app.i18n?.getLanguage(),
					prefs: app.preferences && ['k', 'l', 'store'].map(k => app.preferences.get(k)),
					routes: app.routes && ['/', '/a', '/b'].map(r => app.routes.hasRoute(r)),
					states: me.states.map(s => s[0]())
				})
			})
		}
		await settle()
		for (const me of list) if (me) observe(me, 'begin')
		const used = new Set()
		for (const [n, s] of steps.entries()) {
			const where = `${n} ${show(s)}`
			if (s.op === 'error' || s.op === 'press') {
				const events =
					s.op === 'error' ?
						[new FakeErrorEvent({ message: s.message, error: new Error(s.message) })]
					:	['keydown', ...(s.code === 88 ? ['keypress'] : []), 'keyup'].map(
							type => new FakeKeyEvent(type, { which: type === 'keypress' ? s.code + 32 : s.code, keyCode: s.code, charCode: type === 'keypress' ? s.code + 32 : 0, ctrlKey: s.code !== 88 })
						)
				calls = list[bound]?.calls
				for (const e of events) (s.op === 'error' ? env.window : env.document).dispatchEvent(e)
				await settle()
				for (const me of list) if (me) observe(me, where)
				continue
			}
			const i = s.app % apps.length
			const me = list[i]
			if (!me) {
				await settle()
				continue
			}
			let result
			if (s.op === 'advance') for (const open of me.gates.splice(0, s.by)) open()
			else if (me.app) {
				used.add(i)
				calls = me.calls
				try {
					result = await use(me, s.what)
				} catch (e) {
					result = e
				}
				calls = undefined
			}
			await settle()
			observe(me, where, result)
		}
		rec?.label('two apps used', used.size > 1)
		for (const me of list)
			if (me) {
				for (const open of me.gates.splice(0)) open()
				for (const p of me.pending.splice(0)) p()
				await settle()
				observe(me, 'end')
				if (!me.app) fail(`app ${me.name} was not created: ${norm(me.error)}`)
			}
		return list.map(me => me && Object.assign(me.trace, { order: me.order }))

		async function use(me, w) {
			const { app, calls } = me
			rec?.label(w.op)
			const { preferences, commands, keyboard, i18n, routes, events } = app
			switch (w.op) {
				case 'set': {
					if (!preferences) return
					if (w.how === 'value') return preferences.set(w.key, w.value)
					const saw = []
					let go
					const p = preferences.set(w.key, before => {
						saw.push(before)
						return w.how === 'async' ? new Promise(r => (go = () => r(w.value))) : w.value
					})
					if (go) me.pending.push(go)
					return saw
				}
				case 'settle':
					return me.pending.shift()?.()
				case 'get':
					return preferences?.get(w.key, 'fallback')
				case 'clear':
					return preferences?.clearAll()
				case 'pref store': {
					if (!preferences) return
					if (!me.stores.has(w.key)) me.stores.set(w.key, preferences.createStore(w.key, { n: 0 }))
					const store = me.stores.get(w.key)
					if (w.how === 'value') store.set({ n: w.value })
					else
						store.set(v => {
							v.n += w.value
						})
					return store.get()
				}
				case 'register':
					return commands.handlers.register(w.id, x => (calls.push(['registered', w.id, x]), 'r'))
				case 'invoke':
					return commands.handlers.invoke(w.id, w.arg)
				case 'connect': {
					const c = m.commands.command({ id: w.id, key: w.key, title: `Title of ${w.id}` }, x => (calls.push(['command', w.id, x]), 'c'))
					c.connect(app)
					return c(7)
				}
				case 'connect shared': {
					// one command object for all apps, with a handler for each of them
					sharedCommands.get(w.id).connect(app, x => (calls.push(['shared', w.id, x]), 's'))
					return
				}
				case 'palette':
					return commands.showCommandPalette()
				case 'bind':
					return keyboard?.keyBindingContributions.add({ id: w.id, key: w.key })
				case 'language':
					if (!i18n) return
					return w.how === 'method' ? i18n.setLanguage(w.to) : commands.handlers.invoke('@just-web/i18n/set-language', w.to)
				case 'on language':
					return i18n?.languageChanged((a, b) => void calls.push(['language', a, b]))
				case 'clear language':
					return i18n?.clearLanguage?.()
				case 'route':
					if (!routes) return
					me.unroute.push(routes.register(w.route, () => void calls.push(['route', w.route])))
					return
				case 'navigate':
					return routes?.navigate(w.route)
				case 'initial route':
					return routes?.config({ initialRoute: w.route })
				case 'unroute':
					return me.unroute.shift()?.()
				case 'clear routes':
					return routes?.clearRoutes()
				case 'listen':
					events?.emitter.addListener(w.type, x => {
						calls.push(['event', w.type, x])
						if (w.throws) throw new Error(`listener of ${w.type}`)
					})
					return
				case 'emit':
					return events?.emitter.emit(w.type, me.name)
				case 'state': {
					if (!app.states) return
					const s = app.states.createStore(0)
					s.onChange((a, b) => void calls.push(['state', a, b]))
					me.states.push([() => s.get(), s.set])
					return
				}
				case 'state set':
					return me.states.at(-1)?.[1](w.value)
				case 'watch errors':
					return void app.browser?.errors.onChange((a, b) => void calls.push(['errors', a.length, b.length]))
				case 'fetch': {
					const before = fetched.length
					const r = await app.fetch?.(me.name)
					return [r, ...fetched.slice(before)]
				}
				case 'log':
					return app.log[w.level](w.message)
			}
		}
	}
}
