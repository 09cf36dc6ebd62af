import { create } from '../harness/apps.mjs'
import { history, json, text, userAgent } from '../harness/gen.mjs'
import { browserEnv, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, ok, resolved, same, turn } from '../harness/util.mjs'

export const assumptions = ['replacements are objects (or functions, for fetch)', 'the page does not replace its own fetch after the library was loaded']

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		appT: '@just-web/app/testing',
		browser: '@just-web/browser',
		browserT: '@just-web/browser/testing',
		fetch: '@just-web/fetch',
		fetchT: '@just-web/fetch/testing',
		history: '@just-web/history',
		historyT: '@just-web/history/testing',
		os: '@just-web/os',
		osT: '@just-web/os/testing',
		commands: '@just-web/commands',
		prefs: '@just-web/browser-preferences',
		i18n: '@just-web/browser-i18n'
	})

	const fetched = []
	const pageEnv = browserEnv({
		fetch: async (...args) => {
			fetched.push(args)
			return { answer: fetched.length, args }
		}
	})
	const page = sut.instantiate(pageEnv)
	const given = fc.constantFrom('absent', 'absent', 'undefined', 'given')
	const fetchSource = fc.constantFrom('fetchGizmo', 'fetchTestGizmo', 'fetchTestGizmo given', 'fetchTestGizmo undefined', 'static', 'other')
	await section('facilities', {
		arb: fc.record({
			justTest: fc.boolean(),
			earlier: fc.array(fetchSource, { maxLength: 3 }),
			later: fc.array(fetchSource, { maxLength: 2 }),
			browser: fc.integer({ min: 0, max: 6 }).map(n => n > 0),
			test: fc.boolean(),
			options: fc.option(fc.record({ fetch: given, sessionStorage: given, localStorage: given, navigator: given, location: given, preventDefault: given }), { freq: 8 }),
			shared: fc.boolean(),
			requests: fc.array(fc.tuple(fc.constantFrom('/', 'http://x/y', 'relative?q=1'), fc.option(fc.record({ method: fc.constantFrom('GET', 'POST') }))), { minLength: 1, maxLength: 3 }),
			prefs: fc.boolean(),
			i18n: fc.boolean(),
			key: text,
			value: json,
			language: fc.constantFrom('fr', 'de-DE', 'ja')
		}),
		runs: { quick: 3000, thorough: 60000 },
		rule: 'up to 3 earlier and 2 later gizmos that provide fetch in any way, the browser gizmo or its test variant (or none) with any subset of its options, followed by preferences and i18n; the origin of fetch after each gizmo and of every facility is compared by identity and by use (fetch called detached, as a method and with its result, a preference and a language stored); non-trivial: fetch has more than one candidate or some but not all facilities are replaced.',
		async check({ justTest, earlier, later, browser, test, options, shared, requests, prefs, i18n, key, value, language }, rec) {
			for (const s of [pageEnv.localStorage, pageEnv.sessionStorage]) s.clear()
			fetched.length = 0
			const own = []
			const makeFetch = () => {
				const f = async (...args) => {
					own.push([f, args])
					return { own: f }
				}
				return f
			}
			let inc = justTest ? page.appT.justTestApp({ name: 'app' }) : page.app.justApp({ name: 'app', log: { reporters: [] } })
			/** where fetch comes from so far: nowhere, the page, or a function given to a gizmo */
			let origin
			const seen = []
			const addFetch = e => {
				const f = makeFetch()
				if (e === 'fetchGizmo') inc = inc.with(page.fetch.fetchGizmo)
				else if (e === 'fetchTestGizmo') inc = inc.with(page.fetchT.fetchTestGizmoFn())
				else if (e === 'fetchTestGizmo undefined') inc = inc.with(page.fetchT.fetchTestGizmoFn({ fetch: undefined }))
				else if (e === 'fetchTestGizmo given') inc = inc.with(page.fetchT.fetchTestGizmoFn({ fetch: f }))
				else if (e === 'static') inc = inc.merge({ fetch: f })
				else inc = inc.with({ create: () => ({ other: 1 }) })
				if (e !== 'other') origin = e === 'static' || e === 'fetchTestGizmo given' ? f : 'page'
				note(e)
			}
			const note = e => {
				const expected = origin
				inc = inc.with({
					create(ctx) {
						seen.push([ctx.fetch, expected, e])
						return {}
					}
				})
			}
			earlier.forEach(addFetch)
			const before = origin
			const storage = new FakeStorage()
			const replacements = {
				fetch: makeFetch(),
				sessionStorage: shared ? storage : page.browserT.stubStorage(),
				localStorage: storage,
				navigator: { language: 'xx-YY' },
				location: { pathname: '/given' },
				preventDefault: true
			}
			const opts = options && Object.fromEntries(Object.entries(options).filter(([, v]) => v !== 'absent').map(([k, v]) => [k, v === 'given' ? replacements[k] : undefined]))
			const gizmo = test ? page.browserT.browserTestGizmoFn : page.browser.browserGizmoFn
			const is = k => opts?.[k] !== undefined && (test || k === 'fetch')
			if (browser) {
				inc = inc.with(options ? gizmo(opts) : gizmo())
				origin = is('fetch') ? replacements.fetch : (origin ?? 'page')
				note('browser gizmo')
			}
			later.forEach(addFetch)
			prefs = prefs && browser
			i18n = i18n && browser
			if (prefs) inc = inc.with(page.commands.commandsGizmoFn()).with(page.prefs.browserPreferencesGizmo)
			if (i18n) inc = inc.with(page.i18n.browserI18nGizmo)
			const app = await create(inc)

			// where fetch comes from, at the end and after each gizmo
			for (const [f, expected, e] of seen)
				if (expected === 'page') ok(typeof f === 'function', `fetch after ${e} is a function`)
				else same(f, expected, `fetch after ${e}`)
			if (origin !== 'page') same(app.fetch, origin, `app.fetch (earlier ${earlier}, browser gizmo ${browser}, option ${options?.fetch}, later ${later})`)
			const calls = [...seen.map(([f, expected]) => [expected, a => f(...a)]), [origin, a => app.fetch(...a)], [origin, a => (0, app.fetch)(...a)]]
			for (const [input, init] of requests) {
				const args = init ? [input, init] : [input]
				for (const [expected, call] of calls) {
					if (!expected) continue
					const n = own.length
					const p = fetched.length
					const r = await resolved(call(args), 'app.fetch()')
					if (expected === 'page') {
						equal(fetched.slice(p), [args], 'calls of the fetch of the page')
						same(r.answer, fetched.length, 'result of fetch')
						equal(own.length, n, 'calls of a given fetch')
					} else {
						same(r.own, expected, 'the fetch that was called')
						equal(own.slice(n).map(([f, a]) => [f, a]), [[expected, args]], 'calls of a given fetch')
						equal(fetched.length, p, 'calls of the fetch of the page')
					}
				}
			}
			rec.label('without the browser gizmo', !browser && origin !== undefined)
			if (!browser) return rec.nontrivial([...earlier, ...later].filter(e => e !== 'other').length > 1)

			// where everything else comes from
			for (const k of ['sessionStorage', 'localStorage', 'navigator', 'location'])
				same(app.browser[k], is(k) ? replacements[k] : pageEnv[k], `browser.${k} (${test ? 'test gizmo, ' : ''}option ${options?.[k] ?? 'absent'})`)

			// and what builds on it uses it
			const used = is('localStorage') ? storage : pageEnv.localStorage
			const unused = is('localStorage') ? pageEnv.localStorage : storage
			if (prefs) {
				const store = app.preferences.createStore(key)
				store.set(value)
				equal(store.get(), value, 'preference')
				ok(used.length > 0, 'the preference is in the local storage of the app')
			}
			if (i18n) {
				const home = is('navigator') ? 'xx-YY' : pageEnv.navigator.language
				equal(app.i18n.getLanguage(), home, 'initial language')
				const n = used.length
				app.i18n.setLanguage(language)
				equal(used.length, n + 1, 'entries of the local storage after choosing a language')
				app.i18n.clearLanguage()
				equal([app.i18n.getLanguage(), used.length], [home, n], 'language and number of entries after clearLanguage')
			}
			equal(unused.length, 0, 'entries in the local storage the app does not use')
			if (!(shared && is('localStorage'))) equal([pageEnv.sessionStorage.length, replacements.sessionStorage === storage ? 0 : replacements.sessionStorage.length], [0, 0], 'entries in session storages')
			const n = ['sessionStorage', 'localStorage', 'navigator', 'location'].filter(is).length
			rec.label('partly replaced', n > 0 && n < 4)
			rec.label('fetch: option and earlier', is('fetch') && before !== undefined)
			rec.label('fetch: page', origin === 'page')
			rec.label('undefined option', Object.values(options ?? {}).includes('undefined'))
			rec.nontrivial((n > 0 && n < 4) || (is('fetch') && before !== undefined) || [...earlier, ...later].filter(e => e !== 'other').length > 1)
		}
	})

	const path = fc.tuple(fc.constantFrom('/', '/a', '/a/b', '/%C3%BC'), fc.constantFrom('', '?q=1', '?a=b&c'), fc.constantFrom('', '#h')).map(x => x.join(''))
	await section('history', {
		arb: fc.record({
			given: fc.constantFrom('no', 'no', 'memory', 'browser'),
			ops: history(
				fc.oneof(
					{ weight: 4, arbitrary: fc.record({ op: fc.constantFrom('push', 'replace'), path, state: fc.option(fc.record({ s: fc.nat(9) })) }) },
					{ weight: 3, arbitrary: fc.record({ op: fc.constant('go'), n: fc.integer({ min: -3, max: 3 }) }) },
					{ weight: 1, arbitrary: fc.constantFrom({ op: 'back' }, { op: 'forward' }) },
					{ weight: 1, arbitrary: fc.record({ op: fc.constant('page'), n: fc.integer({ min: -2, max: 2 }) }) }
				),
				{ minLength: 1, maxLength: 20 }
			)
		}),
		runs: { quick: 600, thorough: 10000 },
		rule: 'up to 20 navigations through app.history (and the page) of an app whose history is given or not, compared with a list of entries: location and state of app.history, the location of the page, and the calls of a listener; non-trivial: at least two pushes followed by a move back.',
		async check({ given, ops }, rec) {
			const env = browserEnv()
			const m = sut.instantiate(env)
			const own = given === 'memory' ? m.historyT.createMemoryHistory() : undefined
			// a history object of the application's own
			const custom = given === 'browser' ? { location: { pathname: '/custom' }, push() {} } : own
			const inc = m.appT.justTestApp()
			const app = await create(inc.with(given === 'no' ? m.history.historyGizmoFn() : m.history.historyGizmoFn({ history: custom })))
			if (custom) same(app.history, custom, 'app.history')
			if (given === 'browser') return
			const heard = []
			app.history.listen(e => heard.push(e.location.pathname))
			const entries = [{ path: '/', state: null }]
			let i = 0
			let pushes = 0
			let moved = false
			for (const o of ops) {
				let expect = 1
				if (o.op === 'push') {
					entries.splice(i + 1)
					entries.push({ path: o.path, state: o.state })
					i++
					pushes++
					app.history.push(o.path, o.state)
				} else if (o.op === 'replace') {
					entries[i] = { path: o.path, state: o.state }
					app.history.replace(o.path, o.state)
				} else {
					if (o.op === 'page' && given !== 'no') continue
					const n = o.op === 'back' ? -1 : o.op === 'forward' ? 1 : o.n
					const j = i + n
					// memory history stops at its ends, a page stays where it is
					const to = given === 'no' ? (j < 0 || j >= entries.length ? i : j) : Math.min(Math.max(j, 0), entries.length - 1)
					expect = undefined
					moved ||= pushes > 1 && to < i
					i = to
					if (o.op === 'back' || o.op === 'forward') app.history[o.op]()
					else (o.op === 'page' ? env.window.history : app.history).go(n)
					await turn()
				}
				const l = app.history.location
				equal([l.pathname + l.search + l.hash, l.state], [entries[i].path, entries[i].state], `location after ${o.op}`)
				const shown = env.location.pathname + env.location.search + env.location.hash
				equal(shown, given === 'no' ? entries[i].path : '/', `location of the page after ${o.op}`)
				if (expect !== undefined) equal(heard.length, expect, `calls of the listener after ${o.op}`)
				heard.length = 0
			}
			rec.label(`given: ${given}`)
			rec.label('back after pushes', moved)
			rec.nontrivial(moved)
		}
	})

	await section('os', {
		arb: fc.record({ agent: userAgent(), gizmo: fc.constantFrom('os', 'os test', 'os test {}', 'os test undefined', 'os test true', 'os test false'), other: fc.option(fc.boolean()) }),
		runs: { quick: 200, thorough: 1000 },
		rule: 'a page of any platform (twelve versions of macOS and twenty-one other systems, with eight browsers) with the os gizmo or its test variant in an app, next to another app with its own; isMac of the app, of the other app and of the library afterwards; non-trivial: the test gizmo says something else than the platform.',
		async check({ agent: { ua, mac }, gizmo, other }, rec) {
			const m = sut.instantiate(browserEnv({ ua }))
			const make = () => m.appT.justTestApp()
			let before
			if (other !== null) before = await create(make().with(m.osT.osTestGizmoFn({ isMac: () => other })))
			const g =
				gizmo === 'os' ? m.os.osGizmo
				: gizmo === 'os test' ? m.osT.osTestGizmoFn()
				: gizmo === 'os test {}' ? m.osT.osTestGizmoFn({})
				: gizmo === 'os test undefined' ? m.osT.osTestGizmoFn({ isMac: undefined })
				: m.osT.osTestGizmoFn({ isMac: () => gizmo === 'os test true' })
			const app = await create(make().with(g))
			const plain = await create(make().with(m.os.osGizmo))
			const expected = gizmo === 'os test true' ? true : gizmo === 'os test false' ? false : mac
			same(app.os.isMac(), expected, `isMac() on ${ua} with ${gizmo}`)
			const { isMac } = app.os
			same(isMac(), expected, `detached isMac() on ${ua} with ${gizmo}`)
			same(plain.os.isMac(), mac, `isMac() of a plain app on ${ua} after one with ${gizmo}`)
			same(m.os.isMac(), mac, `library isMac() on ${ua}`)
			if (before) same(before.os.isMac(), other, 'isMac() of an earlier app')
			// the replacement is asked every time, not once
			let answer = !mac
			const changing = await create(make().with(m.osT.osTestGizmoFn({ isMac: () => answer })))
			for (const a of [!mac, mac, !mac]) {
				answer = a
				same(changing.os.isMac(), a, 'isMac() of a replacement whose answer changes')
			}
			rec.label(`${ua} ${expected}`)
			rec.nontrivial(expected !== mac || other === !mac)
		}
	})
}
