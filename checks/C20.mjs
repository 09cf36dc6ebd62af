import { create } from '../harness/apps.mjs'
import { appName, history, confusable, text } from '../harness/gen.mjs'
import { browserEnv, FakeStorage } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, same } from '../harness/util.mjs'

export const assumptions = ['languages are well-formed strings', 'handlers do not throw and do not change the language']

const language = fc.oneof({ weight: 5, arbitrary: fc.constantFrom('en', 'en-US', 'de', 'ja', '') }, { weight: 1, arbitrary: confusable }, { weight: 1, arbitrary: text })
const NAMES = ['a', 'ab', 'test', 'a/b', 'a/language', 'toString', '日本', '', 'A', 'a ', 'á', 'a\u0301', 'a%2Fb']

export default async function ({ section }) {
	const sut = await buildSut({
		app: '@just-web/app',
		commands: '@just-web/commands',
		keyboard: '@just-web/keyboard',
		browser: '@just-web/browser',
		bi: '@just-web/browser-i18n',
		i18n: '@just-web/i18n'
	})
	const n = fc.nat(2)
	const op = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), n, language }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('invoke'), n, language }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('call'), language }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('clear'), n }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('navigator'), language: fc.constantFrom('en', 'fr', 'de') }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('restart'), language: fc.constantFrom('en', 'fr', 'de') }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('twin'), n, language: fc.option(language, { nil: undefined }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('foreign'), key: fc.constantFrom('language', 'a', 'a:language', 'toString', 'x'), value: text }) }
	)
	await section('restarts', {
		arb: fc.record({
			apps: fc.uniqueArray(fc.record({ name: appName(NAMES), commands: fc.constantFrom('none', 'commands', 'keyboard') }), { selector: a => a.name, minLength: 1, maxLength: 3 }),
			browser: fc.constantFrom('en', 'fr', 'de'),
			peek: fc.boolean(),
			ops: history(op, { minLength: 1, maxLength: 16 })
		}),
		runs: { quick: 1500, thorough: 40000 },
		rule: 'one to three apps over one local storage with foreign entries, up to 16 language changes by API, command id or command call, clears, changes by another app of that name, changes of the browser language and page reloads, against one stored language per app; non-trivial: a reload with a stored language, and a clear of a stored language followed by a reload.',
		async check({ apps, browser, peek, ops }, rec) {
			const localStorage = new FakeStorage()
			const foreign = new Map()
			const stored = new Map()
			let browserLanguage = browser
			let env
			let m
			let running
			let events = []
			let cleared = false
			const load = async () => {
				env = browserEnv({ localStorage, language: browserLanguage })
				m = sut.instantiate(env)
				running = []
				for (const [i, a] of apps.entries()) {
					let inc = m.app.justApp({ name: a.name, log: { reporters: [] } })
					if (a.commands === 'keyboard') inc = inc.with(m.keyboard.keyboardGizmoFn())
					if (a.commands !== 'none') inc = inc.with(m.commands.commandsGizmoFn())
					const app = await create(inc.with(m.browser.browserGizmoFn()).with(m.bi.browserI18nGizmo))
					const r = { app, name: a.name, language: stored.get(a.name) ?? browserLanguage, commands: a.commands !== 'none' }
					running.push(r)
					app.i18n.languageChanged((...args) => events.push({ app: i, args, seen: app.i18n.getLanguage() }))
				}
			}
			const views = where => {
				running.forEach((r, i) => same(r.app.i18n.getLanguage(), r.language, `${where}: language of app ${JSON.stringify(apps[i].name)}`))
				const raw = FakeStorage.dump(localStorage)
				for (const [k, v] of foreign) same(raw.get(k), v, `${where}: foreign entry ${JSON.stringify(k)}`)
			}
			await load()
			views('initially')
			for (const [j, op] of ops.entries()) {
				const where = `step ${j}: ${op.op}`
				events = []
				if (op.op === 'foreign') {
					localStorage.setItem(op.key, op.value)
					foreign.set(op.key, op.value)
				} else if (op.op === 'navigator') {
					browserLanguage = op.language
					env.navigator.language = op.language
				} else if (op.op === 'twin') {
					// another app of that name changes the stored language; those that run keep theirs, as nothing was announced
					const { name } = running[op.n % running.length]
					const twin = await create(m.app.justApp({ name, log: { reporters: [] } }).with(m.browser.browserGizmoFn()).with(m.bi.browserI18nGizmo))
					same(twin.i18n.getLanguage(), stored.get(name) ?? browserLanguage, `${where}: language of another app of that name`)
					if (op.language === undefined) {
						twin.i18n.clearLanguage()
						stored.delete(name)
					} else {
						twin.i18n.setLanguage(op.language)
						stored.set(name, op.language)
					}
					m.app.incubate.cleanup(twin)
					equal(events, [], `${where}: handler calls`)
					rec.label('another app of that name')
				} else if (op.op === 'restart') {
					browserLanguage = op.language
					rec.label('reload with a stored language', stored.size > 0)
					rec.label('reload after a clear', cleared)
					rec.label('reload with a stored language that differs from the browser', [...stored.values()].some(l => l !== op.language))
					await load()
				} else {
					const r = op.op === 'call' ? running.filter(r => r.commands).at(-1) : running[op.n % running.length]
					if (!r || (!r.commands && (op.op === 'call' || op.op === 'invoke'))) continue
					const old = r.language
					if (op.op === 'clear') {
						r.app.i18n.clearLanguage()
						r.language = browserLanguage
						if (stored.delete(r.name)) cleared = true
					} else {
						if (op.op === 'set') r.app.i18n.setLanguage(op.language)
						else if (op.op === 'invoke') r.app.commands.handlers.invoke(m.i18n.setLanguageCommand.id, op.language)
						else m.i18n.setLanguageCommand(op.language)
						r.language = op.language
						stored.set(r.name, op.language)
					}
					const expected = [{ app: running.indexOf(r), args: [r.language, old], seen: r.language }]
					// clearing while already in the browser language changes nothing a handler must hear of
					if (op.op === 'clear' && old === r.language && events.length === 0) expected.pop()
					equal(events, expected, `${where}: handler calls`)
					if (peek) {
						// an app of that name started now, next to the others, in a browser of another language
						env.navigator.language = 'peek'
						const next = await create(m.app.justApp({ name: r.name, log: { reporters: [] } }).with(m.browser.browserGizmoFn()).with(m.bi.browserI18nGizmo))
						env.navigator.language = browserLanguage
						same(next.i18n.getLanguage(), stored.get(r.name) ?? 'peek', `${where}: language of another app of that name started then`)
						m.app.incubate.cleanup(next)
					}
				}
				views(where)
			}
			browserLanguage = 'last'
			await load()
			views('after a last reload')
			for (const r of running) r.app.i18n.clearLanguage()
			equal(FakeStorage.dump(localStorage), foreign, 'storage after every app cleared its language')
			rec.nontrivial(rec.labels.has('reload with a stored language that differs from the browser') && rec.labels.has('reload after a clear'))
		}
	})
}
