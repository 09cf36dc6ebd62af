import { browserEnv, UA } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { awaited, compile, misfit, resultOf } from '../harness/types.mjs'
import { equal, ok, resolved } from '../harness/util.mjs'

export const assumptions = ['TypeScript 5.9 in strict mode, over the sources of the packages', 'values are compared with their types four levels deep; what the page gives (storages, location, functions of the library) by kind only']

const PACKAGES = {
	app: '@just-web/app',
	appT: '@just-web/app/testing',
	id: '@just-web/id',
	log: '@just-web/log',
	logT: '@just-web/log/testing',
	states: '@just-web/states',
	commands: '@just-web/commands',
	keyboard: '@just-web/keyboard',
	os: '@just-web/os',
	osT: '@just-web/os/testing',
	i18n: '@just-web/i18n',
	routes: '@just-web/routes',
	events: '@just-web/events',
	formatjs: '@just-web/formatjs',
	fetch: '@just-web/fetch',
	fetchT: '@just-web/fetch/testing',
	history: '@just-web/history',
	historyT: '@just-web/history/testing',
	preferences: '@just-web/preferences',
	browser: '@just-web/browser',
	browserT: '@just-web/browser/testing',
	bp: '@just-web/browser-preferences',
	bk: '@just-web/browser-keyboard',
	bi: '@just-web/browser-i18n',
	presets: '@just-web/presets-browser',
	presetsT: '@just-web/presets-browser/testing'
}

// what each gizmo is written like, what it needs of those before it, and what it gives
const G = {
	id: [["id.idGizmoFn({ name: 'x' })"], [], ['name', 'id']],
	log: [['log.logGizmoFn()', "log.logGizmoFn({ logLevel: log.logLevels.none })", 'logT.logTestGizmoFn()', 'log.logGizmoFn({ customLevels: { silly: 850, happy: 950 } })', 'logT.logTestGizmoFn({ customLevels: { happy: 950 } })'], ['name', 'id'], ['log']],
	states: [['states.statesGizmo'], ['log'], ['states']],
	commands: [['commands.commandsGizmoFn()', "commands.commandsGizmoFn({ contributions: [{ id: 'a.b' }], handlers: { 'a.b': () => 1 } })"], ['log'], ['commands']],
	keyboard: [['keyboard.keyboardGizmoFn()', "keyboard.keyboardGizmoFn({ keyBindingContributions: [{ id: 'a.b', key: 'ctrl+k' }] })"], ['log'], ['keyboard']],
	os: [['os.osGizmo', 'osT.osTestGizmoFn()', 'osT.osTestGizmoFn({ isMac: () => true })'], [], ['os']],
	browserKeyboard: [['bk.browserKeyboardGizmo'], ['log', 'keyboard', 'commands', 'os'], []],
	preferences: [['preferences.preferencesGizmo', 'preferences.memoryPreferencesGizmo'], ['commands'], ['preferences']],
	i18n: [["i18n.i18nGizmoFn({ language: 'en' })"], [], ['i18n']],
	routes: [['routes.routesGizmo'], ['log'], ['routes']],
	events: [['events.eventsGizmoFn()', 'events.eventsGizmoFn({})'], ['log'], ['events']],
	formatjs: [["formatjs.formatJSGizmoFn({ config: { locale: 'en' } })"], [], ['formatjs']],
	fetch: [['fetch.fetchGizmo', 'fetchT.fetchTestGizmoFn()'], [], ['fetch']],
	history: [['history.historyGizmoFn()', 'history.historyGizmoFn({ history: historyT.createMemoryHistory() })'], [], ['history']],
	browser: [['browser.browserGizmoFn()', 'browser.browserGizmoFn({ preventDefault: true })', 'browserT.browserTestGizmoFn()', 'browserT.browserTestGizmoFn({ localStorage: browserT.stubStorage() })'], ['log'], ['browser', 'fetch']],
	browserPreferences: [['bp.browserPreferencesGizmo'], ['name', 'id', 'log', 'commands', 'browser'], ['preferences']],
	browserI18n: [['bi.browserI18nGizmo'], ['name', 'id', 'browser'], ['i18n']],
	preset: [['presets.presetsBrowserGizmoFn()', 'presets.presetsBrowserGizmoFn({ history: { history: historyT.createMemoryHistory() } })', 'presetsT.presetsBrowserTestGizmoFn()'], ['name', 'id', 'log', 'commands'], ['browser', 'fetch', 'preferences', 'history']]
}
// the type each field is known under, and something of it a gizmo can hand on
const FIELDS = {
	id: ['id.IdGizmo', ['name', 'id'], c => `${c}.name.length`],
	log: ['log.LogGizmo', ['log'], c => `${c}.log.getLogger('x').id`],
	states: ['states.StatesGizmo', ['states'], c => `${c}.states.createStore(1).get()`],
	commands: ['commands.CommandsGizmo', ['commands'], c => `${c}.commands.handlers.keys()`],
	keyboard: ['keyboard.KeyboardGizmo', ['keyboard'], c => `${c}.keyboard.keyBindingContributions.size()`],
	os: ['os.OSGizmo', ['os'], c => `${c}.os.isMac()`],
	preferences: ['preferences.PreferencesGizmo', ['preferences'], c => `${c}.preferences.createStore<number>`],
	i18n: ['i18n.I18nGizmo', ['i18n'], c => `${c}.i18n.getLanguage()`],
	routes: ['routes.RoutesGizmo', ['routes'], c => `${c}.routes.hasRoute('/')`],
	events: ['events.EventsGizmo', ['events'], c => `${c}.events.emitter.listenerCount('x')`],
	formatjs: ['formatjs.FormatJSGizmo', ['formatjs'], c => `${c}.formatjs.intl.formatNumber(1)`],
	history: ['history.HistoryGizmo', ['history'], c => `${c}.history.location.pathname`],
	browser: ['browser.BrowserGizmo', ['browser', 'fetch'], c => `${c}.browser.errors.get().length`]
}
const BASES = {
	justApp: ["app.justApp({ name: 'x' })", ['name', 'id', 'log']],
	'justApp of its own levels': ["app.justApp({ name: 'x', log: { customLevels: { happy: 500 }, logLevel: log.logLevels.all } })", ['name', 'id', 'log']],
	justTestApp: ['appT.justTestApp()', ['name', 'id', 'log']],
	'justTestApp of its own levels': ["appT.justTestApp({ log: { customLevels: { happy: 500 } } })", ['name', 'id', 'log']],
	incubate: ['app.incubate()', []]
}
const IMPORTS = Object.entries(PACKAGES)
	.map(([n, p]) => `import * as ${n} from '${p}'`)
	.join('\n')

export default async function ({ section }) {
	const sut = await buildSut(PACKAGES)
	const link = fc.oneof(
		{ weight: 8, arbitrary: fc.record({ g: fc.constantFrom(...Object.keys(G)), n: fc.nat(11) }) },
		{ weight: 2, arbitrary: fc.record({ needs: fc.uniqueArray(fc.constantFrom(...Object.keys(FIELDS)), { maxLength: 3 }), wants: fc.uniqueArray(fc.constantFrom(...Object.keys(FIELDS)), { maxLength: 2 }) }) },
		{ weight: 1, arbitrary: fc.record({ merge: fc.constantFrom("{ extra: 1 }", "{ extra: 'a', more: [1] }", '{ more: { a: true } }') }) }
	)
	await section('compositions', {
		arb: fc.record({
			base: fc.constantFrom('justApp', 'justApp', 'justTestApp', 'justApp of its own levels', 'justTestApp of its own levels', 'incubate'),
			// a link that lacks something is left out, unless it is the one to be rejected
			links: fc.array(fc.record({ link, anyway: fc.integer({ min: 0, max: 7 }) }), { minLength: 1, maxLength: 9 })
		}),
		runs: { quick: 130, thorough: 1500 },
		rule: 'chains of up to nine gizmos (all of them, with and without options, and gizmos of the program that require and want others by their exported types) from justApp(), justTestApp() (with log levels of the program, too) or an empty incubator: the compiler takes each link if, and only if, what it requires comes before; of a complete chain the type of the app, at create(), in its callbacks and by justApp.Infer, has the fields the created app has, and each member has the type it is given; non-trivial: three links or more, or a rejected one.',
		async check({ base, links }, rec) {
			const [text, given] = BASES[base]
			const has = new Set(given)
			const chain = []
			let rejected = false
			for (const [i, { link, anyway }] of links.entries()) {
				if (rejected) break
				const needs = link.g ? G[link.g][1] : link.merge ? [] : link.needs.flatMap(f => FIELDS[f][1])
				const gives = link.g ? G[link.g][2] : link.merge ? [] : [`u${i}`]
				if (needs.some(f => !has.has(f))) {
					if (anyway) continue
					rejected = true
				}
				const written =
					link.g ? `.with(${G[link.g][0][link.n % G[link.g][0].length]})`
					: link.merge ? `.merge(${link.merge})`
					: `.with(app.define({ static: app.define${link.needs.map(f => `.require<${FIELDS[f][0]}>()`).join('') || '.optional<{ nothing: 1 }>()'}${link.wants.filter(f => !link.needs.includes(f)).map(f => `.optional<${FIELDS[f][0]}>()`).join('')}, async create(ctx) { return { u${i}: [${link.needs.map(f => FIELDS[f][2]('ctx')).join(', ')}] as const } } }))`
				chain.push(written)
				if (!rejected) for (const f of gives) has.add(f)
			}
			if (!chain.length) return
			const lines = chain.map((c, i) => `export const c${i + 1} = c${i}${c}`)
			const fields = [...has]
			const full = chain.length
			const source = [
				IMPORTS,
				`export const c0 = ${text}`,
				...lines,
				...(rejected ? [] : [
					'export let inInit: any, inStart: any',
					`export const create = () => c${full}.init(app => { inInit = app; void [${fields.map(f => `app.${f}`)}] }).create(async app => { inStart = app; void [${fields.map(f => `app.${f}`)}] })`,
					...(base === 'incubate' ? [] : [`export const inferred = () => ({}) as app.justApp.Infer<typeof c${full}>`])
				])
			].join('\n')
			const { errors, types, checker, show } = compile(source)
			equal(errors, [], `errors in the program\n${source.slice(IMPORTS.length)}\n`)
			for (let i = 1; i <= full; i++) {
				const accepted = !!checker.getPropertyOfType(types.get(`c${i}`), 'create')
				equal(accepted, !(rejected && i === full), `the compiler accepts link ${i} of ${text}${chain.slice(0, i).join('')} (${show(types.get(`c${i}`)).slice(0, 200)})`)
			}
			rec.label('rejected', rejected)
			rec.label('with gizmos of its own', chain.some(c => c.includes('define(')))
			rec.nontrivial(rejected || full > 2)
			if (rejected) return
			const m = sut.instantiate(browserEnv({ ua: UA.linux }))
			const run = new Function(...Object.keys(PACKAGES), `return ${text}${chain.join('').replaceAll(/<[\w.]*(\{[^}]*\})?[\w.]*>/g, '').replaceAll(' as const', '')}`)
			let inInit
			let inStart
			const incubator = run(...Object.keys(PACKAGES).map(k => m[k])).init(app => {
				inInit = app
			})
			const created = await resolved(incubator.create(async app => {
				inStart = app
			}), 'app creation')
			const type = awaited(checker, resultOf(types.get('create')))
			const names = t => checker.getPropertiesOfType(t).map(p => p.name).sort()
			equal(names(type), Object.keys(created).sort(), `fields of the type, and of the app of ${text}${chain.join('')}`)
			ok(inInit && inStart, 'callbacks are called')
			const wrong = misfit(checker, type, created, 'app', 5)
			ok(!wrong, `${wrong}: ${text}${chain.join('')}`)
			if (types.has('inferred')) {
				const inferred = resultOf(types.get('inferred'))
				equal(names(inferred), names(type), 'fields of justApp.Infer')
				ok(checker.isTypeAssignableTo(inferred, type) && checker.isTypeAssignableTo(type, inferred), 'justApp.Infer is the type of the app')
			}
			rec.label('fields', fields.length > 6)
		}
	})
}
