import { browserEnv, UA } from '../harness/env.mjs'
import { buildSut, esbuild, fc } from '../harness/sut.mjs'
import { awaited, compile, misfit, resultOf } from '../harness/types.mjs'
import { equal, ok, resolved } from '../harness/util.mjs'

export const assumptions = ['TypeScript 5.9 in strict mode, over the sources of the packages', 'results are compared with their types four levels deep', '`void` says nothing about a result', 'typed preferences are asked for with JSON types', 'the result of emit() is left out: the library that traps errors of listeners drops it', 'types that immer does not draft (maps, sets) or that the type library does not enumerate (lists of readonly lists) are left out; keys of registries are texts and symbols (keys of numbers are a recorded finding)']

const PACKAGES = {
	app_: '@just-web/app',
	appT: '@just-web/app/testing',
	states: '@just-web/states',
	commands: '@just-web/commands',
	keyboard: '@just-web/keyboard',
	os: '@just-web/os',
	i18n: '@just-web/i18n',
	routes: '@just-web/routes',
	events: '@just-web/events',
	formatjs: '@just-web/formatjs',
	history: '@just-web/history',
	preferences: '@just-web/preferences',
	browser: '@just-web/browser',
	browserT: '@just-web/browser/testing',
	bp: '@just-web/browser-preferences',
	bi: '@just-web/browser-i18n'
}
const IMPORTS = Object.entries(PACKAGES)
	.map(([n, p]) => `import * as ${n} from '${p}'`)
	.join('\n')
const APPS = {
	browser: `appT.justTestApp({ name: 'x', log: { customLevels: { happy: 550 } } }).with(os.osGizmo).with(keyboard.keyboardGizmoFn()).with(commands.commandsGizmoFn()).with(states.statesGizmo).with(routes.routesGizmo).with(events.eventsGizmoFn()).with(formatjs.formatJSGizmoFn({ config: { locale: 'en', onError() {} } })).with(history.historyGizmoFn()).with(browser.browserGizmoFn()).with(bp.browserPreferencesGizmo).with(bi.browserI18nGizmo)`,
	memory: `appT.justTestApp({ log: { logLevel: 1000, customLevels: { happy: 550, silly: 950 } } }).with(os.osGizmo).with(keyboard.keyboardGizmoFn()).with(commands.commandsGizmoFn()).with(states.statesGizmo).with(routes.routesGizmo).with(events.eventsGizmoFn()).with(formatjs.formatJSGizmoFn({ config: { locale: 'en', onError() {} } })).with(history.historyGizmoFn()).with(browserT.browserTestGizmoFn()).with(preferences.memoryPreferencesGizmo).with(i18n.i18nGizmoFn({ language: 'en' }))`
}

// types of values, as written, with values of them; those of the first ones can be stored as JSON
const TYPES = [
	['number', ['0', '-1.5', '7']],
	['string', ["''", "'a'"]],
	['boolean', ['true', 'false']],
	['number[]', ['[]', '[1, 2]']],
	['{ a: number }', ['{ a: 1 }', '{ a: -2 }']],
	['{ b: string, c?: boolean }', ["{ b: 'x' }", "{ b: '', c: true }"]],
	['string[][]', ["[['a'], []]", '[[]]']],
	["('on' | 'off')", ["'on'", "'off'"]],
	['null', ['null']],
	['[number, string]', ["[1, 'a']"]],
	['(number | string)', ['1', "'x'"]],
	['({ a: number } | null)', ['{ a: 1 }', 'null']],
	["({ k: 'x', v: number } | { k: 'y', w: string })", ["{ k: 'x', v: 1 }", "{ k: 'y', w: '' }"]],
	['{ l: { m: string[] }[] }', ["{ l: [{ m: ['a'] }] }", '{ l: [] }']],
	['Record<string, boolean>', ['{}', '{ x: true }']],
	['(string | undefined)', ["'a'", 'undefined']],
	['(() => string)', ["() => 'a'"]],
	['((a: number) => number)', ['(a: number) => a']],
	['Date', ['new Date(0)']],
	['RegExp', ['/a/']],
	['{ f(): number }', ['{ f: () => 1 }']],
	['symbol', ["Symbol('s')"]],
	['bigint', ['1n']]
]
const JSONS = 15
const isFunction = T => T.includes('=>')
// of each type, the values of others the compiler does not take for it (asked once);
// not functions, which may be updaters, nor symbols and undefined, which these may return
let misfits
function findMisfits() {
	const lines = []
	TYPES.forEach(([T], i) => TYPES.forEach(([, values], j) => i !== j && !isFunction(TYPES[j][0]) && TYPES[j][0] !== 'symbol' && values.forEach(v => v !== 'undefined' && lines.push([i, j, v, `{ const x: ${T} = ${v}; void x }`]))))
	const { errors } = compile(['export {}', ...lines.map(l => l[3])].join('\n'))
	misfits = TYPES.map(() => [])
	const rejected = new Set(errors.map(e => e.line))
	lines.forEach(([i, j, v], n) => rejected.has(n + 1) && misfits[i].push([j, v]))
}

// each step: lines that must be accepted, the names whose values are compared with their types, and lines of which each must be rejected
const STEPS = {
	store: (i, T, v, w, x, app) => {
		const make = app ? 'app.states.createStore' : 'states.createStore'
		return {
			lines: [
				`const s${i} = ${make}<${T}>(${v})`,
				`const a${i} = s${i}.get()`,
				`s${i}.onChange((value, before) => { const p: ${T} = value, q: ${T} = before; void [p, q] })`,
				`const off${i} = s${i}.onChange(() => {})`,
				`const b${i} = s${i}.set(${w})`,
				`const c${i} = s${i}.set(() => (${v}) as ${T})`,
				`const d${i} = await s${i}.set(async () => (${w}) as ${T})`,
				`s${i}.reset()`,
				`off${i}()`,
				`const r${i} = states.toReadonlyStore(s${i})`,
				`const e${i} = r${i}.get()`
			],
			is: { [`a${i}`]: T, [`b${i}`]: T, [`c${i}`]: T, [`d${i}`]: T, [`e${i}`]: T },
			names: [`a${i}`, `b${i}`, `c${i}`, `d${i}`, `e${i}`, `s${i}`, `r${i}`, `off${i}`],
			bad: [`s${i}.set(${x})`, ...(isFunction(T) ? [] : [`s${i}.set(() => (${x}))`]), `${make}<${T}>(${x})`, `r${i}.set(${v})`, `r${i}.reset()`, `s${i}.update(${v})`, `s${i}.onChange()`, `s${i}.onChange(1)`, ...(T.startsWith('Record') ? [] : [`s${i}.get().nope`])]
		}
	},
	registry: (i, T, v, w, x, app) => {
		const make = app ? 'app.states.createRegistry' : 'states.createRegistry'
		return {
			lines: [
				`const s${i} = ${make}<string, ${T}>({ k: ${v} })`,
				`const a${i} = s${i}.keys(), b${i} = s${i}.has('k'), c${i} = s${i}.size(), d${i} = s${i}.values(), e${i} = s${i}.get()`,
				`const f${i} = s${i}.set({ l: ${w} })`,
				`s${i}.set(r => { r['m'] = ${w} })`,
				`const g${i} = states.toReadonlyRegistry(s${i})`,
				`const h${i} = g${i}.values()`
			],
			is: { [`a${i}`]: 'string[]', [`b${i}`]: 'boolean', [`c${i}`]: 'number', [`d${i}`]: `(${T})[]`, [`e${i}`]: `Record<string, ${T}>`, [`h${i}`]: `(${T})[]` },
			names: ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 's'].map(n => n + i),
			bad: [`s${i}.set({ k: ${x} })`, `${make}<string, ${T}>({ k: ${x} })`, `g${i}.set({ k: ${v} })`, `s${i}.has({})`, `s${i}.keys(1)`, `s${i}.set(r => { r['m'] = ${x} })`]
		}
	},
	state: (i, T, v, w, x, app) => ({
		lines: [`const [a${i}, set${i}, on${i}, reset${i}] = ${app ? 'app.states' : 'states'}.createState<${T}>(${v})`, `const b${i} = set${i}(${w})`, `const c${i} = set${i}(() => (${v}) as ${T})`, `const off${i} = on${i}((p, q) => { const r: ${T}[] = [p, q]; void r })`, `reset${i}()`],
		is: { [`a${i}`]: T, [`b${i}`]: T, [`c${i}`]: T },
		names: ['a', 'b', 'c', 'off', 'set', 'on', 'reset'].map(n => n + i),
		bad: [`set${i}(${x})`, `on${i}(1)`, `reset${i}(1)`, `states.createState<${T}>(${x})`]
	}),
	adder: (i, T, v, w, x) => ({
		lines: [
			`const s${i} = states.withAdder(states.createStore<Array<${T}>>([]), states.push)`,
			`s${i}.add(${v}, ${w})`,
			`const a${i} = s${i}.get()`,
			`const u${i} = states.adder(states.createStore<Array<${T}>>([${v}]), states.unshift)`,
			`u${i}(${w})`,
			`const t${i} = states.createStore<Array<${T}>>([])`,
			`const p${i} = states.adder(t${i}, (list, entry) => { const e: ${T} = entry; void e; list.push(entry as never) })`,
			`p${i}(${v})`,
			`const q${i} = states.withAdder(t${i}, (list, entry) => { const e: ${T} = entry; void e; list.unshift(entry as never) })`,
			`q${i}.add(${w})`,
			`const b${i} = t${i}.get()`
		],
		is: { [`a${i}`]: `(${T})[]`, [`b${i}`]: `(${T})[]`, [`u${i}`]: `states.Adder<${T}>`, [`p${i}`]: `states.Adder<${T}>` },
		names: [`s${i}`, `a${i}`, `u${i}`, `p${i}`, `q${i}`, `b${i}`],
		bad: [`s${i}.add(${x})`, `s${i}.add(${v}, ${x})`, `s${i}.add([1, 'a', true, 2n])`, `u${i}(${x})`, `u${i}(${w}, ${x})`, `p${i}(${x})`, `q${i}.add(${x})`, `states.adder(t${i})`, `states.adder(1, states.push)`, `states.withAdder(t${i})`]
	}),
	'adder of a record': (i, T, v, w, x, registry) => ({
		lines: [
			`const t${i} = ${registry ? `states.createRegistry<string, ${T}>({})` : `states.createStore<Record<string, ${T}>>({})`}`,
			`const p${i} = states.adder(t${i}, (record, entry) => { const e: ${T} = entry; void e; record['p'] = entry as never })`,
			`p${i}(${v}, ${w})`,
			`const q${i} = states.withAdder(t${i}, (record, entry) => { const e: ${T} = entry; void e; record['q'] = entry as never })`,
			`q${i}.add(${w})`,
			`const b${i} = t${i}.get()`,
			...(registry ? [`const c${i} = q${i}.values()`] : [])
		],
		is: { [`b${i}`]: `Record<string, ${T}>`, [`p${i}`]: `states.Adder<${T}>`, ...(registry && { [`c${i}`]: `(${T})[]` }) },
		names: [`p${i}`, `q${i}`, `b${i}`],
		bad: [`p${i}(${x})`, `p${i}(${w}, ${x})`, `q${i}.add(${x})`, `q${i}.add(${w}, ${x})`]
	}),
	'inferred store': (i, T, v, w, x, app) => ({
		lines: [
			`const v${i} = (${v}) as ${T}`,
			`const s${i} = ${app ? 'app.states' : 'states'}.createStore(v${i}), r${i} = ${app ? 'app.states' : 'states'}.createRegistry({ k: v${i} })`,
			`const a${i} = s${i}.get(), b${i} = s${i}.set(${w}), c${i} = r${i}.values(), d${i} = r${i}.keys()`
		],
		is: { [`a${i}`]: T, [`b${i}`]: T, [`c${i}`]: `(${T})[]`, [`d${i}`]: 'string[]' },
		names: ['a', 'b', 'c', 'd', 's', 'r'].map(n => n + i),
		bad: [`s${i}.set(${x})`, `r${i}.set({ k: ${x} })`]
	}),
	'registry of other keys': (i, T, v, w, x, symbols) => ({
		lines: symbols ?
			[
				`const y${i} = Symbol('y')`,
				`const s${i} = states.createRegistry<symbol, ${T}>({ [y${i}]: ${v} })`,
				`s${i}.set(r => { r[y${i}] = ${w} })`,
				`const a${i} = s${i}.keys(), b${i} = s${i}.has(y${i}), c${i} = s${i}.values()`
			]
		:	[
				`const s${i} = app.states.createRegistry<string, ${T}>(), u${i} = states.toReadonlyRegistry(s${i})`,
				`s${i}.onChange((now, before) => { const p: Record<string, ${T}>[] = [now, before]; void p })`,
				`s${i}.set(() => ({ a: ${v} }))`,
				`const a${i} = u${i}.keys(), b${i} = u${i}.has('a'), c${i} = u${i}.values(), d${i} = await s${i}.set(async r => { r['b'] = ${w} })`,
				`s${i}.reset()`
			],
		is: { [`a${i}`]: symbols ? 'symbol[]' : 'string[]', [`b${i}`]: 'boolean', [`c${i}`]: `(${T})[]`, ...(!symbols && { [`d${i}`]: `Record<string, ${T}>` }) },
		names: ['a', 'b', 'c'].map(n => n + i),
		bad: symbols ? [`s${i}.has('a')`, `s${i}.set(r => { r[y${i}] = ${x} })`] : [`s${i}.has(Symbol())`, `u${i}.set({})`, `u${i}.reset()`, `s${i}.onChange((a: number) => {})`, `s${i}.add(${v})`, `u${i}.add(${v})`]
	}),
	command: (i, T, v, w, x, app) => ({
		lines: [
			`const f${i} = commands.command<(a: ${T}, b?: number) => Array<${T}>>('x.f${i}', a => [a])`,
			...(app ? [`f${i}.connect(app)`] : []),
			`const a${i} = f${i}(${v}), b${i} = f${i}(${w}, 1), c${i} = f${i}.id, d${i} = f${i}.name`,
			`const e${i} = f${i}.defineHandler(a => [a, ${w}])`,
			`f${i}.connect(app, (a, b) => { const n: number | undefined = b; void n; return [a] })`,
			`const g${i} = f${i}(${w})`
		],
		is: { [`a${i}`]: `(${T})[]`, [`b${i}`]: `(${T})[]`, [`c${i}`]: 'string', [`d${i}`]: 'string', [`g${i}`]: `(${T})[]` },
		names: ['a', 'b', 'c', 'd', 'e', 'g', 'f'].map(n => n + i),
		bad: [`f${i}(${x})`, `f${i}()`, `f${i}(${v}, 'one')`, `f${i}.connect({})`, `f${i}.connect()`, `f${i}.connect(app, 1)`, `commands.command(1)`, `commands.command({ title: 'x' })`, `commands.command({ id: 'x', commandPalette: true })`, `commands.command<(a: ${T}) => void>('x', (a: ${T}, b: number) => {})`, `f${i}.defineHandler((a: ${T}, b: number, c: number) => [a])`, `f${i}.defineHandler(1)`, `commands.command({ id: 'x', key: 1 })`]
	}),
	'public command': (i, T, v, w, x) => ({
		lines: [
			`const f${i} = commands.command<(a: ${T}) => void>({ id: 'p.f${i}', title: 'F', description: 'd', category: 'c', icon: { light: 'l' }, commandPalette: false, key: 'ctrl+${'abcdefgh'[i % 8]}', mac: 'cmd+a' })`,
			`f${i}.connect(app, a => { const p: ${T} = a; void p })`,
			`f${i}(${v})`,
			`const g${i} = commands.command({ id: 'p.g${i}', mac: 'cmd+x' }, () => {})`,
			`g${i}.connect(app)`,
			`g${i}()`,
			`const a${i} = f${i}.id`
		],
		is: { [`a${i}`]: 'string' },
		names: [`a${i}`],
		bad: [`f${i}(${x})`, `g${i}(${v})`, `f${i}.connect(app, (a: ${T}, b: ${T}) => {})`, `f${i}()`, `commands.command<(a: ${T}) => void>({ id: 'x' }, (a: ${T}, b: number) => {})`, `commands.command<(a: ${T}) => void>({ id: 'x' }, 1)`]
	}),
	handlers: (i, T, v, w) => ({
		lines: [
			`app.commands.handlers.register('h${i}', (a: ${T}) => a)`,
			`const a${i} = app.commands.handlers.invoke('h${i}', ${v}) as ${T}, b${i} = app.commands.handlers.keys(), c${i} = app.commands.handlers.has('h${i}')`,
			`app.commands.contributions.add({ id: 'h${i}' }, { id: 'i${i}', title: 't', commandPalette: false })`,
			`const d${i} = app.commands.contributions.get(), e${i} = app.commands.contributions.values(), f${i} = commands.formatCommand({ id: 'h${i}' })`,
			`app.commands.showCommandPalette()`
		],
		is: { [`b${i}`]: 'string[]', [`c${i}`]: 'boolean', [`d${i}`]: 'Record<string, commands.CommandContribution>', [`e${i}`]: 'commands.CommandContribution[]', [`f${i}`]: '{ id: string, title: string, description: string | undefined }' },
		names: ['a', 'b', 'c', 'd', 'e', 'f'].map(n => n + i),
		bad: [`app.commands.handlers.register('x')`, `app.commands.handlers.register(1, () => {})`, `app.commands.handlers.invoke()`, `app.commands.handlers.invoke(1)`, `app.commands.handlers.has(1)`, `app.commands.contributions.add({ title: 'x' })`, `app.commands.contributions.add({ id: 1 })`, `app.commands.contributions.add({ id: 'x', commandPalette: true })`, `commands.formatCommand({ title: 'x' })`, `commands.formatCommand('x')`, `app.commands.showCommandPalette(1)`]
	}),
	keyboard: i => ({
		lines: [
			`app.keyboard.keyBindingContributions.add({ id: 'k${i}', key: 'ctrl+a' }, { id: 'l${i}', mac: 'cmd+b' })`,
			`const a${i} = app.keyboard.keyBindingContributions.get(), b${i} = app.keyboard.keyBindingContributions.keys(), c${i} = keyboard.formatKeyBinding(app, { id: 'x', key: 'a', mac: 'b' }), d${i} = app.os.isMac()`
		],
		is: { [`a${i}`]: 'Record<string, keyboard.KeyBindingContribution>', [`b${i}`]: 'string[]', [`c${i}`]: '{ id: string, key: string }', [`d${i}`]: 'boolean' },
		names: ['a', 'b', 'c', 'd'].map(n => n + i),
		bad: [`app.keyboard.keyBindingContributions.add({ key: 'a' })`, `app.keyboard.keyBindingContributions.add({ id: 'x', key: 1 })`, `app.keyboard.keyBindingContributions.add('a')`, `keyboard.formatKeyBinding({}, { id: 'x', key: 'a' })`, `keyboard.formatKeyBinding(app, { key: 'a' })`]
	}),
	preferences: i => ({
		lines: [
			`const a${i} = app.preferences.get('s${i}'), b${i} = app.preferences.get('s${i}', 'd')`,
			`app.preferences.set('s${i}', 'v')`,
			`const c${i} = app.preferences.get('s${i}')`,
			`app.preferences.set('s${i}', v => (v ?? '') + 'x')`,
			`await app.preferences.set('s${i}', async v => (v ?? '') + 'y')`,
			`const d${i} = app.preferences.get('s${i}')`,
			`app.preferences.set('s${i}', undefined)`,
			`app.preferences.clearAll()`,
			`preferences.setUserPreference('u${i}', 'v')`,
			`const e${i} = preferences.getUserPreference('u${i}'), f${i} = preferences.getUserPreference('nothing', 'd')`,
			`preferences.setUserPreference('u${i}', undefined)`,
			`preferences.clearAllUserPreferences()`
		],
		is: { [`a${i}`]: 'string | undefined', [`c${i}`]: 'string | undefined', [`d${i}`]: 'string | undefined', [`e${i}`]: 'string | undefined' },
		names: ['a', 'b', 'c', 'd', 'e', 'f'].map(n => n + i),
		bad: [`preferences.getUserPreference()`, `preferences.getUserPreference(1)`, `preferences.setUserPreference('k', 1)`, `preferences.setUserPreference()`, `preferences.clearAllUserPreferences('k')`, `app.preferences.get()`, `app.preferences.get(1)`, `app.preferences.get('k', 1)`, `app.preferences.set('k', 1)`, `app.preferences.set('k', { a: 1 })`, `app.preferences.set(1, 'v')`, `app.preferences.clearAll(1)`, `app.preferences.set('k', (v: number) => 'x')`]
	}),
	'typed preference': (i, T, v, w, x, given) => ({
		lines: [
			`const s${i} = app.preferences.createStore<${T}>('t${i}'${given ? `, ${v}` : ''})`,
			`const a${i} = s${i}.get()`,
			`s${i}.set(${w})`,
			`const b${i} = s${i}.get()`,
			`s${i}.set(() => (${v}) as ${T})`,
			`await s${i}.set(async () => (${w}) as ${T})`,
			`const c${i} = s${i}.get()`,
			`s${i}.set(undefined)`,
			`const d${i} = s${i}.get()`
		],
		is: { [`a${i}`]: `${T} | undefined`, [`b${i}`]: `${T} | undefined`, [`c${i}`]: `${T} | undefined`, [`d${i}`]: `${T} | undefined` },
		names: ['a', 'b', 'c', 'd', 's'].map(n => n + i),
		bad: [`s${i}.set(${x})`, `app.preferences.createStore<${T}>('k', ${x})`, `app.preferences.createStore<${T}>(1)`, `app.preferences.createStore<() => void>('k')`, ...(T.startsWith('Record') ? [] : [`s${i}.get().nope`]), `s${i}.get(1)`]
	}),
	i18n: (i, T, v, w, x, _, kind) => ({
		lines: [
			`app.i18n.languageChanged((now, before) => { const p: string = now, q: string = before; void [p, q] })`,
			`const a${i} = app.i18n.getLanguage()`,
			`app.i18n.setLanguage('de')`,
			`i18n.setLanguageCommand('fr')`,
			`const b${i} = app.i18n.getLanguage()`,
			...(kind === 'browser' ? ['app.i18n.clearLanguage()'] : [])
		],
		is: { [`a${i}`]: 'string', [`b${i}`]: 'string' },
		names: [`a${i}`, `b${i}`],
		bad: [`app.i18n.setLanguage()`, `app.i18n.setLanguage(1)`, `app.i18n.languageChanged()`, `app.i18n.languageChanged((a: number) => {})`, `i18n.setLanguageCommand(1)`, `i18n.i18nGizmoFn()`, `i18n.i18nGizmoFn({})`, ...(kind === 'browser' ? [] : [`app.i18n.clearLanguage()`])]
	}),
	routes: i => ({
		lines: [
			`const off${i} = app.routes.register('/r${i}', () => {})`,
			`app.routes.navigate('/r${i}')`,
			`app.routes.navigate()`,
			`const a${i} = app.routes.hasRoute('/r${i}')`,
			`app.routes.config({ initialRoute: '/r${i}' })`,
			`off${i}()`,
			`const b${i} = app.routes.hasRoute('/r${i}')`,
			`app.routes.clearRoutes()`
		],
		is: { [`a${i}`]: 'boolean', [`b${i}`]: 'boolean' },
		names: [`a${i}`, `b${i}`, `off${i}`],
		bad: [`app.routes.register('/a')`, `app.routes.register(1, () => {})`, `app.routes.navigate(1)`, `app.routes.config({})`, `app.routes.config({ initialRoute: 1 })`, `app.routes.hasRoute()`, `app.routes.clearRoutes('/a')`]
	}),
	app: i => ({
		lines: [
			`const a${i} = app.name, b${i} = app.id, c${i} = app.log.getLogger('l${i}'), d${i} = app.log.reporter.logs.length, e${i} = app.browser.errors.get()`,
			`app.log.info('m', 1, { a: 1 })`,
			`app.log.getLogger().warn('x')`,
			`app.log.happy('m')`,
			`app.log.getLogger('l${i}').happy('m')`,
			`app.log.getNonConsoleLogger('l${i}').happy('m')`,
			`app.log.on('happy', log => { log('x') })`,
			`const r${i} = app.log.toLogLevel('happy'), s${i} = app.log.toLogLevel('info'), t${i} = app.log.toLogLevelName(r${i})`,
			`app.log.on('debug', log => { log('x') })`,
			`const off${i} = app.browser.errors.onChange(list => { const p: Error[] = list; void p })`,
			`off${i}()`,
			`const f${i} = app.formatjs.intl.formatMessage({ id: 'x', defaultMessage: 'y' }), g${i} = app.history.location.pathname, h${i} = app.browser.localStorage.getItem('nothing'), j${i} = app.events.emitter.on('x', () => {}).listenerCount('x')`,
			`const k${i} = new browser.BrowserError('m', 's', 1, 2, new Error('e'))`,
			`const l${i} = states.isNothing(states.nothing)`,
			`const m${i} = app_.createPrefixedGetLogger(app, 'p')('q${i}'), n${i} = m${i}.id, o${i} = k${i}.source, q${i} = k${i}.lineno`,
			`m${i}.info('x', { a: 1 })`
		],
		is: { [`a${i}`]: 'string', [`b${i}`]: 'string', [`d${i}`]: 'number', [`e${i}`]: 'Error[]', [`g${i}`]: 'string', [`h${i}`]: 'string | null', [`l${i}`]: 'boolean', [`n${i}`]: 'string', [`o${i}`]: 'string | undefined', [`q${i}`]: 'number | undefined', [`r${i}`]: 'number', [`s${i}`]: 'number', [`t${i}`]: 'string' },
		names: ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'j', 'k', 'l', 'm', 'n', 'o', 'q', 'r', 's', 't', 'off'].map(n => n + i),
		bad: [`app.log.nope('x')`, `app.log.sad('x')`, `app.log.getLogger('x').sad('x')`, `app.log.toLogLevel('sad')`, `app.log.on('sad', () => {})`, `app_.justApp({ name: 'x', log: { customLevels: { silly: 'x' } } })`, `app_.justApp({ name: 'x', log: { logLevel: 'all' } })`, `app_.justApp({})`, `app_.justApp()`, `app.nope`, `app.log.getLogger(1)`, `app.browser.errors.set([])`, `app.browser.errors.add(new Error())`, `app.browser.errors.reset()`, `app.history.nope`, `app.justApp()`, `app.os.isMac(1)`, `new browser.BrowserError()`, `new browser.BrowserError('m', 1)`, `new browser.BrowserError('m', 's', '1')`, `app_.createPrefixedGetLogger({}, 'p')`, `app_.createPrefixedGetLogger(app)`, `m${i}.nope('x')`, `appT.justTestApp({ name: 1 })`, `browserT.browserTestGizmoFn({ localStorage: 1 })`, `keyboard.keyboardGizmoFn({ keyBindingContributions: [{ key: 'a' }] })`, `commands.commandsGizmoFn({ contributions: [{ title: 'x' }] })`, `commands.commandsGizmoFn({ handlers: { a: 1 } })`, `formatjs.formatJSGizmoFn({})`, `formatjs.formatJSGizmoFn()`, `history.historyGizmoFn({ history: 1 })`, `browser.browserGizmoFn({ preventDefault: 'yes' })`]
	})
}

export default async function ({ section, probe }) {
	const sut = await buildSut(PACKAGES)
	findMisfits()
	const step = fc.record({ k: fc.constantFrom(...Object.keys(STEPS)), T: fc.nat(TYPES.length - 1), v: fc.nat(5), w: fc.nat(5), x: fc.nat(), flag: fc.boolean(), bad: fc.array(fc.nat(59), { maxLength: 3 }) })
	await section('programs', {
		arb: fc.record({ kind: fc.constantFrom('browser', 'memory'), steps: fc.array(step, { minLength: 1, maxLength: 6 }) }),
		runs: { quick: 110, thorough: 1500 },
		rule: 'programs of up to six parts that use states, registries, adders, commands, contributions, key bindings, preferences, typed preferences, languages, routes and the rest of an app with values of over twenty types, and calls with arguments of other types, missing or surplus ones, or of members that are not there: the compiler takes all but the latter, gives each result the type the program names, and the value the program then gets is of that type; non-trivial: two parts or more and a call to be rejected.',
		async check({ kind, steps }, rec) {
			const lines = []
			const claims = []
			const names = []
			const bad = []
			for (const [i, s] of steps.entries()) {
				const json = s.k === 'typed preference'
				const [T, values] = TYPES[json ? s.T % JSONS : s.T]
				const others = misfits[json ? s.T % JSONS : s.T]
				const [, x] = others[s.x % others.length]
				const p = STEPS[s.k](i, T, values[s.v % values.length], values[s.w % values.length], x, s.flag, kind)
				lines.push(...p.lines)
				for (const [name, type] of Object.entries(p.is)) claims.push(`const is_${name}: Same<typeof ${name}, ${type}> = true; void is_${name}`)
				names.push(...p.names)
				for (const b of s.bad) bad.push(p.bad[b % p.bad.length])
			}
			const head = [IMPORTS, 'type Same<A, B> = (<X>() => X extends A ? 1 : 2) extends <X>() => X extends B ? 1 : 2 ? true : [A] extends [B] ? ([B] extends [A] ? true : never) : never', `const incubator = ${APPS[kind]}`, 'export async function run(app: app_.justApp.Infer<typeof incubator>) {'].join('\n')
			const source = [head, ...lines, `const results = { ${names.join(', ')} }`, ...claims, '{', ...bad, '}', 'return results', '}'].join('\n')
			const { errors, types, checker } = compile(source)
			const all = source.split('\n')
			const from = all.length - 3 - bad.length
			const wrong = errors.filter(e => e.line < from || e.line >= from + bad.length)
			equal(wrong.map(e => `${all[e.line]}: ${e.message}`), [], 'errors in what should be accepted')
			bad.forEach((b, i) => ok(errors.some(e => e.line === from + i), `the compiler accepts: ${b}\n${lines.join('\n')}`))
			rec.label('to be rejected', bad.length > 0)
			for (const s of steps) rec.label(s.k)
			rec.nontrivial(steps.length > 1 && bad.length > 0)

			const m = sut.instantiate(browserEnv({ ua: UA.linux }))
			const { code } = esbuild.transformSync(['async function run(app) {', ...lines, `return { ${names.join(', ')} }`, '}'].join('\n'), { loader: 'ts', target: 'es2022' })
			const packages = Object.keys(PACKAGES)
			const scope = new Function(...packages, `${code}\nreturn { run, incubator: ${APPS[kind].replaceAll('appT.', 'appT.')} }`)(...packages.map(k => m[k]))
			const app = await resolved(scope.incubator.create(), 'app creation')
			const results = await resolved(scope.run(app), 'the program')
			const type = awaited(checker, resultOf(types.get('run')))
			const e = misfit(checker, type, results, 'results', 5)
			ok(!e, `${e}\n${lines.join('\n')}`)
		}
	})
	// what is typed otherwise than it is, and recorded rather than repaired
	const one = lines => {
		const { errors, types, checker } = compile([IMPORTS, ...lines].join('\n'))
		equal(errors, [], 'errors in what should be accepted')
		const m = sut.instantiate(browserEnv({ ua: UA.linux }))
		const { code } = esbuild.transformSync(lines.join('\n').replace('export const result', 'const result'), { loader: 'ts', target: 'es2022' })
		const value = new Function('states', `${code}\nreturn result`)(m.states)
		const e = misfit(checker, types.get('result'), value, 'result', 4)
		ok(!e, e)
	}
	await probe('number-keys', {
		what: 'the keys of a registry with number keys are typed as what they are',
		check: () => one(["export const result = states.createRegistry<number, string>({ 1: 'a' }).keys()"])
	})
	await probe('async-function-value', {
		what: 'set() of a state that holds functions is typed as what it returns',
		check: () => one(['const s = states.createStore<() => Promise<number>>(async () => 1)', 'export const result = s.set(async () => 2)'])
	})
}
