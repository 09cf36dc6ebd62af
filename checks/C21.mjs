import { create, logTail, mentions } from '../harness/apps.mjs'
import { PROTO_NAMES, history, ident } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, ok, same } from '../harness/util.mjs'

export const assumptions = ['route handlers do not throw and do not change the routes']

export default async function ({ section }) {
	const sut = await buildSut({ appT: '@just-web/app/testing', app: '@just-web/app', routes: '@just-web/routes' })
	const m = sut.instantiate(browserEnv())
	const { logLevels } = m.app
	const route = ident(['/', '/', '/', '/a', '/a', '/a', 'a', '']).filter(p => p !== '__proto__')
	const app = fc.nat(1)
	const op = fc.oneof(
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('register'), app, route, same: fc.boolean() }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('unregister'), n: fc.nat(10) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('recycle'), app, n: fc.nat(10), clear: fc.boolean() }) },
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('navigate'), app, route: fc.option(route, { nil: undefined }) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('navigateKnown'), app, n: fc.oneof(fc.nat(5), fc.nat(200)) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('clear'), app }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('many'), app, count: fc.oneof(fc.nat(8), fc.constantFrom(20, 70, 140)) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('config'), app, route }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('home'), app, n: fc.oneof(fc.nat(5), fc.nat(200)) }) }
	)
	await section('histories', {
		arb: fc.record({ two: fc.boolean(), ops: history(op, { minLength: 1, maxLength: 24, crowd: 'route' }) }),
		runs: { quick: 5000, thorough: 100000 },
		rule: 'up to 24 registrations (also dozens at once, of one shared handler, or again of a route given up), unregistrations (repeated and stale), navigations, clears and configurations on one or two apps, over colliding, near-miss, prototype-named and arbitrary routes, against a map of routes; non-trivial: a stale or repeated unregister while the route is registered again or refused, followed by a navigation to it.',
		async check({ two, ops }, rec) {
			const apps = []
			for (let i = 0; i < (two ? 2 : 1); i++) {
				const a = await create(m.appT.justTestApp().with(m.routes.routesGizmo))
				apps.push({ i, routes: a.routes, log: logTail(a), model: new Map(), initial: '/' })
			}
			let calls = []
			const shared = () => void calls.push('shared')
			const registrations = []
			const suspicious = new Set()
			const views = where => {
				for (const a of apps)
					for (const r of new Set(['/', '/a', '', 'zz', ...PROTO_NAMES, ...a.model.keys(), ...registrations.map(x => x.route)]))
						same(a.routes.hasRoute(r), a.model.has(r), `${where}: app ${a.i}: hasRoute(${JSON.stringify(r)})`)
			}
			views('initially')
			for (const [j, op] of ops.entries()) {
				const a = apps[(op.app ?? 0) % apps.length]
				const where = `step ${j}: ${op.op} ${JSON.stringify(op.route ?? '')} in app ${a.i}`
				calls = []
				const errors = () => a.log.next().filter(e => e.level <= logLevels.error)
				if (op.op === 'recycle') {
					// a registered route is given up (by unregistering or clearing) and registered again
					const live = registrations.filter(x => x.a === a && a.model.get(x.route)?.id === x.id)
					if (!live.length) continue
					const old = live[op.n % live.length]
					if (op.clear) {
						a.routes.clearRoutes()
						a.model.clear()
					} else {
						old.unregister()
						a.model.delete(old.route)
					}
					const id = `h${j}`
					const unregister = a.routes.register(old.route, () => void calls.push(id))
					registrations.push({ a, id, route: old.route, unregister, refused: false })
					a.model.set(old.route, { id, mark: id })
					equal(errors().length, 0, `${where}: errors logged`)
				} else if (op.op === 'register') {
					const id = `h${j}`
					const mark = op.same ? 'shared' : id
					const reg = { a, id, route: op.route }
					const refused = a.model.has(op.route)
					reg.unregister = a.routes.register(op.route, op.same ? shared : () => void calls.push(id))
					reg.refused = refused
					registrations.push(reg)
					const e = errors()
					if (refused) ok(e.some(x => mentions(x, op.route)), `${where}: an error naming the route that is already registered`)
					else {
						a.model.set(op.route, { id, mark })
						equal(e.length, 0, `${where}: errors logged`)
					}
				} else if (op.op === 'many') {
					const fresh = [...Array(op.count).keys()].map(k => `/many/${k}`).filter(r => !a.model.has(r))
					for (const r of fresh) {
						const id = `h${j}${r}`
						registrations.push({ a, id, route: r, unregister: a.routes.register(r, () => void calls.push(id)), refused: false })
						a.model.set(r, { id, mark: id })
					}
					equal(errors().length, 0, `${where}: errors logged`)
				} else if (op.op === 'unregister') {
					if (!registrations.length) continue
					const stale = registrations.filter(x => x.a.model.has(x.route) && x.a.model.get(x.route).id !== x.id)
					const from = op.n < 5 && stale.length ? stale : registrations
					const reg = from[op.n % from.length]
					const live = reg.a.model.get(reg.route)
					reg.unregister()
					if (live?.id === reg.id) reg.a.model.delete(reg.route)
					else if (live) suspicious.add(`${reg.a.i}${reg.route}`)
				} else if (op.op === 'clear') {
					a.routes.clearRoutes()
					a.model.clear()
				} else if (op.op === 'config') {
					a.routes.config({ initialRoute: op.route })
					a.initial = op.route
				} else if (op.op === 'home') {
					// one known route after the other as the initial one
					const keys = [...a.model.keys()]
					if (!keys.length) continue
					a.home = (a.home ?? op.n) + 1
					a.initial = keys[a.home % keys.length]
					a.routes.config({ initialRoute: a.initial })
					a.routes.navigate()
					equal(calls, [a.model.get(a.initial).mark], `${where}: handlers run by navigating to the new initial route`)
					equal(errors().length, 0, `${where}: errors logged`)
				} else {
					const keys = [...a.model.keys()]
					if (op.op === 'navigateKnown' && !keys.length) continue
					const target = op.op === 'navigateKnown' ? (keys.find(k => op.n < 3 && suspicious.has(`${a.i}${k}`)) ?? keys[op.n % keys.length]) : op.route
					const effective = target ?? a.initial
					if (target === undefined) a.routes.navigate()
					else a.routes.navigate(target)
					const e = errors()
					const h = a.model.get(effective)
					equal(calls, h ? [h.mark] : [], `${where}: handlers run by navigating to ${JSON.stringify(effective)}`)
					if (h) equal(e.length, 0, `${where}: errors logged`)
					else ok(e.some(x => mentions(x, effective)), `${where}: an error naming the unknown route ${JSON.stringify(effective)}`)
					rec.label('navigates to a route after a stale unregister', suspicious.has(`${a.i}${effective}`))
					rec.label('unknown route', !h)
					rec.label('configured initial route', target === undefined && a.initial !== '/')
				}
				if (op.op !== 'home' && !op.op.startsWith('navigate')) equal(calls, [], `${where}: handlers run`)
				views(where)
			}
			rec.nontrivial(rec.labels.has('navigates to a route after a stale unregister'))
		}
	})

	const place = fc.constantFrom('/', '/a', '/a', '/b')
	const smallOp = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('register'), place }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('unregister'), n: fc.nat(3) }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('navigate'), place: fc.option(place, { nil: undefined, freq: 2 }) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('config'), place }) },
		{ weight: 2, arbitrary: fc.constant({ op: 'clear' }) }
	)
	await section('few routes', {
		arb: history(smallOp, { minLength: 4, maxLength: 40 }),
		runs: { quick: 3000, thorough: 100000 },
		rule: 'up to 40 registrations, unregistrations, navigations, configurations and clears, all of them equally likely, of three routes of one app, against a map of routes; non-trivial: handlers ran before and after a clear, and a configured route was navigated to.',
		async check(ops, rec) {
			const { routes } = await create(m.appT.justTestApp().with(m.routes.routesGizmo))
			const model = new Map()
			const undo = []
			let initial = '/'
			let calls = []
			let ran = 0
			let cleared = 0
			for (const [j, op] of ops.entries()) {
				const where = `step ${j} (${op.op} ${op.place ?? ''})`
				calls = []
				let expected = []
				if (op.op === 'register') {
					const unregister = routes.register(op.place, () => void calls.push(j))
					if (!model.has(op.place)) model.set(op.place, j)
					undo.unshift({ j, unregister, place: op.place })
				} else if (op.op === 'unregister') {
					const u = undo[op.n]
					if (!u) continue
					u.unregister()
					if (model.get(u.place) === u.j) model.delete(u.place)
				} else if (op.op === 'config') {
					routes.config({ initialRoute: op.place })
					initial = op.place
				} else if (op.op === 'clear') {
					if (ran > 0 && model.size) cleared = ran
					routes.clearRoutes()
					model.clear()
				} else {
					if (op.place === undefined) routes.navigate()
					else routes.navigate(op.place)
					const h = model.get(op.place ?? initial)
					if (h !== undefined) {
						expected = [h]
						ran++
						rec.label('configured', op.place === undefined && initial !== '/')
					}
				}
				equal(calls, expected, `${where}: handlers run`)
				for (const r of ['/', '/a', '/b']) same(routes.hasRoute(r), model.has(r), `${where}: hasRoute(${r})`)
				rec.nontrivial(cleared > 0 && ran > cleared && rec.labels.has('configured'))
			}
		}
	})
}
