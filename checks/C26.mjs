import { create } from '../harness/apps.mjs'
import { text } from '../harness/gen.mjs'
import { browserEnv, seededMath } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { ok, same } from '../harness/util.mjs'

export const assumptions = ['the random source returns numbers in [0, 1) as Math.random() does']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', id: '@just-web/id', idT: '@just-web/id/testing' })
	const quiet = { reporters: [] }
	const how = fc.constantFrom('justApp', 'justTestApp', 'idGizmo', 'idTestGizmo', 'default name', 'default idTestGizmo')
	const start = (m, how, name) => {
		if (how === 'justApp') return create(m.app.justApp({ name, log: quiet }))
		if (how === 'justTestApp') return create(m.appT.justTestApp({ name }))
		if (how === 'idGizmo') return create(m.app.incubate().with(m.id.idGizmoFn({ name })))
		if (how === 'idTestGizmo') return create(m.app.incubate().with(m.idT.idTestGizmoFn({ name })))
		if (how === 'default idTestGizmo') return create(m.app.incubate().with(m.idT.idTestGizmoFn()))
		return create(m.appT.justTestApp())
	}
	const digits = '0123456789abcdefghijklmnopqrstuvwxyz'
	// numbers with a short expansion in base 36, binary fractions, extremes, ordinary numbers
	const random = fc.oneof(
		fc.constantFrom(0, 0.5, 0.25, 1 / 36, 35 / 36, 1 - 2 ** -53, 2 ** -53, 2 ** -1074, Number.EPSILON, 1e-7, 1e-10, 1 / 3),
		fc.tuple(fc.integer({ min: 1, max: 5 }), fc.nat()).map(([n, x]) => (x % 36 ** n) / 36 ** n),
		fc.tuple(fc.integer({ min: 1, max: 53 }), fc.double({ min: 0, max: 1, noNaN: true, maxExcluded: true })).map(([n, x]) => Math.floor(x * 2 ** n) / 2 ** n),
		fc.double({ min: 0, max: 1, noNaN: true, maxExcluded: true }).map(Math.abs)
	)

	const draws = { list: [], i: 0 }
	const MathImpl = Object.create(Math)
	MathImpl.random = () => draws.list[draws.i++ % draws.list.length]
	const stubbed = sut.instantiate(browserEnv({ MathImpl }))
	await section('shape', {
		arb: fc.record({ how, name: text, randoms: fc.array(random, { minLength: 1, maxLength: 4 }) }),
		runs: { quick: 5000, thorough: 200000 },
		rule: 'one app on a random source that returns generated numbers (short base-36 and binary expansions, tiny and extreme ones); the id must be 15 lower-case letters and digits and the name the one given; non-trivial: the first two draws have expansions of less than 15 characters in total.',
		async check({ how, name, randoms }, rec) {
			draws.list = randoms
			draws.i = 0
			const app = await start(stubbed, how, name)
			ok(typeof app.id === 'string' && app.id.length === 15 && [...app.id].every(c => digits.includes(c)), () => `id ${JSON.stringify(app.id)} of an app made with ${how} on ${randoms}`)
			same(app.name, how.startsWith('default') ? 'test' : name, `name (${how})`)
			const expansion = randoms.concat(randoms).slice(0, 2).map(r => r.toString(36).slice(2)).join('')
			rec.label('short', expansion.length < 15)
			rec.label('zero', randoms.includes(0))
			rec.label(how)
			rec.nontrivial(expansion.length < 15)
		}
	})

	await section('reuse', {
		arb: fc.record({
			seed: fc.nat(),
			how: fc.constantFrom('justApp', 'justTestApp', 'idGizmo', 'idTestGizmo', 'justApp then gizmo'),
			name: text,
			extra: fc.dictionary(fc.constantFrom('id', 'other', 'version', 'toString'), fc.constantFrom('given', '', 1), { maxKeys: 2 }),
			count: fc.integer({ min: 2, max: 5 }),
			together: fc.boolean()
		}),
		runs: { quick: 800, thorough: 20000 },
		rule: 'several apps created (one after another or at the same time) from one incubator or with one gizmo object, whose options may carry further fields (also one called id): every app has an id of its own, of 15 characters, and the name; non-trivial: at least three apps.',
		async check({ seed, how, name, extra, count, together }, rec) {
			const m = sut.instantiate(browserEnv({ MathImpl: seededMath(seed) }))
			const options = { ...extra, name }
			let make
			if (how === 'justApp') {
				const inc = m.app.justApp({ ...options, log: quiet })
				make = () => inc
			} else if (how === 'justTestApp') {
				const inc = m.appT.justTestApp(options)
				make = () => inc
			} else if (how === 'justApp then gizmo') {
				const inc = m.app.justApp({ ...options, log: quiet }).with({ create: () => ({ more: 1 }) })
				make = () => inc
			} else {
				const gizmo = how === 'idGizmo' ? m.id.idGizmoFn(options) : m.idT.idTestGizmoFn(options)
				make = () => m.app.incubate().with(gizmo)
			}
			const apps = []
			if (together) apps.push(...(await Promise.all(Array.from({ length: count }, () => create(make())))))
			else for (let i = 0; i < count; i++) apps.push(await create(make()))
			for (const app of apps) {
				ok(typeof app.id === 'string' && app.id.length === 15 && [...app.id].every(c => digits.includes(c)), () => `id ${JSON.stringify(app.id)} of an app made with ${how} and ${JSON.stringify(options)}`)
				same(app.name, name, `name (${how})`)
			}
			same(new Set(apps.map(a => a.id)).size, count, `number of different ids of ${count} apps from one ${how}`)
			rec.label(how)
			rec.label('options with an id', 'id' in extra)
			rec.nontrivial(count >= 3)
		}
	})

	await section('distinct', {
		arb: fc.record({ seed: fc.nat(), count: fc.integer({ min: 2, max: 60 }), how: fc.array(how, { minLength: 1, maxLength: 3 }), nested: fc.boolean() }),
		runs: { quick: 100, thorough: 2000 },
		rule: 'up to 60 apps made one after another on a pseudo-random source of its own seed have pairwise different ids, all of 15 characters, and ids do not change afterwards; non-trivial: at least 10 apps.',
		async check({ seed, count, how }, rec) {
			const m = sut.instantiate(browserEnv({ MathImpl: seededMath(seed) }))
			const ids = new Set()
			const apps = []
			for (let i = 0; i < count; i++) {
				const app = await start(m, how[i % how.length], `app ${i}`)
				ok(!ids.has(app.id), () => `app ${i} has the id ${app.id} of an earlier app (seed ${seed})`)
				ids.add(app.id)
				apps.push([app, app.id])
			}
			for (const [app, id] of apps) same(app.id, id, 'id of an app after others were created')
			rec.nontrivial(count >= 10)
		}
	})
}
