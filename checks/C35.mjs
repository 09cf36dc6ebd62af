import { history } from '../harness/gen.mjs'
import { fc } from '../harness/sut.mjs'
import { equal } from '../harness/util.mjs'
import { buildWorld } from '../harness/world.mjs'

export const assumptions = [
	'a gizmo comes after those it requires or makes use of when they are there (commands after nothing, preferences and language after keyboard, commands and browser, page key bindings after keyboard, commands and os)',
	'of two gizmos that provide the same field the order is kept; what is logged while the app is being created is not compared'
]

export default async function ({ section }) {
	const { appArb, step, run, parts } = await buildWorld()

	await section('orders', {
		arb: fc.record({
			ua: fc.constantFrom('mac', 'linux'),
			app: appArb,
			order: fc.shuffledSubarray(parts, { minLength: parts.length, maxLength: parts.length }),
			options: fc.boolean(),
			steps: history(step, { minLength: 4, maxLength: 30 })
		}),
		runs: { quick: 1000, thorough: 20000 },
		rule: 'one app with any set of the gizmos, composed in two orders that respect what each gizmo needs; up to 30 uses (preferences, commands, bindings, language, routes, events, states, log), page errors and key presses must give the same results, logs, storage and announcements; non-trivial: the orders differ, and at least 4 gizmos and 5 kinds of use.',
		async check({ ua, app, order, options, steps }, rec) {
			const bound = app.keyboard === 'bound' ? 0 : -1
			const play = (a, r) => run({ ua, apps: [a], names: ['app'], sharedGizmos: true, options, ready: true, steps }, bound, undefined, r)
			const [one] = await play(app)
			const [two] = await play({ ...app, order }, rec)
			// what is logged and announced during the creation comes in the order of the gizmos
			for (const t of [one, two]) t[0].logs = t[0].calls = []
			const normal = t => ({ ...t, handlers: t.handlers?.toSorted() })
			for (const [i, t] of one.entries()) equal(normal(two[i]), normal(t), `step ${t.step} of an app composed as ${two.order} versus as ${one.order}`)
			const differ = String(one.order) !== String(two.order)
			rec.label('orders differ', differ)
			rec.nontrivial(differ && one.order.length > 3 && rec.labels.size > 5)
		}
	})
}
