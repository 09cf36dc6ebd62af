import { appName, history } from '../harness/gen.mjs'
import { fc } from '../harness/sut.mjs'
import { equal } from '../harness/util.mjs'
import { buildWorld } from '../harness/world.mjs'

export const assumptions = [
	'apps with browser preferences or a browser language have different names without a colon',
	'at most one app of a page binds keys to the page',
	'a command object connected to several apps is given a handler for each, and is called through the apps; emitters and histories are not shared; the page history is not used (all apps of a page share it)'
]

const NAMES = ['app', 'app2', '日本', 'ap', 'App']

export default async function ({ section }) {
	const { appArb, step, run } = await buildWorld()
	await section('isolation', {
		arb: fc.record({
			ua: fc.constantFrom('mac', 'linux'),
			apps: fc.array(appArb, { minLength: 2, maxLength: 3 }),
			names: fc.uniqueArray(appName(NAMES), { minLength: 3, maxLength: 3 }),
			sharedGizmos: fc.boolean(),
			options: fc.boolean(),
			ready: fc.boolean(),
			steps: history(step, { minLength: 4, maxLength: 40 })
		}),
		runs: { quick: 700, thorough: 12000 },
		rule: 'two or three apps with any set of the gizmos (made from the same gizmo objects and option objects, or from ones of their own) on one page; a schedule of up to 40 steps that take each creation further gizmo by gizmo, use the apps (preferences, commands, bindings, language, routes, events, states, log) and raise page errors and key presses; everything each app returns, logs, stores and announces must equal what the same app gives on a page where the steps of the other apps are left out; non-trivial: at least two apps are used, and the creation or the uses of two apps overlap.',
		async check(input, rec) {
			const { apps, steps } = input
			const bound = apps.findIndex(a => a.keyboard === 'bound')
			const together = await run(input, bound, undefined, rec)
			for (let i = 0; i < apps.length; i++) {
				const alone = await run(input, bound, i)
				const [a, b] = [together[i], alone[i]]
				const name = input.names[i]
				for (let j = 0; j < Math.max(a.length, b.length); j++) equal(a[j], b[j], `app ${i} (${name}) with others on the page versus alone, step ${b[j]?.step ?? a[j]?.step}`)
			}
			const order = steps.filter(s => s.op === 'use' || s.op === 'advance').map(s => s.app % apps.length)
			const spans = apps.map((_, i) => [order.indexOf(i), order.lastIndexOf(i)]).filter(([f]) => f >= 0)
			const overlap = spans.some(([f, l], i) => spans.some(([g], j) => i !== j && f < g && g < l))
			rec.label('overlap', overlap)
			rec.nontrivial(overlap && rec.labels.has('two apps used'))
		}
	})
}
