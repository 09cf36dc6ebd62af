import { appName, logId } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, same, settled, turn } from '../harness/util.mjs'

export const assumptions = ['gizmos do not replace `id` or `name`', 'at most one step fails', 'a usable log has an `info` method']

const LEVELS = { none: 0, error: 400, warn: 500, notice: 600, info: 700, debug: 800, planck: Number.POSITIVE_INFINITY }

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', log: '@just-web/log' })
	const env = browserEnv()
	const m = sut.instantiate(env)
	const override = fc.constantFrom('usable', 'usable class', 'undefined', 'null', 'empty', 'info is text', 'text', 'number', 'other app', 'no info')
	await section('creation', {
		arb: fc.record({
			test: fc.boolean(),
			name: appName(['app', 'x', '日本']),
			level: fc.constantFrom(undefined, ...Object.values(LEVELS)),
			steps: fc.array(
				fc.oneof(
					{ weight: 4, arbitrary: fc.constant({ op: 'gizmo' }) },
					{ weight: 1, arbitrary: fc.record({ op: fc.constant('override'), override, merge: fc.boolean() }) }
				),
				{ maxLength: 5 }
			),
			init: fc.boolean(),
			start: fc.boolean(),
			failing: fc.option(fc.record({ at: fc.nat(6), how: fc.constantFrom('throw', 'reject', 'start throws', 'start rejects'), late: fc.boolean() }), { freq: 2 })
		}),
		runs: { quick: 3000, thorough: 60000 },
		rule: 'programs of up to 5 gizmos where some replace the log by usable and unusable values, at every log level, with and without init and start, and a failing create, start function, init or start at any place; every log involved is searched for reports of the creation; non-trivial: the log is replaced, or a step fails that is not the first.',
		async check({ test, name, level, steps, init, start, failing }, rec) {
			const memory = m.log.createMemoryLogReporter()
			const other = await m.appT.justTestApp({ name: 'other' }).create()
			const otherFrom = other.log.reporter.logs.length
			env.console.calls.length = 0
			const order = []
			const options = { reporters: [memory], ...(level === undefined ? {} : { logLevel: level }) }
			let inc = test ? m.appT.justTestApp({ name, log: options }) : m.app.justApp({ name, log: options })
			const general = level ?? (test ? LEVELS.debug : LEVELS.info)
			const reports = []
			const makeLog = kind => {
				if (kind === 'usable') return { info: (...args) => void reports.push(args) }
				if (kind === 'usable class')
					return new (class {
						#own = true
						info(...args) {
							if (this.#own) reports.push(args)
						}
					})()
				if (kind === 'undefined') return undefined
				if (kind === 'null') return null
				if (kind === 'empty') return {}
				if (kind === 'info is text') return { info: 'text' }
				if (kind === 'text') return 'log'
				if (kind === 'number') return 0
				if (kind === 'no info') return { error() {}, warn() {} }
				return other.log
			}
			const error = new Error('failing step')
			// where may it fail: each gizmo step, then init, then start
			const places = steps.map((s, i) => (s.op === 'gizmo' ? i : -1)).filter(i => i >= 0)
			if (init) places.push('init')
			if (start) places.push('start')
			const at = failing && places.length ? places[failing.at % places.length] : undefined
			const failNow = async (sync = false) => {
				if (failing.late) await turn()
				throw error
			}
			let log
			let replaced
			for (const [i, s] of steps.entries()) {
				if (s.op === 'override') {
					log = makeLog(s.override)
					replaced = s.override
					const value = { log }
					inc = s.merge ? inc.merge(value) : inc.with({ create: async () => value })
					continue
				}
				const bad = at === i
				inc = inc.with({
					create(ctx) {
						order.push(`create ${i}`)
						if (bad && failing.how === 'throw') throw error
						if (bad && failing.how === 'reject') return failNow()
						return [
							{ [`f${i}`]: i },
							() => {
								order.push(`start ${i}`)
								if (bad && failing.how === 'start throws') throw error
								if (bad) return failNow()
							}
						]
					}
				})
			}
			if (init)
				inc = inc.init(async () => {
					order.push('init')
					if (at === 'init') await failNow()
				})
			const starter = start
				? async ctx => {
						order.push('app start')
						ok(reportsNow().length === 0, 'nothing is reported before start ran')
						if (at === 'start') await failNow()
					}
				: undefined
			// everything that was logged anywhere and talks about a creation
			const reportsNow = () => [
				...reports.map(args => ({ where: 'override', args })),
				...memory.logs.filter(e => e.args.some(a => String(a).includes('created'))).map(e => ({ where: 'own', ...e })),
				...other.log.reporter.logs.slice(otherFrom).map(e => ({ where: 'other', ...e })),
				...env.console.calls.map(([, args]) => ({ where: 'console', args }))
			]
			const s = await settled(starter ? inc.create(starter) : inc.create(), 'app creation')
			const all = reportsNow()
			if (at !== undefined) {
				if (s.ok) fail(`create succeeded although ${at} failed (${failing.how})`)
				same(s.error, error, 'the error create rejects with')
				equal(all, [], 'reports of a creation that failed')
				rec.label('fails late', order.length > 1)
				rec.label(`fails: ${typeof at === 'number' ? failing.how : at}`)
				rec.nontrivial(order.length > 1)
				return
			}
			if (!s.ok) fail(`create rejected: ${s.error?.stack ?? s.error}`)
			const app = s.value
			if (replaced) same(app.log, log, 'the log of the app')
			const usable = replaced === undefined ? undefined : ['usable', 'usable class', 'other app'].includes(replaced)
			// which log the report belongs to, and whether that log lets it pass
			const where = usable ? (replaced === 'other app' ? 'other' : 'override') : 'own'
			// a logger built from the options of a test app has the level those options ended up with
			const passes = where === 'own' ? general >= LEVELS.info : true
			equal(all.map(r => r.where), passes ? [where] : [], `logs that report the creation (log replaced by ${replaced}, level ${general})`)
			if (passes) {
				const [r] = all
				ok(r.args.some(a => String(a).includes(app.id)), 'the report names the app id')
				if (where === 'own') {
					same(r.id, logId(name), 'logger of the report')
					same(r.level, LEVELS.info, 'level of the report')
					same(memory.logs.at(-1).args, r.args, 'the report is the last entry')
				}
			}
			rec.label(`replaced: ${replaced}`, replaced !== undefined)
			rec.label('held back', !passes)
			rec.nontrivial(replaced !== undefined)
		}
	})

	await section('several apps from one incubator', {
		arb: fc.record({
			test: fc.boolean(),
			times: fc.integer({ min: 1, max: 5 }),
			at: fc.array(fc.nat(4), { maxLength: 5 }),
			failing: fc.subarray([0, 1, 2, 3, 4]),
			together: fc.boolean(),
			start: fc.boolean()
		}),
		runs: { quick: 800, thorough: 10000 },
		rule: 'one incubator, extended between creations or not, creates up to 5 apps one after the other or at the same time, some creations fail; each app that was created is reported once, with its own id, and no other; non-trivial: at least two apps were created and one creation failed.',
		async check({ test, times, at, failing, together, start }, rec) {
			const memory = m.log.createMemoryLogReporter()
			const options = { reporters: [memory] }
			let inc = test ? m.appT.justTestApp({ log: options }) : m.app.justApp({ name: 'test', log: options })
			let n = 0
			inc = inc.with({
				async create() {
					const mine = n++
					await turn()
					if (!start && failing.includes(mine)) throw new Error('this one fails')
					return { mine }
				}
			})
			const create = () =>
				settled(
					start
						? inc.create(async app => {
								await turn()
								if (failing.includes(app.mine)) throw new Error('this one fails')
							})
						: inc.create(),
					'app creation'
				)
			let all
			if (together) all = await Promise.all(Array.from({ length: times }, create))
			else {
				all = []
				for (let i = 0; i < times; i++) {
					if (at.includes(i)) inc = inc.with({ create: async () => ({ [`f${i}`]: i }) })
					all.push(await create())
				}
			}
			all.forEach((s, i) => same(s.ok, !failing.includes(i), `creation ${i} succeeds`))
			const apps = all.filter(s => s.ok).map(s => s.value)
			const reports = memory.logs.filter(e => e.level === LEVELS.info && e.args.some(a => String(a).includes('created')))
			equal(reports.length, apps.length, 'number of reports')
			for (const app of apps) equal(reports.filter(e => e.args.some(a => String(a).includes(app.id))).length, 1, `reports of the app ${app.id}`)
			rec.label('together', together && times > 1)
			rec.nontrivial(apps.length > 1 && apps.length < times)
		}
	})
}
