import { history, ident, logId, other } from '../harness/gen.mjs'
import { create } from '../harness/apps.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, fail, ok, same } from '../harness/util.mjs'

export const assumptions = [
	'the log library writes each of `~!#$%^&*()=+[]{},|<>? in an id as a dash',
	'an id is used either for console or for non-console loggers, and always with the same options',
	'custom levels have names and values of their own'
]

const LEVELS = { emergency: 100, alert: 200, critical: 300, error: 400, warn: 500, notice: 600, info: 700, debug: 800, trace: 900, planck: Number.POSITIVE_INFINITY }
const CUSTOM = { silly: 750, spicy: 50, quiet: 1000, toString2: 450, écrire: 650 }

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', log: '@just-web/log' })
	const env = browserEnv()
	const m = sut.instantiate(env)
	const name = fc.oneof(fc.constantFrom('app', 'a', 'my app', '@scope/app', 'a:b', '日本', 'toString', 'x.y-z_1'), ident(['app', 'a:b']))
	const part = fc.oneof({ weight: 2, arbitrary: ident(['x', 'app', 'x:y']).filter(s => s !== '') }, { weight: 3, arbitrary: fc.constantFrom('x', 'plugin', 'x:y', '@just-web/x', 'constructor', 'with space', '日本', 'app', 'a', ':x', 'x:', 'X', ' x', 'x ', '::', 'x'.repeat(300)) })
	const nonEmpty = part
	const lvl = fc.constantFrom(0, ...Object.values(LEVELS), 650, 1000, 50)
	const level = fc.option(lvl, { nil: undefined })
	// a function would be called by the logger
	const args = fc.oneof({ weight: 15, arbitrary: fc.array(fc.oneof(fc.anything({ maxDepth: 1 }), other.filter(v => typeof v !== 'function')), { maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(other.filter(v => typeof v !== 'function'), { minLength: 5, maxLength: 40 }) })
	const logger = fc.oneof(
		{ weight: 2, arbitrary: fc.record({ via: fc.constant('app') }) },
		{ weight: 1, arbitrary: fc.record({ via: fc.constant('getLogger'), id: fc.constantFrom(undefined, '') }) },
		{ weight: 4, arbitrary: fc.record({ via: fc.constant('getLogger'), id: nonEmpty }) },
		{ weight: 3, arbitrary: fc.record({ via: fc.constant('nonConsole'), id: nonEmpty }) },
		{ weight: 2, arbitrary: fc.record({ via: fc.constant('prefixed'), prefix: part, id: fc.oneof(nonEmpty, fc.constant('')) }) },
		{ weight: 1, arbitrary: fc.record({ via: fc.constant('prefixedNonConsole'), prefix: part, id: fc.oneof(nonEmpty, fc.constant('')) }) }
	)
	const op = fc.record({
		logger,
		level,
		method: fc.oneof(
			{ weight: 8, arbitrary: fc.constantFrom(...Object.keys(LEVELS)) },
			{ weight: 2, arbitrary: fc.constantFrom(...Object.keys(CUSTOM)) },
			{ weight: 1, arbitrary: fc.constantFrom('count', 'on') }
		),
		onLevel: fc.constantFrom(...Object.keys(LEVELS)),
		args
	})

	await section('routing', {
		arb: fc.record({
			name,
			testApp: fc.boolean(),
			level,
			custom: fc.subarray(Object.keys(CUSTOM)),
			consoleReporter: fc.boolean(),
			ops: history(op, { minLength: 1, maxLength: 20 })
		}),
		runs: { quick: 2000, thorough: 40000 },
		rule: 'apps and test apps of various names, levels and custom levels with a memory and a console-like reporter; up to 20 entries through the app log, its loggers, non-console and prefixed loggers (some with a level of their own), every method including count and on, against the list of entries each reporter must have received; non-trivial: entries both passed and were held back, and both a plain and a non-console or prefixed logger wrote.',
		async check({ name, testApp, level, custom, consoleReporter, ops }, rec) {
			const memory = m.log.createMemoryLogReporter()
			const onConsole = Object.assign({}, m.log.createMemoryLogReporter({ id: 'as-console' }), { isConsoleReporter: true })
			const customLevels = Object.fromEntries(custom.map(c => [c, CUSTOM[c]]))
			const options = { reporters: consoleReporter ? [memory, onConsole] : [memory], ...(level === undefined ? {} : { logLevel: level }), ...(custom.length ? { customLevels } : {}) }
			const app = await create(testApp ? m.appT.justTestApp({ name, log: options }) : m.app.justApp({ name, log: options }))
			const general = level ?? (testApp ? LEVELS.debug : LEVELS.info)
			same(app.log.logLevel, general, 'app.log.logLevel')
			if (testApp) same(app.log.reporter, memory, 'app.log.reporter')
			let seenMemory = memory.logs.length
			let seenConsole = onConsole.logs.length
			// per id: kind, level, counter
			const known = new Map()
			for (const [i, op] of ops.entries()) {
				const l = op.logger
				const where = `step ${i}: ${l.via} ${JSON.stringify(l.prefix ?? '')} ${JSON.stringify(l.id ?? '')} ${op.method}`
				const nonConsole = l.via.startsWith('nonConsole') || l.via === 'prefixedNonConsole'
				const id = l.via === 'app' ? name : l.via === 'prefixed' || l.via === 'prefixedNonConsole' ? `${name}:${l.prefix}${l.id ? `:${l.id}` : ''}` : l.id ? `${name}:${l.id}` : name
				if (known.has(id) && known.get(id).nonConsole !== nonConsole) continue
				if (!known.has(id)) known.set(id, { nonConsole, level: id === name ? undefined : op.level, count: 0 })
				const k = known.get(id)
				const options = id !== name && k.level !== undefined ? { level: k.level } : undefined
				const logger =
					l.via === 'app'
						? app.log
						: l.via === 'getLogger'
							? app.log.getLogger(...(l.id === undefined && !options ? [] : [l.id, options]))
							: l.via === 'nonConsole'
								? app.log.getNonConsoleLogger(l.id, options)
								: l.via === 'prefixed'
									? m.app.createPrefixedGetLogger(app, l.prefix)(l.id, options)
									: m.app.createPrefixedGetNonConsoleLogger(app, l.prefix)(l.id, options)
				const limit = k.level ?? general
				const isCustom = Object.hasOwn(CUSTOM, op.method)
				if (isCustom && !custom.includes(op.method)) {
					ok(!Object.hasOwn(app.log, op.method), `${where}: a level that was not configured has a method`)
					continue
				}
				ok(typeof logger[op.method] === 'function', `${where}: the method exists`)
				let expected
				if (op.method === 'count') {
					logger.count(...op.args)
					expected = LEVELS.debug <= limit ? { level: LEVELS.debug, args: [++k.count, ...op.args] } : undefined
				} else if (op.method === 'on') {
					const lv = LEVELS[op.onLevel]
					let called = 0
					logger.on(op.onLevel, (write, current) => {
						called++
						same(current, limit, `${where}: level given to the callback`)
						write(...op.args)
					})
					same(called, lv <= limit ? 1 : 0, `${where}(${op.onLevel}): callback calls`)
					expected = lv <= limit ? { level: lv, args: op.args } : undefined
				} else {
					const lv = isCustom ? CUSTOM[op.method] : LEVELS[op.method]
					logger[op.method](...op.args)
					expected = lv <= limit ? { level: lv, args: op.args } : undefined
				}
				const check = (entries, expected, which) => {
					equal(entries.length, expected ? 1 : 0, `${where} (level ${limit}): entries in ${which}`)
					if (!expected) return
					const [e] = entries
					same(e.id, logId(id), `${where}: id in ${which}`)
					same(e.level, expected.level, `${where}: level in ${which}`)
					equal(e.args.length, expected.args.length, `${where}: number of arguments in ${which}`)
					expected.args.forEach((a, j) => same(e.args[j], a, `${where}: argument ${j} in ${which}`))
				}
				check(memory.logs.slice(seenMemory), expected, 'the memory reporter')
				check(onConsole.logs.slice(seenConsole), consoleReporter && !nonConsole ? expected : undefined, 'the console reporter')
				seenMemory = memory.logs.length
				seenConsole = onConsole.logs.length
				rec.label('passed', !!expected)
				rec.label('held back', !expected)
				rec.label('own level decides', k.level !== undefined && (expected !== undefined) !== (CUSTOM[op.method] ?? LEVELS[op.method] ?? 800) <= general)
				rec.label('plain', !nonConsole && l.via !== 'prefixed')
				rec.label('non-console or prefixed', nonConsole || l.via === 'prefixed')
				rec.label('custom', isCustom)
				rec.label(l.via)
			}
			rec.nontrivial(['passed', 'held back', 'plain', 'non-console or prefixed'].every(l => rec.labels.has(l)))
		}
	})

	await section('console', {
		arb: fc.record({ name, level, via: fc.constantFrom('app', 'logger', 'nonConsole'), id: nonEmpty, method: fc.constantFrom(...Object.keys(LEVELS)), text: fc.string({ minLength: 1, maxLength: 6 }).filter(s => !s.includes('%')) }),
		runs: { quick: 500, thorough: 5000 },
		rule: 'apps without reporters of their own: what they log reaches the console of the page with its arguments exactly when the level allows it, and non-console loggers never do; non-trivial: the entry passes.',
		async check({ name, level, via, id, method, text }, rec) {
			const app = await create(m.app.justApp(level === undefined ? { name } : { name, log: { logLevel: level } }))
			const marker = { text }
			const from = env.console.calls.length
			const logger = via === 'app' ? app.log : via === 'logger' ? app.log.getLogger(id) : app.log.getNonConsoleLogger(id)
			logger[method](marker, text)
			const calls = env.console.calls.slice(from)
			const passes = LEVELS[method] <= (level ?? LEVELS.info) && via !== 'nonConsole'
			equal(calls.length, passes ? 1 : 0, `${via} ${method} at level ${level}: calls of the console`)
			if (passes) {
				const [, args] = calls[0]
				ok(args.some(a => a === marker), 'the object logged is given to the console')
			}
			env.console.calls.length = 0
			rec.nontrivial(passes)
		}
	})
}
