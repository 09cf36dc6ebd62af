import { text } from '../harness/gen.mjs'
import { create } from '../harness/apps.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, ok, same, show } from '../harness/util.mjs'

export const assumptions = ['@formatjs/intl itself is right: its createIntl is the reference']

export default async function ({ section }) {
	const sut = await buildSut({ appT: '@just-web/app/testing', formatjs: '@just-web/formatjs' })
	const env = browserEnv()
	const m = sut.instantiate(env)
	const locale = fc.constantFrom('en', 'en-US', 'de', 'fr-FR', 'ja', 'xx-YY')
	const id = fc.constantFrom('hello', 'count', 'missing', 'broken', 'toString')
	const MESSAGES = { hello: 'Hello {name}', count: '{n, plural, one {# item} other {# items}}', broken: '{unclosed', toString: 'text' }
	const app = fc.record({
		locale,
		messages: fc.option(fc.subarray(Object.keys(MESSAGES)), { nil: undefined }),
		defaultLocale: fc.option(locale, { nil: undefined }),
		timeZone: fc.option(fc.constantFrom('UTC', 'Asia/Tokyo'), { nil: undefined }),
		handles: fc.integer({ min: 0, max: 3 }).map(n => n > 0),
		cache: fc.constantFrom('none', 'undefined', 'own', 'shared')
	})
	const use = fc.record({
		app: fc.nat(2),
		what: fc.oneof(
			fc.record({ op: fc.constant('formatMessage'), args: fc.tuple(fc.record({ id, defaultMessage: fc.option(fc.constant('Default {name}'), { nil: undefined }) }), fc.record({ name: text, n: fc.nat(3) })) }),
			fc.record({ op: fc.constant('formatNumber'), args: fc.tuple(fc.double({ noNaN: true, min: -1e6, max: 1e6 })) }),
			fc.record({ op: fc.constant('formatDate'), args: fc.tuple(fc.integer({ min: 0, max: 2 ** 41 })) }),
			fc.record({ op: fc.constant('formatTime'), args: fc.tuple(fc.integer({ min: 0, max: 2 ** 41 })) }),
			fc.record({ op: fc.constant('formatList'), args: fc.tuple(fc.array(fc.constantFrom('a', 'b', 'c'), { maxLength: 3 })) }),
			fc.record({ op: fc.constant('formatRelativeTime'), args: fc.tuple(fc.integer({ min: -5, max: 5 }), fc.constantFrom('day', 'hour')) }),
			fc.record({ op: fc.constant('formatDisplayName'), args: fc.tuple(fc.constantFrom('de', 'JP'), fc.constantFrom({ type: 'language' }, { type: 'region' })) })
		)
	})
	await section('intl', {
		arb: fc.record({ apps: fc.array(app, { minLength: 1, maxLength: 3 }), uses: fc.array(use, { minLength: 1, maxLength: 10 }) }),
		runs: { quick: 500, thorough: 6000 },
		rule: 'up to 3 apps with generated configurations and caches (none, own, shared) and up to 10 formatting calls, each compared with createIntl of @formatjs/intl given an equal configuration, including the errors reported to onError or, without it, on the console; given caches must be the ones that are filled; non-trivial: two apps with different locales.',
		async check({ apps, uses }, rec) {
			const shared = m.formatjs.createIntlCache()
			const sharedRef = m.formatjs.createIntlCache()
			const subjects = []
			for (const a of apps) {
				const errors = [[], []]
				const config = i => ({
					locale: a.locale,
					...(a.handles ? { onError: e => errors[i].push(e.code), onWarn: () => {} } : {}),
					...(a.messages ? { messages: Object.fromEntries(a.messages.map(k => [k, MESSAGES[k]])) } : {}),
					...(a.defaultLocale ? { defaultLocale: a.defaultLocale } : {}),
					...(a.timeZone ? { timeZone: a.timeZone } : {})
				})
				const own = m.formatjs.createIntlCache()
				const options = { config: config(0) }
				if (a.cache === 'undefined') options.cache = undefined
				if (a.cache === 'own') options.cache = own
				if (a.cache === 'shared') options.cache = shared
				const made = await create(m.appT.justTestApp().with(m.formatjs.formatJSGizmoFn(options)))
				const ref = m.formatjs.createIntl(config(1), a.cache === 'shared' ? sharedRef : undefined)
				subjects.push({ intl: made.formatjs.intl, ref, errors, own, a, used: 0 })
			}
			for (const { app: n, what } of uses) {
				const s = subjects[n % subjects.length]
				s.used++
				env.console.calls.length = 0
				const got = s.intl[what.op](...what.args)
				const said = env.console.calls.splice(0)
				equal(got, s.ref[what.op](...what.args), `${what.op}(${show(what.args)}) with ${show(s.a)}`)
				const expected = env.console.calls.splice(0)
				const short = calls => calls.map(([level, args]) => [level, String(args[0]?.message ?? args[0]).split('\n')[0]])
				equal(short(said), short(expected), `what ${what.op} says on the console with ${show(s.a)}`)
				rec.label('errors on the console', said.length > 0)
				equal(s.errors[0], s.errors[1], `errors reported by ${what.op} with ${show(s.a)}`)
			}
			const filled = c => Object.values(c).reduce((n, x) => n + Object.keys(x).length, 0)
			equal(filled(shared), filled(sharedRef), 'entries of the shared cache')
			for (const s of subjects) {
				same(s.intl.locale, s.ref.locale, 'locale')
				equal(s.intl.timeZone, s.ref.timeZone, 'timeZone')
				equal(Object.keys(s.intl.messages), Object.keys(s.ref.messages), 'messages')
				if (s.a.cache !== 'own') ok(filled(s.own) === 0, 'a cache not given stays empty')
			}
			const ownUsed = subjects.filter(s => s.a.cache === 'own' && uses.some(u => subjects[u.app % subjects.length] === s && u.what.op === 'formatNumber'))
			for (const s of ownUsed) ok(filled(s.own) > 0, 'the given cache is used')
			for (const a of apps) rec.label(`cache ${a.cache}`)
			rec.nontrivial(new Set(apps.map(a => a.locale)).size > 1)
		}
	})
}
