import { create } from '../harness/apps.mjs'
import { confusable, history, text } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { equal, same } from '../harness/util.mjs'

export const assumptions = ['handlers are distinct functions that neither throw nor change the language or the handlers']

export const language = fc.oneof({ weight: 5, arbitrary: fc.constantFrom('en', 'en-US', 'de', 'ja', '') }, { weight: 1, arbitrary: confusable }, { weight: 1, arbitrary: text })

export default async function ({ section }) {
	const sut = await buildSut({ appT: '@just-web/app/testing', commands: '@just-web/commands', keyboard: '@just-web/keyboard', i18n: '@just-web/i18n' })
	const m = sut.instantiate(browserEnv())
	const { setLanguageCommand } = m.i18n
	const n = fc.nat(2)
	const op = fc.oneof(
		{ weight: 4, arbitrary: fc.record({ op: fc.constant('set'), n, language }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('invoke'), n, language }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('call'), language }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('register'), n }) }
	)
	await section('histories', {
		arb: fc.record({
			apps: fc.array(fc.record({ language, commands: fc.constantFrom('none', 'commands', 'keyboard') }), { minLength: 1, maxLength: 3 }),
			ops: history(op, { minLength: 1, maxLength: 16 })
		}),
		runs: { quick: 2000, thorough: 50000 },
		rule: 'one to three apps (with and without commands and keyboard), up to 16 language changes by API, by command id or by calling the command, and handler registrations in between, against one language and one handler list per app; non-trivial: an app with two or more handlers changes its language twice, and the command is used.',
		async check({ apps, ops }, rec) {
			let events = []
			const running = []
			for (const [i, a] of apps.entries()) {
				let inc = m.appT.justTestApp({ name: `app${i}` })
				if (a.commands === 'keyboard') inc = inc.with(m.keyboard.keyboardGizmoFn())
				if (a.commands !== 'none') inc = inc.with(m.commands.commandsGizmoFn())
				const app = await create(inc.with(m.i18n.i18nGizmoFn({ language: a.language })))
				running.push({ app, language: a.language, handlers: 0, changes: 0, commands: a.commands !== 'none' })
			}
			const latest = running.filter(r => r.commands).at(-1)
			const views = where => running.forEach((r, i) => same(r.app.i18n.getLanguage(), r.language, `${where}: language of app ${i}`))
			views('initially')
			for (const [j, op] of ops.entries()) {
				const r = op.op === 'call' ? latest : running[op.n % running.length]
				const where = `step ${j}: ${op.op}`
				events = []
				if (op.op === 'register') {
					const h = r.handlers++
					r.app.i18n.languageChanged((...args) => {
						events.push({ app: running.indexOf(r), h, args, seen: r.app.i18n.getLanguage() })
					})
					equal(events, [], `${where}: handlers called`)
					continue
				}
				if (!r || (op.op !== 'set' && !r.commands)) continue
				const old = r.language
				r.language = op.language
				if (op.op === 'set') r.app.i18n.setLanguage(op.language)
				else if (op.op === 'invoke') r.app.commands.handlers.invoke('@just-web/i18n/set-language', op.language)
				else setLanguageCommand(op.language)
				equal(
					events,
					Array.from({ length: r.handlers }, (_, h) => ({ app: running.indexOf(r), h, args: [op.language, old], seen: op.language })),
					`${where}: handler calls`
				)
				views(where)
				rec.label('by command', op.op !== 'set' && r.handlers > 0)
				rec.label('second change with handlers', r.handlers > 1 && ++r.changes > 1)
			}
			rec.nontrivial(rec.labels.has('second change with handlers') && rec.labels.has('by command'))
		}
	})
}
