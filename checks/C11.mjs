import { create, logTail, mentions } from '../harness/apps.mjs'
import { PROTO_NAMES, history, ident } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, ok, same } from '../harness/util.mjs'

export const assumptions = ['the contributions given as options have distinct ids']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', commands: '@just-web/commands', keyboard: '@just-web/keyboard' })
	const m = sut.instantiate(browserEnv())
	const { logLevels } = m.app
	const contribution = fc.record(
		{
			id: ident(['a', 'b', 'c', 'a.b']),
			title: fc.string({ maxLength: 4 }),
			description: fc.string({ maxLength: 4 }),
			commandPalette: fc.constant(false),
			category: fc.string({ maxLength: 3 }),
			icon: fc.record({ light: fc.string({ maxLength: 3 }), dark: fc.string({ maxLength: 3 }) }, { requiredKeys: ['light'] })
		},
		{ requiredKeys: ['id'] }
	)
	// mostly a few, sometimes many
	const batchOf = c => fc.oneof({ weight: 30, arbitrary: fc.array(c, { maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(c, { maxLength: 300, size: 'max' }) })
	await section('batches', {
		arb: fc.record({
			options: fc.option(fc.oneof({ weight: 30, arbitrary: fc.uniqueArray(contribution, { selector: c => c.id, maxLength: 4 }) }, { weight: 1, arbitrary: fc.uniqueArray(contribution, { selector: c => c.id, maxLength: 300, size: 'max' }) })),
			ops: history(
				fc.oneof(
					{ weight: 4, arbitrary: fc.record({ op: fc.constant('add'), batch: batchOf(contribution) }) },
					{ weight: 1, arbitrary: fc.record({ op: fc.constant('connect'), c: contribution }) }
				),
				{ maxLength: 8 }
			)
		}),
		runs: { quick: 2500, thorough: 50000 },
		rule: 'options, then batches of 0 to 4 contributions and commands being connected, ids colliding within and across batches, against a map that keeps the first; non-trivial: a duplicate within a batch next to a new id, and a duplicate of an earlier step.',
		async check({ options, ops }, rec) {
			const app = await create(
				m.appT.justTestApp().with(m.commands.commandsGizmoFn(options ? { contributions: options.map(clone) } : undefined))
			)
			const reg = app.commands.contributions
			const log = logTail(app)
			const model = new Map((options ?? []).map(c => [c.id, clone(c)]))
			const views = where => {
				const got = reg.get()
				equal(Reflect.ownKeys(got).sort(), [...model.keys()].sort(), `${where}: ids`)
				for (const [k, v] of model) equal(got[k], v, `${where}: contribution ${JSON.stringify(k)}`)
				equal(reg.keys().sort(), [...model.keys()].sort(), `${where}: keys()`)
				equal(reg.size(), model.size, `${where}: size()`)
				equal(reg.values(), reg.keys().map(k => model.get(k)), `${where}: values()`)
				for (const k of [...PROTO_NAMES, 'a', 'zz']) same(reg.has(k), model.has(k), `${where}: has(${k})`)
			}
			views('initially')
			for (const [i, op] of ops.entries()) {
				const where = `step ${i} (${op.op})`
				const batch = op.op === 'add' ? op.batch : [op.c]
				const before = new Set(model.keys())
				const dups = []
				for (const c of batch) {
					if (model.has(c.id)) {
						dups.push(c.id)
						rec.label('duplicate of an earlier step', before.has(c.id))
						rec.label('duplicate inside the batch', !before.has(c.id))
					} else model.set(c.id, clone(c))
				}
				if (op.op === 'add') reg.add(...batch.map(clone))
				else m.commands.command(clone(op.c)).connect(app, () => {})
				const errors = log.next().filter(e => e.level <= logLevels.error)
				equal(errors.length, dups.length, `${where}: number of errors logged for duplicates ${JSON.stringify(dups)}`)
				dups.forEach(id => ok(errors.filter(e => mentions(e, id)).length >= dups.filter(d => d === id).length, `${where}: an error naming ${JSON.stringify(id)} for each duplicate`))
				rec.label('new id next to a duplicate', dups.length > 0 && dups.length < batch.length)
				views(where)
			}
			rec.nontrivial(rec.labels.has('duplicate of an earlier step') && rec.labels.has('new id next to a duplicate'))
		}
	})
}
