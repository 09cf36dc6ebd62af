import { create, logTail, mentions } from '../harness/apps.mjs'
import { PROTO_NAMES, history, ident, userAgent } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, ok, same } from '../harness/util.mjs'

export const assumptions = ['the key bindings given as options have distinct ids']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', keyboard: '@just-web/keyboard', os: '@just-web/os', osT: '@just-web/os/testing' })
	const m = sut.instantiate(browserEnv())
	const { logLevels } = m.app
	const key = fc.constantFrom('ctrl+a', 'cmd+b', 'x', '', 'g i')
	const binding = fc.record({ id: ident(['a', 'b', 'c', 'a.b']), key: fc.option(key, { nil: undefined }), mac: fc.option(key, { nil: undefined }) }, { requiredKeys: ['id'] })

	// mostly a few, sometimes many
	const batch = fc.oneof({ weight: 30, arbitrary: fc.array(binding, { maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(binding, { maxLength: 300, size: 'max' }) })
	await section('batches', {
		arb: fc.record({ options: fc.option(fc.oneof({ weight: 30, arbitrary: fc.uniqueArray(binding, { selector: c => c.id, maxLength: 4 }) }, { weight: 1, arbitrary: fc.uniqueArray(binding, { selector: c => c.id, maxLength: 300, size: 'max' }) })), ops: history(batch, { maxLength: 8 }) }),
		runs: { quick: 2500, thorough: 50000 },
		rule: 'options, then batches of 0 to 4 key bindings, ids colliding within and across batches, against a map that keeps the first; non-trivial: a duplicate next to a new id in a batch and a duplicate of an earlier batch.',
		async check({ options, ops }, rec) {
			const app = await create(m.appT.justTestApp().with(m.keyboard.keyboardGizmoFn(options ? { keyBindingContributions: options.map(clone) } : undefined)))
			const reg = app.keyboard.keyBindingContributions
			const log = logTail(app)
			const model = new Map((options ?? []).map(c => [c.id, clone(c)]))
			const views = where => {
				const got = reg.get()
				equal(Reflect.ownKeys(got).sort(), [...model.keys()].sort(), `${where}: ids`)
				for (const [k, v] of model) equal(got[k], v, `${where}: binding ${JSON.stringify(k)}`)
				equal(reg.keys().sort(), [...model.keys()].sort(), `${where}: keys()`)
				equal(reg.size(), model.size, `${where}: size()`)
				for (const k of [...PROTO_NAMES, 'a', 'zz']) same(reg.has(k), model.has(k), `${where}: has(${k})`)
			}
			views('initially')
			for (const [i, batch] of ops.entries()) {
				const where = `step ${i}`
				const before = new Set(model.keys())
				const dups = []
				for (const c of batch) {
					if (model.has(c.id)) {
						dups.push(c.id)
						rec.label('duplicate of an earlier batch', before.has(c.id))
					} else model.set(c.id, clone(c))
				}
				reg.add(...batch.map(clone))
				const warnings = log.next().filter(e => e.level === logLevels.warn)
				equal(warnings.length, dups.length, `${where}: number of warnings logged for duplicates ${JSON.stringify(dups)}`)
				for (const id of dups) ok(warnings.filter(e => mentions(e, id)).length >= dups.filter(d => d === id).length, `${where}: a warning naming ${JSON.stringify(id)} for each duplicate`)
				rec.label('new id next to a duplicate', dups.length > 0 && dups.length < batch.length)
				views(where)
			}
			rec.nontrivial(rec.labels.has('duplicate of an earlier batch') && rec.labels.has('new id next to a duplicate'))
		}
	})

	await section('formatting', {
		arb: fc.record({ binding, platform: fc.constantFrom('stub mac', 'stub other', 'detected', 'detected', 'detected'), agent: userAgent(), mixed: fc.boolean() }),
		runs: { quick: 1000, thorough: 10000 },
		rule: 'key bindings with every presence of key and mac (absent, undefined, empty, a key) formatted with a stubbed or detected platform; non-trivial: key and mac are both given and differ.',
		async check({ binding, platform, agent, mixed }, rec) {
			const mac = platform === 'detected' ? agent.mac : platform.includes('mac')
			let os
			let inst = m
			if (platform.startsWith('stub')) os = (await create(m.appT.justTestApp().with(m.osT.osTestGizmoFn({ isMac: () => mac })))).os
			else {
				inst = sut.instantiate(browserEnv({ ua: agent.ua }))
				os = (await create(inst.appT.justTestApp().with(inst.os.osGizmo))).os
			}
			const given = mixed ? { ...clone(binding), title: 'other fields' } : clone(binding)
			const copy = clone(given)
			const out = inst.keyboard.formatKeyBinding({ os }, given)
			const expected = mac ? (binding.mac ?? binding.key) : binding.key
			same(out.id, binding.id, 'id')
			same(out.key, expected, `key on ${platform} ${agent.ua}`)
			equal(Object.keys(out).sort(), ['id', 'key'], 'fields')
			equal(given, copy, 'the binding itself')
			rec.label(platform === 'detected' ? `detected ${mac ? 'mac' : 'other'}` : platform)
			rec.nontrivial(!!binding.key && !!binding.mac && binding.key !== binding.mac)
		}
	})
}
