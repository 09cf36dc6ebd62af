import { MARKS, history, other, text } from '../harness/gen.mjs'
import { create, logTail, mentions } from '../harness/apps.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, fail, ok, same } from '../harness/util.mjs'

export const assumptions = ['ids are non-empty strings, and no command has an empty key as its only one', 'a command given to apps is called through its command function or the handler registry']

export default async function ({ section }) {
	const sut = await buildSut({ app: '@just-web/app', appT: '@just-web/app/testing', commands: '@just-web/commands', keyboard: '@just-web/keyboard' })
	const key = fc.constantFrom('ctrl+a', 'ctrl+b', 'x')
	const sometimes = fc.oneof({ weight: 6, arbitrary: key }, { weight: 1, arbitrary: fc.constantFrom(undefined, '') })
	const def = fc.oneof(
		fc.record({ form: fc.constant('string'), id: fc.constantFrom('p.one', 'p.two', 'p.one', 'p', 'p.one.x', 'toString', 'three', ...MARKS) }),
		fc.record({
			form: fc.constant('object'),
			id: fc.constantFrom('p.one', 'p.two', 'p.one', 'p', 'p.one.x', 'toString', 'three', ...MARKS),
			info: fc
				.record({ key: sometimes, mac: sometimes, title: text, description: text, commandPalette: fc.constant(false), category: text }, { requiredKeys: [] })
				// an empty key alone is neither given nor missing
				.filter(i => i.key || i.mac || (i.key === undefined && i.mac === undefined))
		})
	)
	const palette = { form: 'palette', id: 'just-web.showCommandPalette', info: { commandPalette: false, key: 'ctrl+k', mac: 'cmd+k' } }
	// what a handler returns: usually an object of its own
	const result = fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.record({ v: other }) })
	const cmdArb = fc.record({ def: fc.oneof({ weight: 6, arbitrary: def }, { weight: 1, arbitrary: fc.constant(palette) }), own: fc.boolean(), result })
	const argsArb = fc.oneof({ weight: 20, arbitrary: fc.array(fc.oneof(fc.anything({ maxDepth: 0 }), other), { maxLength: 3 }) }, { weight: 2, arbitrary: fc.array(other, { minLength: 4, maxLength: 40 }) }, { weight: 1, arbitrary: fc.constantFrom(110, 300).map(n => Array.from({ length: n }, (_, i) => i)) })
	const op = fc.oneof(
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('define'), c: fc.nat(3), result }) },
		{ weight: 3, arbitrary: fc.record({ op: fc.constant('connect'), c: fc.nat(3), app: fc.nat(1), handler: fc.boolean(), result }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('register'), c: fc.nat(3), app: fc.nat(1), result }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant('call'), c: fc.nat(3), args: argsArb }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant('palette'), c: fc.nat(3), app: fc.nat(1), args: fc.constant([]) }) },
		{ weight: 2, arbitrary: fc.record({ op: fc.constant('invoke'), c: fc.nat(3), app: fc.nat(1), args: argsArb }) }
	)
	await section('histories', {
		arb: fc.record({ cmds: fc.array(cmdArb, { minLength: 1, maxLength: 4 }), keyboards: fc.tuple(fc.boolean(), fc.boolean()), ops: history(op, { maxLength: 18 }) }),
		runs: { quick: 2000, thorough: 40000 },
		rule: 'up to 4 command definitions (string, object, with and without keys, default handler or none; ids may collide; arguments and results of any kind; also the ready-made `showCommandPalette`) and up to 18 steps of defineHandler, connect to one of two apps, registry override, direct call and invoke, against a model of handlers and contributions per app; non-trivial: a command is called before and after connecting, and after a second connect or override.',
		async check({ cmds, keyboards, ops }, rec) {
			const env = browserEnv()
			const m = sut.instantiate(env)
			const { logLevels } = m.app
			let calls = []
			let n = 0
			const make = given => {
				const me = ++n
				const result = given ? given.v : { me }
				const f = (...args) => {
					calls.push({ me, args })
					return result
				}
				return { me, result, f }
			}
			const apps = []
			for (const [i, withKeyboard] of keyboards.entries()) {
				let inc = m.appT.justTestApp({ name: `app${i}` })
				if (withKeyboard) inc = inc.with(m.keyboard.keyboardGizmoFn())
				const app = await create(inc.with(m.commands.commandsGizmoFn()))
				apps.push({ app, log: logTail(app), handlers: new Map(), contributions: new Map(), keys: withKeyboard ? new Map() : undefined })
			}
			// the ready-made command is one object: it is listed once, first where it occurs
			const firstPalette = cmds.findIndex(c => c.def.form === 'palette')
			const list = cmds.filter((c, i) => c.def.form !== 'palette' || i === firstPalette).map(({ def, own, result }) => {
				const ready = def.form === 'palette'
				const h = own && !ready ? make(result) : undefined
				rec.label('ready-made command', ready)
				const info = def.form === 'string' ? def.id : { id: def.id, ...def.info }
				const cmd = ready ? m.commands.showCommandPalette : h ? m.commands.command(info, h.f) : m.commands.command(info)
				try {
					cmd.name = 'renamed'
				} catch {}
				const c = { cmd, id: def.id, h, info: def.form === 'string' ? undefined : clone(info), ctx: undefined, called: new Set() }
				same(cmd.id, def.id, 'id of the command')
				same(cmd.name, def.id, 'name of the command')
				if (c.info) for (const k of Object.keys(c.info)) equal(cmd[k], c.info[k], `field ${k} of the command`)
				return c
			})
			const consoleErrors = () => env.console.calls.filter(([k]) => k === 'error')
			const expectCall = (where, out, h, args) => {
				equal(calls.map(x => x.me), h ? [h.me] : [], `${where}: handlers called`)
				if (!h) return same(out, undefined, `${where}: result`)
				equal(calls[0].args.length, args.length, `${where}: number of arguments`)
				args.forEach((a, j) => same(calls[0].args[j], a, `${where}: argument ${j}`))
				same(out, h.result, `${where}: result`)
			}
			for (const [i, op] of ops.entries()) {
				const c = list[op.c % list.length]
				const where = `step ${i} (${op.op} ${c.id})`
				calls = []
				const consoleBefore = consoleErrors().length
				for (const a of apps) a.log.next()
				const a = op.app === undefined ? undefined : apps[op.app]
				if (op.op === 'define') {
					const h = make(op.result)
					same(c.cmd.defineHandler(h.f), h.f, `${where}: result of defineHandler`)
					c.h = h
				} else if (op.op === 'connect') {
					const h = op.handler ? make(op.result) : undefined
					if (h) c.cmd.connect(a.app, h.f)
					else c.cmd.connect(a.app)
					rec.label('second connect', c.ctx !== undefined)
					c.ctx = a
					c.h = h ?? c.h
					if (c.h) {
						a.handlers.set(c.id, c.h)
						if (c.info) {
							if (!a.contributions.has(c.id)) a.contributions.set(c.id, c.info)
							if (a.keys && (c.info.key || c.info.mac) && !a.keys.has(c.id)) a.keys.set(c.id, c.info)
						}
					} else rec.label('connected without handler')
				} else if (op.op === 'register') {
					const h = make(op.result)
					a.app.commands.handlers.register(c.id, h.f)
					a.handlers.set(c.id, h)
				} else {
					let out
					let { id } = c
					let h
					let target
					try {
						if (op.op === 'call') {
							target = c.ctx
							h = c.ctx ? c.ctx.handlers.get(c.id) : c.h
							out = c.cmd(...op.args)
							c.called.add(c.ctx ? 'connected' : 'before')
						} else if (op.op === 'palette') {
							target = a
							id = palette.id
							h = a.handlers.get(id)
							out = a.app.commands.showCommandPalette()
						} else {
							target = a
							h = a.handlers.get(c.id)
							out = a.app.commands.handlers.invoke(c.id, ...op.args)
						}
					} catch (e) {
						fail(`${where}: threw ${e?.stack ?? e}`)
					}
					expectCall(where, out, h, op.args)
					const errorsIn = apps.map(x => x.log.next().filter(e => e.level <= logLevels.error))
					if (!h && target) ok(errorsIn[apps.indexOf(target)].some(e => mentions(e, id)), `${where}: an error naming the id must be logged by the app`)
					if (!h && !target) {
						rec.label('called with neither')
						ok(consoleErrors().slice(consoleBefore).some(([, args]) => args.some(x => String(x).includes(c.id))), `${where}: an error naming the id must be reported`)
					}
					if (h) {
						equal(errorsIn.flat().length, 0, `${where}: errors logged`)
						equal(consoleErrors().length, consoleBefore, `${where}: errors on the console`)
					}
				}
				for (const [j, x] of apps.entries()) {
					equal(x.app.commands.handlers.keys().sort(), [...x.handlers.keys()].sort(), `${where}: handlers of app ${j}`)
					equal({ ...x.app.commands.contributions.get() }, Object.fromEntries(x.contributions), `${where}: contributions of app ${j}`)
					if (x.keys) equal({ ...x.app.keyboard.keyBindingContributions.get() }, Object.fromEntries(x.keys), `${where}: key bindings of app ${j}`)
					same('keyboard' in x.app, x.keys !== undefined, `${where}: keyboard of app ${j}`)
				}
			}
			rec.label('called before and after', list.some(c => c.called.size === 2))
			rec.nontrivial(list.some(c => c.called.size === 2) && rec.labels.has('second connect'))
		}
	})
}
