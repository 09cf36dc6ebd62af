import { ident, text } from '../harness/gen.mjs'
import { browserEnv } from '../harness/env.mjs'
import { buildSut, fc } from '../harness/sut.mjs'
import { clone, equal, same } from '../harness/util.mjs'

export const assumptions = ['generated titles: words of at least two ASCII letters in camel, Pascal, kebab, snake, dotted or spaced style']

export default async function ({ section }) {
	const sut = await buildSut({ commands: '@just-web/commands' })
	const m = sut.instantiate(browserEnv())
	const letter = fc.constantFrom(...'abcdefghijklmnopqrstuvwxyz')
	const word = fc.tuple(letter, letter, fc.string({ unit: fc.oneof({ weight: 6, arbitrary: letter }, { weight: 1, arbitrary: fc.constantFrom(...'0123456789') }), maxLength: 6 })).map(([a, b, c]) => a + b + c)
	// one letter, or written in capitals
	const special = fc.oneof(letter, fc.string({ unit: letter, minLength: 2, maxLength: 5 })).map(w => w.toUpperCase())
	const cap = w => w[0].toUpperCase() + w.slice(1)
	const STYLES = {
		camel: ws => ws[0] + ws.slice(1).map(cap).join(''),
		pascal: ws => ws.map(cap).join(''),
		kebab: ws => ws.join('-'),
		snake: ws => ws.join('_'),
		dotted: ws => ws.join('.'),
		spaced: ws => ws.join(' '),
		slashed: ws => ws.join('/')
	}
	const sentence = ws => cap(ws.join(' ').toLowerCase())

	await section('generated titles', {
		arb: fc
			.record({
				namespace: fc.option(fc.oneof(word, fc.constantFrom('just-web', '@just-web/browser', '', 'a b', 'MyPlugin')), { nil: undefined }),
				words: fc.oneof({ weight: 30, arbitrary: fc.array(fc.oneof({ weight: 5, arbitrary: word }, { weight: 1, arbitrary: special }), { minLength: 1, maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(word, { minLength: 5, maxLength: 60, size: 'max' }) }, { weight: 1, arbitrary: fc.constant([]) }),
				style: fc.constantFrom(...Object.keys(STYLES)),
				description: fc.option(text, { nil: undefined })
			})
			// capitals next to each other are one word
			.filter(c => !['camel', 'pascal'].includes(c.style) || c.words.every((w, i) => !/^[A-Z]/.test(w) || !/^[A-Z]/.test(c.words[i + 1] ?? '')))
			.filter(c => c.words.length || c.namespace !== undefined)
			.filter(c => c.namespace !== undefined || c.style !== 'dotted' || c.words.length === 1),
		runs: { quick: 3000, thorough: 50000 },
		rule: 'ids composed of a namespace (or none) and words in one of seven styles; the expected sentence is composed from the same words; non-trivial: at least two words.',
		check({ namespace, words, style, description }, rec) {
			const name = words.length ? STYLES[style](words) : ''
			const id = namespace === undefined ? name : `${namespace}.${name}`
			const given = description === undefined ? { id } : { id, description }
			const out = m.commands.formatCommand(given)
			same(out.id, id, 'id')
			same(out.description, description, 'description')
			same(out.title, words.length ? sentence(words) : '', `title of ${JSON.stringify(id)}`)
			rec.label(style)
			rec.label('no namespace', namespace === undefined)
			rec.nontrivial(words.length >= 2)
		}
	})
	await section('any ids', {
		arb: fc.record({ one: fc.oneof(ident(), text), other: fc.oneof(ident(), text), rest: fc.oneof(ident(), text) }).map(c => ({ ...c, one: c.one.replaceAll('.', ''), other: c.other.replaceAll('.', '') })),
		runs: { quick: 1000, thorough: 20000 },
		rule: 'arbitrary ids: the title depends on nothing but the part after the first `.`, or the id when there is none; non-trivial: the part has letters.',
		check({ one, other, rest }, rec) {
			one = one.replaceAll('.', ''), other = other.replaceAll('.', '')
			const title = id => m.commands.formatCommand({ id }).title
			const t = title(`${one}.${rest}`)
			same(title(`${other}.${rest}`), t, `title of ${JSON.stringify(`${other}.${rest}`)}, and of ${JSON.stringify(`${one}.${rest}`)}`)
			if (!rest.includes('.')) same(title(rest), t, `title of ${JSON.stringify(rest)}, and with a namespace`)
			same(title(`${one}.${rest}`), t, 'the title again')
			rec.label('further dots', rest.includes('.'))
			rec.nontrivial(/[a-z]/i.test(rest))
		}
	})
	await section('given titles', {
		arb: fc.record({ id: fc.oneof(ident(), text, fc.string()), title: fc.oneof(ident(['Open', 'open the door', 'just-web']), text, fc.string()), description: fc.option(fc.oneof(ident(), text, fc.string()), { nil: undefined }), category: text }, { requiredKeys: ['id', 'title'] }),
		runs: { quick: 1000, thorough: 10000 },
		rule: 'arbitrary ids with a given title (also an empty one); non-trivial: the title is not empty.',
		check(cmd, rec) {
			const given = clone(cmd)
			const out = m.commands.formatCommand(given)
			same(out.id, cmd.id, 'id')
			same(out.title, cmd.title, 'title')
			same(out.description, cmd.description, 'description')
			equal(given, cmd, 'the command itself')
			rec.label('empty title', cmd.title === '')
			rec.nontrivial(cmd.title !== '')
		}
	})
}
