// Generators and small interpreters shared by the checks.
import { fc } from './sut.mjs'
import { clone, copy } from './util.mjs'

export const PROTO_NAMES = ['toString', 'constructor', 'hasOwnProperty', 'valueOf', '__proto__', 'isPrototypeOf', 'toLocaleString']

/** Well-formed Unicode text of many shapes, biased to the nasty ones. */
export const text = fc.oneof(
	{ weight: 4, arbitrary: fc.string({ unit: 'grapheme', maxLength: 12 }) },
	{ weight: 2, arbitrary: fc.string({ unit: 'binary', maxLength: 12 }).map(s => s.toWellFormed()) },
	{ weight: 2, arbitrary: fc.constantFrom(...PROTO_NAMES) },
	{
		weight: 3,
		arbitrary: fc.constantFrom('', ' ', '0', 'null', 'undefined', 'false', '\ufeff', '\ufeffx', '\u0000', '\u00e9', '😀', 'a:b', ':', 'YQ==', 'a+/b-_=', '日本語', '"x"', 'ÿþ', '\u2028', 'x'.repeat(300), `${'x'.repeat(5000)}y`, `${'日'.repeat(1500)}y`)
	},
	{
		weight: 2,
		arbitrary: fc.constantFrom('a  b', '  ', 'a\r\nb', 'a\nb', '\t', "it's", '`', '%41', '100%s', '%', '__a', '$&', '$1', 'a//b', 'a/', '//', '007', '-1', '1e3', '..', 'a..b', 'x?y=1', 'x#y', '\u200b', 'ﬁ', 'Ａ', 'ß', 'İ', 'a_b', 'a-b', '\\', 'a\\b', '<b>', '&amp;', '[x]', '{a}', 'A', 'true', 'NaN', 'a::b', '*', '(a|b)', '^a', 'a,b', 'a=b', 'a;b', '@a', '+')
	}
)

// spellings that stay different identifiers, however alike they look
const VARIANTS = [s => s.toUpperCase(), s => `${s} `, s => ` ${s}`, s => `${s}\u0301`, s => `${s}\u00e9`, s => `${s}e\u0301`, s => `${s}/`, s => `/${s}`, s => `${s}.`, s => `${s}:`, s => `${s}${'x'.repeat(70)}1`, s => `${s}${'x'.repeat(70)}2`, s => `${s}${'x'.repeat(300)}1`, s => `${s}${'x'.repeat(300)}2`, s => s.slice(1), s => s.slice(0, -1), s => `${s}0`, s => encodeURIComponent(`${s}/`), s => `${s}?x`, s => `${s}#x`, s => `_${s}`, s => `${s}$&`, s => `${s}\u200b`, s => `'${s}'`, s => `"${s}"`, s => s.replace(/[./:]/, '$&$&'), s => `${s}//`, s => `${s}..`, s => `${s}  x`, s => `${s} x`, s => `${s}\r\n`, s => `${s}\n`, s => `${s}%41`, s => `${s}A`, s => `0${s}`, s => `00${s}`, s => `${s}\\`, s => `<${s}>`, s => `${s}[0]`, s => `${s}[1]`, s => `${s}%s`, s => `${s}\uff21`, s => `${s}-x`, s => `${s}_x`, s => `${s}\0a`, s => `${s}\0b`, s => `${s}😀`, s => `${s}😁`]

// Two texts that are easily mistaken for each other, per case: the runner puts one pair in place of the marks.
// They are made of parts no other generator comes up with.
export const MARKS = ['\ue001', '\ue002']
const NAME_MARKS = ['\ue003', '\ue004']
const long = 'qzj'.padEnd(64, '-')
export const CONFUSABLE = [
	['qzj1', 'qzj2'],
	['qzj', 'Qzj'], ['qzj', 'qzJ'], ['qzj', 'qzj '], ['qzj', ' qzj'], ['qzj', '\tqzj'], ['qzj', 'qzj\n'], ['qzj  b', 'qzj b'], ['qzj\tb', 'qzj b'], ['qzj\u00a0b', 'qzj b'], ['qzj b', 'qzjb'], ['qzj\r\nb', 'qzj\nb'], ['qzj\nb', 'qzj b'],
	['qzj\u00e9', 'qzje\u0301'], ['qzj\u00e9', 'qzje'], ['qzj\ufb01', 'qzjfi'], ['qzj\uff21', 'qzjA'], ['qzjß', 'qzjss'], ['qzjİ', 'qzji'], ['qzj日', 'qzj月'], ['qzj😀', 'qzj😁'], ['qzj\u200b', 'qzj'], ['\ufeffqzj', 'qzj'], ['qzj\u00ad', 'qzj'], ['qzj\0b', 'qzj\0c'], ['qzj\0', 'qzj'],
	[`${long}1`, `${long}2`], [`${long.repeat(4)}1`, `${long.repeat(4)}2`], [`${long.repeat(16)}1`, `${long.repeat(16)}2`], [`${long}1`, `${'jzq'.padEnd(64, '-')}1`], ['qzjqzj', 'qzj'],
	['0731', '731'], ['-0731', '-731'], ['731.0', '731'], ['731e1', '7310'], ['0x731', '731'], ['7_310', '7310'], ['qzj01', 'qzj1'], ['qzj10', 'qzj9'],
	['qzj%41', 'qzjA'], ['qzj%20b', 'qzj b'], ['qzj+b', 'qzj b'], ['qzj%', 'qzj%25'], ['qzj%s', 'qzj'], ['qzj&amp;b', 'qzj&b'], ['<qzj>', 'qzj'], ['qzj\\b', 'qzj/b'], ['qzj\\n', 'qzj\n'], ['"qzj"', 'qzj'], ["'qzj'", 'qzj'], ['`qzj`', 'qzj'], ["qzj'b", 'qzjb'],
	['qzj..b', 'qzj.b'], ['.qzj', 'qzj'], ['qzj.', 'qzj'], ['qzj.b', 'qzj'], ['qzj.b', 'qzj.c'], ['b.qzj', 'c.qzj'], ['qzj.b', 'b.qzj'], ['qzj.b.c', 'qzj.b'], ['qzj/', 'qzj'], ['/qzj', 'qzj'], ['//qzj', '/qzj'], ['qzj//b', 'qzj/b'], ['qzj/./b', 'qzj/b'], ['qzj/b/..', 'qzj'], ['qzj/b', 'qzj'], ['qzj.b', 'qzj/b'], ['/qzj/:b', '/qzj/c'], ['/qzj/*', '/qzj/b'],
	['qzj?b', 'qzj'], ['qzj?b', 'qzj?c'], ['qzj#b', 'qzj'], ['qzj#b', 'qzj#c'], ['qzj[0]', 'qzj[1]'], ['qzj[0]', 'qzj'], ['qzj(b)', 'qzj'], ['{qzj}', 'qzj'], ['qzj;b', 'qzj'], ['qzj,b', 'qzj'], ['qzj=b', 'qzj'], ['@qzj', 'qzj'], ['@qzj/b', 'b'.padEnd(3, 'qzj')], ['qzj@1', 'qzj@2'], ['~qzj', 'qzj'], ['!qzj', 'qzj'],
	['_qzj', 'qzj'], ['__qzj', '_qzj'], ['qzj_', 'qzj'], ['qzj_b', 'qzj-b'], ['qzj-b', 'qzjb'], ['qzj-b', 'qzjB'], ['-qzj', 'qzj'], ['--qzj', '-qzj'], ['$qzj', 'qzj'], ['qzj$&', 'qzj'], ['qzj$1', 'qzj'], ['qzj::b', 'qzj:b'], ['qzj:b', 'qzj:c'], ['qzj:b', 'qzj.b'], [':qzj', 'qzj'], ['qzj:', 'qzj'], ['qzj*', 'qzjb'], ['q.j1', 'qzj1'], ['^qzj', 'qzj'], ['qzj|b', 'qzj'],
	['qzjb', 'bqzj'], ['qzjs', 'qzj'], ['qzj', 'jzq'], ['qzj-null', 'qzj-undefined'], ['qzj-true', 'qzj-false']
]
/** Puts a pair of confusable texts in place of the marks anywhere in a case. */
export function confuse(v, pair) {
	if (typeof v === 'string') {
		const i = v.length === 1 ? MARKS.indexOf(v) : -1
		if (i >= 0) return pair[i]
		const j = v.length === 1 ? NAME_MARKS.indexOf(v) : -1
		return j >= 0 ? pair[j].replaceAll(':', ';') : v
	}
	if (Array.isArray(v)) {
		let r = v
		for (let i = 0; i < v.length; i++) {
			const x = confuse(v[i], pair)
			if (x !== v[i] && !Object.is(x, v[i])) {
				if (r === v) r = v.slice()
				r[i] = x
			}
		}
		return r
	}
	if (typeof v === 'object' && v !== null && [Object.prototype, null].includes(Object.getPrototypeOf(v))) {
		let r = v
		for (const k of Object.keys(v)) {
			const x = confuse(v[k], pair)
			if (x !== v[k] && !Object.is(x, v[k])) {
				if (r === v) r = Object.defineProperties(Object.create(Object.getPrototypeOf(v)), Object.getOwnPropertyDescriptors(v))
				r[k] = x
			}
		}
		return r
	}
	return v
}
export const confusable = fc.constantFrom(...MARKS)

/** Identifiers: plain ones collide often, near misses of them and strange ones appear. */
export const ident = (pool = ['a', 'b', 'c', 'a.b', 'x.y.z']) =>
	fc.oneof(
		{ weight: 6, arbitrary: fc.constantFrom(...pool) },
		{ weight: 3, arbitrary: fc.tuple(fc.constantFrom(...pool), fc.constantFrom(...VARIANTS)).map(([s, f]) => f(s)) },
		{ weight: 2, arbitrary: fc.constantFrom(...PROTO_NAMES) },
		{ weight: 2, arbitrary: confusable },
		{ weight: 1, arbitrary: text }
	)

/** Names of apps: without a colon (what happens then is a recorded finding of C16). */
export const appName = (pool = ['app', 'a', 'other', '日本', 'my app']) => fc.oneof({ weight: 6, arbitrary: ident(pool) }, { weight: 2, arbitrary: confusable }, { weight: 1, arbitrary: text }).map(s => (MARKS.includes(s) ? NAME_MARKS[MARKS.indexOf(s)] : s.replaceAll(':', ';')))

/** How standard-log spells the id of a logger. */
export const logId = id => id.replace(/[`~!#$%^&*()=+[\]{},|<>?]/g, '-')

const KEYS = ['a', 'b', 'c', '0', '1', 'toString', 'length']
const leaf = fc.oneof(
	fc.integer({ min: -3, max: 3 }),
	fc.constantFrom('', 'x', 'y', true, false, null, undefined, Number.NaN, 2 ** 53, 1.5, 'x'.repeat(200)),
	fc.constantFrom(10n, Symbol.for('s'))
)

/** Plain data: primitives, arrays, records, nested a few levels. */
export const data = fc.letrec(tie => ({
	node: fc.oneof(
		{ depthSize: 'small', maxDepth: 4 },
		leaf,
		fc.array(tie('node'), { maxLength: 4 }),
		fc.dictionary(fc.constantFrom(...KEYS), tie('node'), { maxKeys: 4 })
	)
})).node

/** A list of things: mostly a few, sometimes many. */
export const few = (arb, { minLength = 0, maxLength }) =>
	fc.oneof({ weight: 30, arbitrary: fc.array(arb, { minLength, maxLength }) }, { weight: 1, arbitrary: fc.array(arb, { minLength, maxLength: 300, size: 'max' }) })

export const container = fc.oneof(
	{ weight: 20, arbitrary: fc.array(data, { maxLength: 4 }) },
	{ weight: 20, arbitrary: fc.dictionary(fc.constantFrom(...KEYS), data, { maxKeys: 4 }) },
	// what is deep
	{ weight: 1, arbitrary: fc.tuple(fc.integer({ min: 5, max: 60 }), fc.nat(2), data).map(([n, kind, v]) => Array.from({ length: n }).reduce((r, _, i) => ((i + kind) % 3 ? { a: r } : [r]), v)) },
	// what is big
	{ weight: 1, arbitrary: fc.array(fc.oneof(fc.nat(3), fc.record({ a: fc.nat(3) })), { minLength: 30, maxLength: 150, size: 'max' }) },
	{ weight: 1, arbitrary: fc.dictionary(fc.nat(200).map(n => `k${n}`), fc.oneof(fc.nat(3), fc.record({ a: fc.nat(3) })), { minKeys: 30, maxKeys: 150, size: 'max' }) }
)

class Thing {
	constructor(n) {
		this.n = n
	}
	get double() {
		return this.n * 2
	}
}
/** Values of all kinds, made anew each time; those that cannot be held in a state (immer, or freezing, refuses them) are last. */
const OTHER = [
	() => undefined, () => null, () => 0, () => -0, () => Number.NaN, () => Number.POSITIVE_INFINITY, () => -1, () => 1.5, () => 1, () => 2 ** 53, () => 10n, () => true, () => false,
	() => '', () => 'x', () => '0', () => 'x'.repeat(300), () => 'a\nb\0', () => Symbol.for('s'), () => Symbol('own'), () => Symbol.iterator,
	() => () => 1, () => (a, b) => [a, b], () => async x => x, () => Object.assign(() => 1, { x: 1 }), () => class A {},
	() => [], () => [1], () => [[1], 2], () => [undefined], () => Array(2), () => Array.from({ length: 50 }, (_, i) => i), () => [[[[[[[1]]]]]]],
	() => ({}), () => ({ a: 1 }), () => ({ length: 2 }), () => ({ 0: 'a' }), () => ({ toString: 1 }), () => ({ then: 1 }), () => ({ id: 'a' }), () => ({ a: undefined }), () => ({ a: null }), () => ({ [Symbol.for('k')]: 1 }),
	() => Object.fromEntries(Array.from({ length: 50 }, (_, i) => [`k${i}`, i])), () => Object.assign(Object.create(null), { a: 1 }), () => Object.freeze({ a: 1 }), () => Object.freeze([1]),
	() => {
		const a = { n: 1 }
		return { a, b: a, c: [a] }
	},
	() => new Date(1e12), () => new Date(Number.NaN), () => /x/g, () => new Error('x'), () => new (class Own extends TypeError {})('y'), () => new Thing(1), () => new (class extends Array {})(3), () => Promise.resolve(1), () => new Proxy({ a: 1 }, {}),
	() => {
		const t = new Thing(2)
		return Object.assign(t, { self: t })
	},
	() => new Map([[1, 2]]), () => new Set([1]), () => new Uint8Array(2), () => new ArrayBuffer(2), () => new WeakMap()
]
/** Any value that can be held in a state. */
export const stateable = fc.nat(OTHER.length - 6).map(i => OTHER[i]())
/** Any value that can be part of a state (-0 see below). */
export const part = stateable.map(v => (v === 0 ? 0 : v))
/** Any value at all. */
export const other = fc.nat(OTHER.length - 1).map(i => OTHER[i]())
/** What has neither identity nor a prototype of its own. */
export const isPlain = v => typeof v !== 'object' && typeof v !== 'function' || v === null || Array.isArray(v) || [Object.prototype, null].includes(Object.getPrototypeOf(v))

// -0 only as a whole state: immer itself mixes up 0 and -0 when array items are moved around
export const anyValue = fc.oneof(
	{ weight: 8, arbitrary: container },
	{ weight: 4, arbitrary: data },
	{ weight: 1, arbitrary: fc.constantFrom(-0, 0) }
)

/** One edit of a mutable structure, addressed by a path of "n-th container inside". */
export const editArbOf = value => fc.record({
	path: fc.oneof({ weight: 12, arbitrary: fc.array(fc.nat(3), { maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(fc.nat(3), { minLength: 4, maxLength: 60, size: 'max' }) }),
	kind: fc.constantFrom('set', 'set', 'set', 'delete', 'push', 'unshift', 'pop', 'splice', 'alias', 'clear', 'inc', 'reverse'),
	key: fc.constantFrom(...KEYS),
	n: fc.nat(4),
	value
})
export const editArb = editArbOf(data)

/** Values that JSON keeps exactly. */
export const json = fc.oneof(
	{ weight: 3, arbitrary: fc.jsonValue({ maxDepth: 3, depthSize: 'small' }).map(v => JSON.parse(JSON.stringify(v))) },
	{ weight: 2, arbitrary: fc.constantFrom(null, false, 0, '', true, [], {}, 'null', '"', [null], { toString: 1 }) },
	{
		weight: 3,
		arbitrary: fc.dictionary(
			fc.constantFrom(...KEYS),
			fc.oneof(fc.integer({ min: -3, max: 3 }), fc.constantFrom(null, false, '', [], {}, [1, [2]], { a: { b: [] } })),
			{ maxKeys: 4, noNullPrototype: true }
		)
	},
	{ weight: 2, arbitrary: fc.array(fc.oneof(fc.nat(3), fc.constantFrom(null, {}, [[]], { a: 1 })), { maxLength: 4 }) },
	{ weight: 2, arbitrary: text },
	{
		weight: 1,
		arbitrary: fc.oneof(
			// deep, long, big, shared
			fc.tuple(fc.integer({ min: 4, max: 40 }), fc.nat(2)).map(([n, kind]) => Array.from({ length: n }).reduce((r, _, i) => (kind === 0 ? [r] : kind === 1 ? { a: r } : i % 2 ? [r] : { b: r }), 1)),
			fc.array(fc.oneof(fc.nat(3), fc.nat(3).map(a => ({ a }))), { minLength: 20, maxLength: 300, size: 'max' }),
			fc.dictionary(fc.nat(200).map(n => `k${n}`), fc.nat(3), { minKeys: 20, maxKeys: 120, size: 'max', noNullPrototype: true }),
			fc.array(fc.nat(3), { maxLength: 3 }).map(v => ({ a: v, b: v, c: [v] }))
		)
	},
	{ weight: 1, arbitrary: fc.dictionary(text.filter(k => k !== '__proto__'), fc.oneof(text, fc.double({ noNaN: true, noDefaultInfinity: true }).map(n => n + 0)), { maxKeys: 3, noNullPrototype: true }) }
)

const isContainer = v => typeof v === 'object' && v !== null

/** The size of a structure, written out, as far as it is not over a limit: sharing of shared parts doubles it each time. */
export function size(v, limit = 400) {
	let n = 1
	if (isContainer(v)) for (const k of Object.keys(v)) if (n <= limit) n += size(v[k], limit - n)
	return n
}

/** Applies an edit to a plain structure or to a draft of one, the same way. */
export function applyEdit(root, e) {
	let t = root
	for (const n of e.path) {
		const keys = Object.keys(t).filter(k => isContainer(t[k]))
		if (!keys.length) break
		t = t[keys[n % keys.length]]
	}
	const children = Object.keys(t).filter(k => isContainer(t[k]))
	if (e.kind === 'alias' && children.length && size(t[children[e.n % children.length]]) > 400) return
	if (Array.isArray(t)) {
		if (e.kind === 'push' || e.kind === 'set') t.push(clone(e.value))
		else if (e.kind === 'unshift') t.unshift(clone(e.value))
		else if (e.kind === 'pop' || e.kind === 'delete') t.pop()
		else if (e.kind === 'splice') t.splice(e.n, 1, clone(e.value))
		else if (e.kind === 'clear') t.length = 0
		else if (e.kind === 'reverse') t.reverse()
		else if (e.kind === 'inc' && t.length) t[e.n % t.length] = `${typeof t[e.n % t.length]}!`
		else if (e.kind === 'alias' && children.length) t.push(t[children[e.n % children.length]])
		return
	}
	if (e.kind === 'delete' || e.kind === 'pop') delete t[e.key]
	else if (e.kind === 'clear') for (const k of Object.keys(t)) delete t[k]
	else if (e.kind === 'alias') {
		if (children.length) t[e.key] = t[children[e.n % children.length]]
	} else if (e.kind === 'inc') t[e.key] = `${typeof t[e.key]}!`
	else t[e.key] = clone(e.value)
}

/** Synchronous updates of a state. */
export const updateArb = fc.oneof(
	{ weight: 3, arbitrary: fc.record({ op: fc.constant('direct'), value: anyValue }) },
	{ weight: 2, arbitrary: fc.record({ op: fc.constant('return'), value: anyValue }) },
	{ weight: 6, arbitrary: fc.record({ op: fc.constant('edit'), edits: fc.array(editArb, { minLength: 1, maxLength: 4 }) }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant('spread'), key: fc.constantFrom(...KEYS), value: data }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant('child'), n: fc.nat(3) }) },
	{ weight: 1, arbitrary: fc.constant({ op: 'self' }) },
	{ weight: 1, arbitrary: fc.constant({ op: 'noop' }) },
	{ weight: 1, arbitrary: fc.constant({ op: 'nothing' }) },
	{ weight: 1, arbitrary: fc.constant({ op: 'reset' }) },
	{ weight: 1, arbitrary: fc.constant({ op: 'same' }) }
)

/** What an update's updater does to a draft; returns what the updater returns. */
export function runUpdater(u, draft, nothing) {
	switch (u.op) {
		case 'return':
			// an updater cannot return undefined on purpose: that means "edited in place"
			return u.value === undefined ? nothing : copy(u.value)
		case 'edit':
			if (isContainer(draft)) for (const e of u.edits) applyEdit(draft, e)
			return undefined
		case 'spread':
			if (Array.isArray(draft)) return [...draft, clone(u.value)]
			return isContainer(draft) ? { ...draft, [u.key]: clone(u.value) } : clone(u.value) === undefined ? nothing : clone(u.value)
		case 'child': {
			if (!isContainer(draft)) return undefined
			const keys = Object.keys(draft).filter(k => isContainer(draft[k]))
			return keys.length ? draft[keys[u.n % keys.length]] : undefined
		}
		case 'self':
			return draft
		case 'noop':
			return undefined
		case 'nothing':
			return nothing
	}
}

export const isUpdater = u => !['direct', 'reset', 'same'].includes(u.op)

/** The plain-variable meaning of an update. */
export function modelUpdate(u, value, init) {
	switch (u.op) {
		case 'direct':
			return clone(u.value)
		case 'reset':
			return clone(init)
		case 'same':
			return value
		default: {
			const NOTHING = Symbol('nothing')
			const work = clone(value)
			const r = runUpdater(u, work, NOTHING)
			return r === NOTHING ? undefined : clone(r === undefined ? work : r)
		}
	}
}

/** Applies an update to anything with set/reset (+ current value for 'same'). */
export function applyUpdate(target, u, current, nothing, onUpdater = () => {}) {
	if (u.op === 'direct') return target.set(copy(u.value))
	if (u.op === 'reset') return target.reset()
	if (u.op === 'same') return typeof current === 'function' ? undefined : target.set(current)
	return target.set(draft => {
		onUpdater(draft)
		return runUpdater(u, draft, nothing)
	})
}

// what an operation is about, as opposed to what it is and does
const SUBJECT = ['n', 'app', 'key', 'id', 'route', 'name', 'language', 'stub', 'on', 'k', 'h', 'handler', 'target', 'store', 'from']
/** Lets an operation act on what another one acts on. */
function alike(a, b) {
	if (typeof a !== 'object' || a === null || typeof b !== 'object' || b === null || Array.isArray(a) !== Array.isArray(b)) return b
	const r = Array.isArray(b) ? b.slice() : { ...b }
	for (const k of Object.keys(b)) {
		const x = a[k]
		if (typeof x === 'object' && (k === 'op' || k === 'args' || Array.isArray(b))) r[k] = alike(x, b[k])
		else if (typeof x === typeof b[k] && (Array.isArray(b) ? k === '0' : SUBJECT.includes(k))) r[k] = x
	}
	return r
}

/**
 * A history of operations: mostly short, sometimes long, and sometimes with one operation, or a round of a few, repeated many times
 * (what is limited, counted or kept in a ring shows only then).
 */
/** The operation on the i-th of a crowd: what the field names is numbered. */
const numbered = (o, field, i) => {
	const v = o?.[field]
	return typeof v === 'string' || typeof v === 'number' ? { ...o, [field]: typeof v === 'string' ? `${v}#${i}` : `${i}#` } : o
}

export const history = (op, { minLength = 0, maxLength, crowd }) => {
	const short = fc.array(op, { minLength, maxLength, size: 'max' })
	// many different things of the kind the field names
	const crowded = crowd && [
		{
			weight: 1,
			arbitrary: fc
				.tuple(fc.array(op, { minLength: Math.max(1, minLength), maxLength, size: 'max' }), fc.nat(maxLength), fc.constantFrom(3, 40, 110, 300))
				.map(([ops, at, times]) => {
					// the next operation, from there, that names something
					const all = ops.map((_, i) => (at + i) % ops.length)
					const one = all.find(i => numbered(ops[i], crowd, 0) !== ops[i])
					return ops.flatMap((o, i) => (i === one ? Array.from({ length: times }, (_, j) => numbered(o, crowd, j)) : [o]))
				})
		}
	]
	return fc.oneof(
		{ weight: 40, arbitrary: short },
		...(crowded ?? []),
		{ weight: 1, arbitrary: fc.array(op, { minLength, maxLength: 120, size: 'max' }) },
		{
			weight: 2,
			arbitrary: fc
				.tuple(fc.array(op, { minLength: Math.max(1, minLength), maxLength, size: 'max' }), fc.nat(maxLength), fc.constantFrom(1, 10, 40, 120, 300))
				.map(([ops, at, times]) => ops.flatMap((o, i) => (i === at % ops.length ? Array(times).fill(o) : [o])))
		},
		{
			weight: 2,
			arbitrary: fc
				.tuple(fc.array(op, { maxLength: 4 }), fc.array(op, { minLength: 2, maxLength: 4, size: 'max' }), fc.constantFrom(2, 8, 25, 60, 110), fc.array(op, { maxLength: 4 }), fc.boolean())
				.map(([before, ops, times, after, one]) => [before, one ? ops.map(o => alike(ops[0], o)) : ops, times, after])
				.map(([before, round, times, after]) => [...before, ...Array.from({ length: times }, () => round).flat().slice(0, 220), ...after])
		}
	)
}

const MACS = ['10_4_11', '10_6_8', '10_9_5', '10_15_7', '11_6', '13_1', '14_2_1', '15_0', '26_0', '10.6', '10.15', '12.0']
const OTHERS = [
	'Windows NT 10.0; Win64; x64',
	'Windows NT 6.1; WOW64',
	'Windows NT 6.3; ARM; Trident/7.0; Touch',
	'X11; Linux x86_64',
	'X11; Linux i686',
	'X11; Ubuntu; Linux x86_64',
	'X11; Fedora; Linux x86_64',
	'X11; CrOS x86_64 14541.0.0',
	'X11; CrOS armv7l 13597.84.0',
	'X11; FreeBSD amd64',
	'X11; OpenBSD i386',
	'Linux; Android 13; Pixel 7',
	'Linux; Android 10; K',
	'Linux; Android 4.4.2; Nexus 5',
	'iPhone; CPU iPhone OS 17_2 like Mac OS X',
	'iPhone; U; CPU iPhone OS 4_3 like Mac OS X; en-us',
	'iPad; CPU OS 16_6 like Mac OS X',
	'iPod touch; CPU iPhone OS 12_0 like Mac OS X',
	'SMART-TV; Linux; Tizen 6.0',
	'Web0S; Linux/SmartTV',
	'PlayStation 4 5.55'
]
const BROWSERS = [
	['', ' AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36'],
	['', ' AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.1 Safari/605.1.15'],
	['', ' AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.2 Mobile/15E148 Safari/604.1'],
	['; rv:121.0', ' Gecko/20100101 Firefox/121.0'],
	['', ' AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/120.0.2210.91'],
	['', ' AppleWebKit/537.36 (KHTML, like Gecko) Chrome/119.0.0.0 Safari/537.36 OPR/105.0.0.0'],
	['', ' AppleWebKit/537.36 (KHTML, like Gecko) Electron/28.1.0 Chrome/120.0.6099.109 Safari/537.36'],
	['', ' AppleWebKit/537.36 (KHTML, like Gecko) HeadlessChrome/120.0.0.0 Safari/537.36']
]
/** User agents: systems (a Mac or not) of many versions, each with many browsers. */
export const userAgent = mac =>
	fc
		.tuple(mac === undefined ? fc.boolean() : fc.constant(mac), fc.nat(), fc.nat(), fc.constantFrom('Intel', 'Intel', 'PPC'))
		.map(([mac, o, b, chip]) => {
			const os = mac ? `Macintosh; ${chip} Mac OS X ${MACS[o % MACS.length]}` : OTHERS[o % OTHERS.length]
			const [more, browser] = BROWSERS[b % BROWSERS.length]
			return { mac, ua: `Mozilla/5.0 (${os}${more})${browser}` }
		})
