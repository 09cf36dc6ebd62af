import { createRequire } from 'node:module'
const fc = createRequire('/opt/veriftools/node/node_modules/')('fast-check')

/** The check itself is broken (never a violation). */
export class HarnessError extends Error {}

export function show(v) {
	try {
		return fc.stringify(v)
	} catch {
		return String(v)
	}
}

/** The observed behaviour differs from what the property demands. */
export class Mismatch extends Error {}

export function fail(message) {
	throw new Mismatch(message)
}

export function ok(cond, message) {
	if (!cond) throw new Mismatch(typeof message === 'function' ? message() : message)
}

/** What has a prototype of its own; plain records may have none. */
function kind(v) {
	const p = Object.getPrototypeOf(v)
	return p === null ? Object.prototype : p
}

/** Deep equality that tells undefined from missing, -0 from 0, respects key sets, and tells a class instance from a record. */
export function eq(a, b, seen = new Map()) {
	if (Object.is(a, b)) return true
	if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false
	if (seen.get(a) === b) return true
	seen.set(a, b)
	if (Array.isArray(a) !== Array.isArray(b) || kind(a) !== kind(b)) return false
	if (Array.isArray(a) && a.length !== b.length) return false
	if (a instanceof Map && b instanceof Map)
		return a.size === b.size && [...a].every(([k, v]) => b.has(k) && eq(v, b.get(k), seen))
	if (a instanceof Set && b instanceof Set) return a.size === b.size && [...a].every(v => b.has(v))
	if (a instanceof Date && b instanceof Date) return a.getTime() === b.getTime()
	const ka = Reflect.ownKeys(a)
	const kb = Reflect.ownKeys(b)
	if (ka.length !== kb.length) return false
	return ka.every(k => Object.hasOwn(b, k) && eq(a[k], b[k], seen))
}

export function equal(actual, expected, message) {
	if (!eq(actual, expected))
		throw new Mismatch(
			`${typeof message === 'function' ? message() : message}\n  expected: ${show(expected)}\n  actual:   ${show(actual)}`
		)
}

export function same(actual, expected, message) {
	if (!Object.is(actual, expected))
		throw new Mismatch(
			`${typeof message === 'function' ? message() : message}\n  expected (identical): ${show(expected)}\n  actual: ${show(actual)}`
		)
}

export const turn = () => new Promise(r => setImmediate(r))

/**
 * Waits for a promise by turning the event loop, not by the clock.
 * Returns {ok, value} or {ok:false, error}; a promise that is still pending after
 * many idle turns counts as never settling.
 */
export async function settled(p, what = 'promise') {
	let state
	Promise.resolve(p).then(
		value => (state = { ok: true, value }),
		error => (state = { ok: false, error })
	)
	for (let i = 0; i < 100 && !state; i++) await turn()
	for (let i = 0; i < 20 && !state; i++) await new Promise(r => setTimeout(r, 10))
	if (!state) fail(`${what} never settles`)
	return state
}

/** As `settled`, but a rejection is a mismatch. */
export async function resolved(p, what = 'promise') {
	const s = await settled(p, what)
	if (!s.ok) fail(`${what} rejected: ${s.error?.stack ?? show(s.error)}`)
	return s.value
}

export function clone(v) {
	if (Array.isArray(v)) return v.map(clone)
	if (v && typeof v === 'object' && (Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null)) {
		const r = Object.create(Object.getPrototypeOf(v))
		for (const k of Reflect.ownKeys(v)) Object.defineProperty(r, k, { value: clone(v[k]), enumerable: true, writable: true, configurable: true })
		return r
	}
	return v
}

/** The same, but what is in there twice is in the copy twice as well. */
export function copy(v, seen = new Map()) {
	if (typeof v !== 'object' || v === null) return v
	if (seen.has(v)) return seen.get(v)
	const p = Object.getPrototypeOf(v)
	if (!Array.isArray(v) && p !== Object.prototype && p !== null) return v
	const r = Array.isArray(v) ? [] : Object.create(p)
	seen.set(v, r)
	if (Array.isArray(v)) v.forEach((x, i) => (r[i] = copy(x, seen)))
	else for (const k of Reflect.ownKeys(v)) Object.defineProperty(r, k, { value: copy(v[k], seen), enumerable: true, writable: true, configurable: true })
	if (Array.isArray(v)) r.length = v.length
	return r
}

/** Is the value and everything plain in it frozen? */
export function deepFrozen(v, seen = new Set()) {
	if (typeof v !== 'object' || v === null || seen.has(v)) return true
	seen.add(v)
	const p = Object.getPrototypeOf(v)
	if (!(Array.isArray(v) || p === Object.prototype || p === null)) return true
	return Object.isFrozen(v) && Reflect.ownKeys(v).every(k => deepFrozen(v[k], seen))
}
