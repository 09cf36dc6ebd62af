import { resolved } from './util.mjs'

/** Entries a test app has logged, with helpers to look at what is new. */
export function logTail(app) {
	let from = app.log.reporter.logs.length
	return {
		next() {
			const all = app.log.reporter.logs
			const r = all.slice(from)
			from = all.length
			return r
		}
	}
}

export const mentions = (entry, textPart) => entry.args.some(a => String(a?.message ?? a).includes(textPart))

export const create = (incubator, what = 'app creation', ...args) => resolved(incubator.create(...args), what)
