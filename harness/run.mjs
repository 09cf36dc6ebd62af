// node harness/run.mjs <ID> [--tier quick|thorough] [--replay FILE] [--runs N] [--no-evidence]
//
// exit 0  the property held on everything explored
// exit 1  `VIOLATION property=<ID> replay=<file>` was printed
// exit 2  the check itself could not run (build error, harness error)
import fs from 'node:fs'
import path from 'node:path'
import os from 'node:os'
import crypto from 'node:crypto'
import { spawn } from 'node:child_process'
import { fileURLToPath } from 'node:url'
import { CONFUSABLE, confuse } from './gen.mjs'
import { fc } from './sut.mjs'
import { HarnessError, Mismatch, show } from './util.mjs'

const here = path.dirname(fileURLToPath(import.meta.url))
const root = path.dirname(here)
const args = process.argv.slice(2)
const id = args.find(a => /^[A-Z]\d{2,3}$/.test(a))
const opt = name => {
	const i = args.indexOf(name)
	return i < 0 ? undefined : args[i + 1]
}
const tier = opt('--tier') ?? (process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
const seed = Number.parseInt(opt('--seed') ?? process.env.VERIF_SEED ?? '1', 10) || 1
const replayFile = opt('--replay')
const writeEvidence = !args.includes('--no-evidence') && !replayFile && !process.env.VERIF_REPO
const started = Date.now()

// The work is done in a child process: if one case never ends (the event loop is
// blocked, or memory runs out), the parent can still say which one it was.
if (!process.env.VERIF_CHILD) await supervise()
const heartbeat = fs.openSync(process.env.VERIF_CHILD, 'w')
let beats = 0
/** the case that runs now: section, index of the run, seed; or nothing */
function beat(state) {
	const b = Buffer.from(`${JSON.stringify({ ...state, n: ++beats })}\n`.padEnd(300))
	fs.writeSync(heartbeat, b, 0, b.length, 0)
}

async function supervise() {
	const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'))
	const file = path.join(dir, 'heartbeat')
	fs.writeFileSync(file, '')
	const child = spawn(process.execPath, ['--max-old-space-size=3000', ...process.argv.slice(1)], {
		stdio: 'inherit',
		env: { ...process.env, VERIF_CHILD: file }
	})
	const LIMIT = Number(process.env.VERIF_CASE_LIMIT_S ?? 120)
	let last
	let since = Date.now()
	let stuck
	const read = () => {
		const s = fs.readFileSync(file, 'utf8').split('\n')[0]
		return s ? JSON.parse(s) : {}
	}
	const timer = setInterval(() => {
		const now = read()
		if (!now.section || now.n !== last) {
			last = now.n
			since = Date.now()
		} else if (Date.now() - since > LIMIT * 1000) {
			stuck = now
			child.kill('SIGKILL')
		}
	}, 2000)
	const stop = () => child.kill('SIGTERM')
	process.on('SIGTERM', stop)
	process.on('SIGINT', stop)
	const [code, signal] = await new Promise(r => child.on('close', (...a) => r(a)))
	clearInterval(timer)
	const now = read()
	fs.rmSync(dir, { recursive: true })
	if (!stuck && signal === 'SIGABRT' && now.section) stuck = { ...now, memory: true }
	if (stuck) {
		report(stuck.section, { seed: stuck.seed, counterexamplePath: String(stuck.run), numShrinks: 0 }, stuck.memory ? 'the case runs out of memory' : `the case does not end within ${LIMIT} s`)
		process.exit(1)
	}
	process.exit(code ?? 2)
}

// Nothing the library does may end the harness: stray rejections and errors are
// collected, and a section that runs while one arrives decides what it means.
const stray = []
process.on('unhandledRejection', e => stray.push(e))
process.on('uncaughtException', e => stray.push(e))

function hash(s) {
	return crypto.createHash('sha1').update(s).digest('base64').slice(0, 16)
}

const known = fs
	.readFileSync(path.join(root, 'known-findings.txt'), 'utf8')
	.split('\n')
	.filter(l => l.startsWith('known: '))
	.map(l => JSON.parse(l.slice('known: '.length)))
	.filter(k => k.property === id)

const stats = { evaluations: 0, nontrivial: new Set(), labels: {}, samples: [], rules: [], sections: {} }
const replay = replayFile ? JSON.parse(fs.readFileSync(replayFile, 'utf8')) : undefined

/** What a property function gets to describe its case with. */
class Rec {
	constructor(section, key) {
		this.section = section
		this.key = key
		this.isNontrivial = false
		this.labels = new Set()
	}
	label(l, cond = true) {
		if (cond) this.labels.add(l)
	}
	nontrivial(cond = true) {
		if (cond) this.isNontrivial = true
	}
}

function commit(rec, value) {
	stats.evaluations++
	const s = (stats.sections[rec.section] ??= { evaluations: 0, nontrivial: 0, labels: {} })
	s.evaluations++
	for (const l of rec.labels) s.labels[l] = (s.labels[l] ?? 0) + 1
	if (!rec.isNontrivial) return
	const h = `${rec.section}#${rec.key}`
	if (stats.nontrivial.has(h)) return
	stats.nontrivial.add(h)
	s.nontrivial++
	// the first few of each section, then ever rarer ones
	if (s.nontrivial <= 2 || s.nontrivial === 50 || s.nontrivial === 500)
		stats.samples.push({ section: rec.section, case: show(value).slice(0, 1200), labels: [...rec.labels] })
}

function report(section, run, message) {
	const dir = path.join(process.env.VERIF_REPLAY_DIR ?? path.join(root, 'evidence', 'replay'))
	fs.mkdirSync(dir, { recursive: true })
	const file = path.join(dir, `${id}-${section.replace(/[^\w-]+/g, '_')}.json`)
	fs.writeFileSync(
		file,
		JSON.stringify(
			{
				property: id,
				section,
				tier,
				seed: run?.seed,
				path: run?.counterexamplePath,
				counterexample: run?.counterexample ? show(run.counterexample[0]) : undefined,
				shrinks: run?.numShrinks,
				error: message,
				how: `cd /verif && node harness/run.mjs ${id} --replay ${file}`
			},
			null,
			1
		)
	)
	if (run?.counterexample) console.log(`counterexample (after ${run.numShrinks} shrinks): ${show(run.counterexample?.[0])}`)
	console.log(message.split('\n').slice(0, 12).join('\n'))
	console.log(`VIOLATION property=${id} replay=${file}`)
	return file
}

/** a quick run is this many times what a section asks for */
const QUICK = 3

const violations = []
const knownSeen = []

async function section(name, { arb: plain, runs, rule, check, examples }) {
	const arb = fc.tuple(plain, fc.constantFrom(...CONFUSABLE)).map(([value, pair]) => confuse(value, pair))
	const planned = tier === 'thorough' ? (runs.thorough ?? runs.quick * 20) : runs.quick * QUICK
	const numRuns = Number(opt('--runs') ?? planned)
	if (replay && replay.section !== name) return
	if (!replay && opt('--section') && opt('--section') !== name) return
	stats.rules.push(`[${name}] ${rule}`)
	let failed = false
	let runs_ = 0
	let shrinkUntil = Number.POSITIVE_INFINITY
	const times = []
	const property = fc.asyncProperty(arb, async value => {
		// shrinking ends after a while: what is left counts as passing
		if (Date.now() > shrinkUntil) return
		const before = stray.length
		if (!failed) beat({ section: name, run: replay ? replay.path : runs_++, seed: replay?.seed ?? sectionSeed(name) })
		else beat({ section: name, run: runs_ - 1, seed: sectionSeed(name) })
		const caseStarted = performance.now()
		const rec = new Rec(name, hash(fc.stringify(value)))
		try {
			await check(value, rec)
			await new Promise(r => setImmediate(r))
			if (stray.length > before) {
				const e = stray[before]
				throw new Error(`unhandled error or rejection: ${e?.stack ?? show(e)}`)
			}
		} catch (e) {
			if (!failed) shrinkUntil = Date.now() + 60_000
			failed = true
			throw e
		}
		times.push(performance.now() - caseStarted)
		if (!failed) commit(rec, value)
	})
	const run = await fc.check(property, {
		seed: replay?.seed ?? sectionSeed(name),
		...(replay ? { path: replay.path, endOnFailure: true } : {}),
		numRuns: replay ? 1 : numRuns,
		interruptAfterTimeLimit: undefined,
		...(examples && !replay ? { examples: examples.map(e => [e]) } : {})
	})
	beat({})
	if (args.includes('--times')) {
		times.sort((a, b) => b - a)
		const sum = list => Math.round(list.reduce((s, t) => s + t, 0))
		console.log(`${name}: ${times.length} cases in ${sum(times)} ms; the slowest 1%: ${sum(times.slice(0, times.length / 100))} ms, the slowest: ${Math.round(times[0])} ms`)
	}
	if (!run.failed) return
	const err = run.errorInstance
	const message = String(err?.stack ?? show(err))
	if (err instanceof HarnessError) throw err
	violations.push(report(name, run, message))
}

function sectionSeed(name) {
	const h = crypto.createHash('sha1').update(`${seed}:${id}:${name}`).digest()
	return h.readInt32BE(0)
}

/** One fixed scenario for a listed finding: the search excludes it by construction. */
async function probe(name, { what, check }) {
	if (replay && replay.section !== name) return
		let error
	try {
		await check()
	} catch (e) {
		error = e
	}
	if (error instanceof HarnessError) throw error
	stats.evaluations++
	if (!error) return
	const k = known.find(k => k.section === name && String(error.stack).includes(k.match))
	if (k) {
		knownSeen.push(name)
		console.log(`KNOWN-FINDING: property=${id} ${k.what}`)
		return
	}
	violations.push(report(name, undefined, `${what}\n${error?.stack ?? error}`))
}

try {
	if (!id) throw new HarnessError('usage: run.mjs <ID>')
	const mod = await import(path.join(root, 'checks', `${id}.mjs`))
	await mod.default({ section, probe, tier, seed, stray })
	if (writeEvidence) {
		fs.mkdirSync(path.join(root, 'evidence'), { recursive: true })
		fs.writeFileSync(
			path.join(root, 'evidence', `${id}.json`),
			`${JSON.stringify(
				{
					property: id,
					tier,
					seed,
					level: 'exploration',
					coverage: {
						evaluations: stats.evaluations,
						distinct_nontrivial: stats.nontrivial.size,
						rule: stats.rules.join(' '),
						samples: stats.samples,
						sections: stats.sections,
						known_findings_seen: knownSeen
					},
					assumptions: mod.assumptions ?? [],
					wall_s: (Date.now() - started) / 1000,
					violations: violations.length
				},
				null,
				1
			)}\n`
		)
	}
	if (violations.length) process.exitCode = 1
	else {
		console.log(
			`OK property=${id} tier=${tier} seed=${seed} evaluations=${stats.evaluations} distinct_nontrivial=${stats.nontrivial.size} wall_s=${((Date.now() - started) / 1000).toFixed(1)}`
		)
		if (args.includes('--stats')) console.log(JSON.stringify(stats.sections, null, 1))
	}
} catch (e) {
	if (e instanceof Mismatch) {
		report('preparation', undefined, String(e.stack))
		process.exit(1)
	}
	console.error(`ERROR property=${id}: ${e?.stack ?? e}`)
	process.exitCode = 2
}
process.exit(process.exitCode ?? 0)
