// Asks the TypeScript compiler about programs over the current sources of the repository.
import { entryOf, REPO, requireTools, workspacePackages } from './sut.mjs'
import path from 'node:path'

const ts = requireTools('typescript')

const options = {
	strict: true,
	noEmit: true,
	skipLibCheck: true,
	target: ts.ScriptTarget.ESNext,
	module: ts.ModuleKind.ESNext,
	moduleResolution: ts.ModuleResolutionKind.Bundler,
	lib: ['lib.esnext.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'],
	types: [],
	paths: {}
}

let host
let program
const parsed = new Map()
let text
const FILE = path.join(REPO, '__program__.ts')

function setup() {
	const packages = workspacePackages()
	for (const name of packages.keys())
		for (const spec of [name, `${name}/testing`]) {
			const entry = entryOf(packages, spec)
			if (entry) options.paths[spec] = [entry]
		}
	host = ts.createCompilerHost(options)
	const { fileExists, getSourceFile } = host
	host.fileExists = f => f === FILE || fileExists.call(host, f)
	// parsed once: nothing but the program changes while a check runs
	host.getSourceFile = (f, ...rest) => {
		if (f === FILE) return ts.createSourceFile(f, text, ts.ScriptTarget.ESNext, true)
		if (!parsed.has(f)) parsed.set(f, getSourceFile.call(host, f, ...rest))
		return parsed.get(f)
	}
}

/** What the compiler says about a program: errors by line (from 0), and the type of each export. */
export function compile(source) {
	if (!host) setup()
	text = source
	program = ts.createProgram([FILE], options, host, program)
	const file = program.getSourceFile(FILE)
	const checker = program.getTypeChecker()
	const errors = [...program.getSyntacticDiagnostics(file), ...program.getSemanticDiagnostics(file)].map(d => ({
		line: file.getLineAndCharacterOfPosition(d.start).line,
		message: ts.flattenDiagnosticMessageText(d.messageText, '\n').slice(0, 600)
	}))
	const types = new Map()
	for (const s of checker.getExportsOfModule(checker.getSymbolAtLocation(file))) types.set(s.name, checker.getTypeOfSymbol(s))
	return { errors, types, checker, show: t => checker.typeToString(t) }
}

const fromLib = t => t.symbol?.declarations?.some(d => program.isSourceFileDefaultLibrary(d.getSourceFile()))
const F = ts.TypeFlags

/** Undefined if the value can be of the type, else where and how it differs. */
export function misfit(checker, type, value, where = 'the value', depth = 4) {
	const wrong = () => `${where} is ${typeof value === 'object' || typeof value === 'function' ? Object.prototype.toString.call(value) : `${typeof value} ${String(value)}`}, but typed as ${checker.typeToString(type)}`
	const f = type.flags
	if (f & (F.Any | F.Unknown | F.TypeParameter)) return
	if (f & F.Never) return `${where} has a value (${String(value)}), but is typed as never`
	// void promises nothing of the value
	if (f & F.Void) return
	if (type.isUnion()) return type.types.some(t => !misfit(checker, t, value, where, depth)) ? undefined : wrong()
	if (type.isIntersection()) {
		for (const t of type.types) {
			const r = misfit(checker, t, value, where, depth)
			if (r) return r
		}
		return
	}
	if (f & F.StringLiteral || f & F.NumberLiteral) return value === type.value ? undefined : wrong()
	if (f & F.BooleanLiteral) return String(value) === checker.typeToString(type) ? undefined : wrong()
	if (f & (F.String | F.TemplateLiteral | F.StringMapping)) return typeof value === 'string' ? undefined : wrong()
	if (f & F.Number) return typeof value === 'number' ? undefined : wrong()
	if (f & F.Boolean) return typeof value === 'boolean' ? undefined : wrong()
	if (f & (F.ESSymbol | F.UniqueESSymbol)) return typeof value === 'symbol' ? undefined : wrong()
	if (f & F.Undefined) return value === undefined ? undefined : wrong()
	if (f & F.Null) return value === null ? undefined : wrong()
	if (f & F.BigInt) return typeof value === 'bigint' ? undefined : wrong()
	if (!(f & F.Object)) return
	if (value === null || value === undefined) return checker.getPropertiesOfType(type).some(p => !(p.flags & ts.SymbolFlags.Optional)) || type.getCallSignatures().length ? wrong() : undefined
	if (type.getCallSignatures().length && typeof value !== 'function') return wrong()
	if (checker.isTupleType(type)) {
		if (!Array.isArray(value)) return wrong()
		for (const [i, t] of checker.getTypeArguments(type).entries()) {
			const r = misfit(checker, t, value[i], `${where}[${i}]`, depth - 1)
			if (r) return r
		}
		return
	}
	if (checker.isArrayType(type)) {
		if (!Array.isArray(value)) return wrong()
		if (depth <= 0) return
		for (const [i, v] of value.entries()) {
			const r = misfit(checker, checker.getTypeArguments(type)[0], v, `${where}[${i}]`, depth - 1)
			if (r) return r
		}
		return
	}
	// what the page itself gives
	if (fromLib(type)) {
		if (type.symbol.name === 'Promise') return typeof value.then === 'function' ? undefined : wrong()
		return typeof value === 'object' || typeof value === 'function' ? undefined : wrong()
	}
	if (depth <= 0) return
	for (const p of checker.getPropertiesOfType(type)) {
		if (p.name.startsWith('__')) continue
		const t = checker.getTypeOfSymbol(p)
		let v
		try {
			v = value[p.name]
		} catch {
			continue
		}
		if (v === undefined && p.flags & ts.SymbolFlags.Optional) continue
		const r = misfit(checker, t, v, `${where}.${p.name}`, depth - 1)
		if (r) return r
	}
	const index = checker.getIndexInfosOfType(type).find(i => i.keyType.flags & F.String)
	if (index && typeof value === 'object')
		for (const k of Object.keys(value)) {
			if (checker.getPropertyOfType(type, k)) continue
			const r = misfit(checker, index.type, value[k], `${where}[${JSON.stringify(k)}]`, depth - 1)
			if (r) return r
		}
	return
}

export const awaited = (checker, type) => checker.getAwaitedType(type) ?? type
export const resultOf = type => type.getCallSignatures()[0]?.getReturnType()
