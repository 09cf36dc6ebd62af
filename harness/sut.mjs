// Builds the system under test from the current sources of the repository and
// instantiates it as many times as a check wants.
//
// Each instantiation evaluates the whole bundle again: module-level state starts
// fresh, which is what a page reload (or a second copy of the library on the same
// page) looks like to the code. Browser globals are function parameters of the
// bundle, so every instance can be given its own.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const here = path.dirname(fileURLToPath(import.meta.url))
export const requireTools = createRequire('/opt/veriftools/node/node_modules/')
export const esbuild = requireTools('esbuild')
export const fc = requireTools('fast-check')
export const REPO = process.env.VERIF_REPO ?? '/repo'

/** name -> directory of every workspace package */
export function workspacePackages() {
	const m = new Map()
	for (const group of fs.readdirSync(REPO, { withFileTypes: true })) {
		if (!group.isDirectory() || group.name === 'node_modules' || group.name.startsWith('.')) continue
		const dir = path.join(REPO, group.name)
		for (const pkg of fs.readdirSync(dir, { withFileTypes: true })) {
			const file = path.join(dir, pkg.name, 'package.json')
			if (!pkg.isDirectory() || !fs.existsSync(file)) continue
			const { name } = JSON.parse(fs.readFileSync(file, 'utf8'))
			if (typeof name === 'string' && name.startsWith('@just-web/')) m.set(name, path.join(dir, pkg.name))
		}
	}
	return m
}

export function entryOf(packages, spec) {
	const [, name, sub] = /^(@just-web\/[^/]+)(?:\/(.+))?$/.exec(spec) ?? []
	const dir = packages.get(name)
	if (!dir) return undefined
	const base = path.join(dir, 'src', sub ?? '')
	for (const f of ['index.ts', 'index.tsx']) if (fs.existsSync(path.join(base, f))) return path.join(base, f)
	for (const ext of ['.ts', '.tsx']) if (fs.existsSync(base + ext)) return base + ext
	return undefined
}

// Everything the sources may see as a free variable and that must not come from node.
const GLOBALS = [
	'globalThis',
	'window',
	'self',
	'global',
	'document',
	'localStorage',
	'sessionStorage',
	'navigator',
	'location',
	'history',
	'addEventListener',
	'removeEventListener',
	'dispatchEvent',
	'fetch',
	'console',
	'Math',
	'setTimeout',
	'clearTimeout',
	'Buffer',
	'process',
	'require',
	'module',
	'exports',
	'define'
]

/**
 * @param {Record<string,string>} entries  export name -> module specifier
 */
export async function buildSut(entries) {
	const packages = workspacePackages()
	const contents = Object.entries(entries)
		.map(([k, spec]) => `export * as ${k} from ${JSON.stringify(spec)}`)
		.join('\n')
	const result = await esbuild.build({
		stdin: { contents, resolveDir: here, loader: 'js', sourcefile: 'sut-entry.js' },
		bundle: true,
		write: false,
		format: 'iife',
		globalName: '__sut__',
		platform: 'browser',
		target: 'es2022',
		logLevel: 'silent',
		ignoreAnnotations: true,
		define: { 'process.env.NODE_ENV': '"development"' },
		tsconfigRaw: { compilerOptions: { useDefineForClassFields: true, target: 'ESNext' } },
		plugins: [
			{
				name: 'workspace',
				setup(build) {
					build.onResolve({ filter: /^@just-web\// }, args => {
						const p = entryOf(packages, args.path)
						return p ? { path: p } : undefined
					})
				}
			}
		]
	})
	const code = result.outputFiles[0].text
	const factory = new Function(...GLOBALS, `"use strict";\n${code}\nreturn __sut__`)
	return {
		code,
		/** Evaluates the bundle with the given browser environment (see env.mjs). */
		instantiate(env = {}) {
			const g = env.globals ?? {}
			return factory(...GLOBALS.map(k => g[k]))
		}
	}
}
