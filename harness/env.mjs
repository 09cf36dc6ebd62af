import { setMaxListeners } from 'node:events'
// Small stand-ins for the parts of a browser the library touches.
// They are deliberately strict where browsers are strict (brand checks, string
// coercion, key order, cancelable events), and record what was done to them.

/** Storage with the brand check real browsers have ("Illegal invocation"). */
export class FakeStorage {
	#m = new Map()
	getItem(k) {
		const v = this.#m.get(String(k))
		return v === undefined ? null : v
	}
	setItem(k, v) {
		this.#m.set(String(k), String(v))
	}
	removeItem(k) {
		this.#m.delete(String(k))
	}
	clear() {
		this.#m.clear()
	}
	key(i) {
		return [...this.#m.keys()][i] ?? null
	}
	get length() {
		return this.#m.size
	}
	/** harness only */
	static dump(s) {
		return new Map(s.#m)
	}
}

export class FakeErrorEvent extends Event {
	constructor({ message = '', filename = '', lineno = 0, colno = 0, error } = {}) {
		super('error', { cancelable: true })
		this.message = message
		this.filename = filename
		this.lineno = lineno
		this.colno = colno
		this.error = error
	}
}

export class FakeWindow extends EventTarget {
	constructor(props) {
		super()
		setMaxListeners(0, this)
		Object.assign(this, props)
		this.window = this
		this.self = this
	}
}

export function recordingConsole() {
	const calls = []
	const c = { calls }
	for (const m of ['log', 'info', 'warn', 'error', 'debug', 'trace', 'group', 'groupCollapsed', 'groupEnd'])
		c[m] = (...args) => void calls.push([m, args])
	return c
}

export const UA = {
	mac: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	windows: 'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	macSafari: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 13_1) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.1 Safari/605.1.15',
	macFirefox: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10.15; rv:121.0) Gecko/20100101 Firefox/121.0',
	iPhone: 'Mozilla/5.0 (iPhone; CPU iPhone OS 17_2 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.2 Mobile/15E148 Safari/604.1',
	android: 'Mozilla/5.0 (Linux; Android 13; Pixel 7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Mobile Safari/537.36',
	chromeOS: 'Mozilla/5.0 (X11; CrOS x86_64 14541.0.0) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
	ubuntu: 'Mozilla/5.0 (X11; Ubuntu; Linux x86_64; rv:121.0) Gecko/20100101 Firefox/121.0',
	linux: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36'
}

/** Deterministic Math.random for the library (mulberry32). */
export function seededMath(seed) {
	let a = seed >>> 0
	const m = Object.create(Math)
	m.random = () => {
		a = (a + 0x6d2b79f5) | 0
		let t = Math.imul(a ^ (a >>> 15), 1 | a)
		t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t
		return ((t ^ (t >>> 14)) >>> 0) / 4294967296
	}
	return m
}

/** Timers on a clock the harness moves. */
export function virtualTimers() {
	let now = 0
	let n = 0
	const due = new Map()
	return {
		timers: {
			setTimeout(fn, ms = 0, ...args) {
				due.set(++n, { at: now + ms, run: () => fn(...args) })
				return n
			},
			clearTimeout(id) {
				due.delete(id)
			}
		},
		advance(ms) {
			const end = now + ms
			for (;;) {
				const next = [...due].filter(([, t]) => t.at <= end).sort((a, b) => a[1].at - b[1].at || a[0] - b[0])[0]
				if (!next) break
				due.delete(next[0])
				now = next[1].at
				next[1].run()
			}
			now = end
		}
	}
}

export class FakeKeyEvent extends Event {
	constructor(type, init) {
		super(type, { cancelable: true, bubbles: true })
		Object.assign(this, { ctrlKey: false, altKey: false, shiftKey: false, metaKey: false, repeat: false }, init)
	}
}

/** Something history's createBrowserHistory() can work with. */
function fakeHistory(location, moved) {
	const entries = [{ state: null, url: '/' }]
	let i = 0
	return {
		get state() {
			return entries[i].state
		},
		get length() {
			return entries.length
		},
		pushState(state, _t, url) {
			entries.splice(i + 1)
			entries.push({ state, url })
			i++
			Object.assign(location, parse(url))
		},
		replaceState(state, _t, url) {
			entries[i] = { state, url: url ?? entries[i].url }
			if (url !== undefined && url !== null) Object.assign(location, parse(url))
		},
		go(n) {
			const j = i + n
			if (j < 0 || j >= entries.length) return
			i = j
			Object.assign(location, parse(entries[i].url))
			queueMicrotask(moved)
		},
		back() {
			this.go(-1)
		},
		forward() {
			this.go(1)
		}
	}
	function parse(url) {
		const u = new URL(url, 'http://localhost/')
		return { pathname: u.pathname, search: u.search, hash: u.hash, href: u.href }
	}
}

/**
 * A browser page. Storage objects can be handed over from an earlier page
 * (same origin), everything else is new.
 */
export function browserEnv({
	localStorage = new FakeStorage(),
	sessionStorage = new FakeStorage(),
	language = 'en-US',
	ua = UA.linux,
	fetch = async () => {
		throw new Error('no network')
	},
	buffer = false,
	seed = 1,
	MathImpl = seededMath(seed),
	timers = { setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout }
} = {}) {
	const console = recordingConsole()
	const navigator = { userAgent: ua, platform: /iPhone|iPad|iPod/.test(ua) ? ua.match(/iPhone|iPad|iPod/)[0] : /Mac/.test(ua) ? 'MacIntel' : /Windows/.test(ua) ? 'Win32' : 'Linux x86_64', language, languages: [language, 'en-US', 'en'] }
	const location = {
		href: 'http://localhost/',
		pathname: '/',
		search: '',
		hash: '',
		origin: 'http://localhost',
		host: 'localhost'
	}
	const history = fakeHistory(location, () => window.dispatchEvent(new Event('popstate')))
	const document = new FakeWindow({ location, title: '' })
	const window = new FakeWindow({
		localStorage,
		sessionStorage,
		navigator,
		location,
		history,
		document,
		console,
		...timers
	})
	document.defaultView = window
	// `fetch` of a real window insists on being called on that window.
	const windowFetch = function (...args) {
		if (this !== undefined && this !== window && this !== gt) throw new TypeError('Illegal invocation')
		return fetch(...args)
	}
	window.fetch = windowFetch
	const gt = new Proxy(window, {
		get(t, p) {
			if (p === 'Math') return MathImpl
			if (p === 'Buffer') return buffer ? Buffer : undefined
			if (p === 'globalThis' || p === 'window' || p === 'self') return p === 'globalThis' ? gt : window
			if (p === 'process' || p === 'global' || p === 'require') return undefined
			if (p in t) return t[p]
			return globalThis[p]
		},
		has: (t, p) => p in t || p in globalThis
	})
	return {
		window,
		document,
		console,
		navigator,
		location,
		localStorage,
		sessionStorage,
		globals: {
			globalThis: gt,
			window,
			self: window,
			document,
			localStorage,
			sessionStorage,
			navigator,
			location,
			history,
			addEventListener: (...a) => window.addEventListener(...a),
			removeEventListener: (...a) => window.removeEventListener(...a),
			dispatchEvent: e => window.dispatchEvent(e),
			fetch: windowFetch,
			console,
			Math: MathImpl,
			...timers,
			Buffer: buffer ? Buffer : undefined
		}
	}
}
