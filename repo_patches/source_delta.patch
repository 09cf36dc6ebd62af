From 53dd689fe204eb6328f3733a1644449c697e73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 01/21] fix: async updaters keep their draft alive until they
 resolve

An updater that touched its draft after an await hit a revoked proxy, null
was ignored as a result, clearing with `nothing` was reported but not
stored, and `prev` was the value before the updater started instead of the
value being replaced.
---
 libraries/states/src/state.ts | 48 ++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..459fdd0 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { nothing, produce } from 'immer'
+import { createDraft, current, finishDraft, isDraft, nothing, original } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -22,6 +22,8 @@ export type ResetState = () => void
 
 export type StateMeta = { logger?: Logger }
 
+type Box = { value: any; result: any }
+
 /**
  * creates a functional style state to track changes of a value.
  *
@@ -60,27 +62,31 @@ export function createState<T>(
 	) {
 		if (Object.is(value, newValue)) return newValue
 
-		const old = value
-		if (typeof init === 'function' || typeof newValue !== 'function') {
-			value = Object.freeze(newValue as T)
-		} else {
-			let p: Promise<T | void> | undefined
-			const r = produce(old, draft => {
-				const x = (newValue as any)(draft)
-				if (isPromise(x)) p = x
-				else return x
-			})
-			if (p) {
-				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
-					return notifyAfterSet(old, value)
-				})
-			}
-			value = Object.freeze(r)
+		if (typeof init === 'function' || typeof newValue !== 'function') return commit(newValue as T)
+
+		// The updater may be async and keep using the draft after it yields,
+		// so the draft has to stay alive until its result is known.
+		const box = createDraft<Box>({ value, result: undefined })
+		const draft = box.value
+		const r = (newValue as any)(draft)
+		if (isPromise<T>(r)) return r.then(v => commit(finish(box, v)))
+
+		if (r !== undefined && r !== draft && isDraft(draft) && current(draft) !== original(draft)) {
+			throw new Error('An updater must either return a new value or modify its draft, not both.')
 		}
+		return commit(finish(box, r))
+	}
+
+	function finish(box: Box, result: T | void | typeof nothing): T {
+		if (result === nothing) return undefined as T
+		if (result === undefined) return finishDraft(box).value
+		box.result = result
+		return finishDraft(box).result
+	}
+
+	function commit(newValue: T) {
+		const old = value
+		value = Object.freeze(newValue)
 		return notifyAfterSet(old, value)
 	}
 
-- 
2.43.0


From d993de6425519cad38f10688f9abcc497271b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 02/21] fix: do not notify when an updater leaves the state
 unchanged

---
 libraries/states/src/state.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 459fdd0..dee1942 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -87,7 +87,7 @@ export function createState<T>(
 	function commit(newValue: T) {
 		const old = value
 		value = Object.freeze(newValue)
-		return notifyAfterSet(old, value)
+		return Object.is(old, value) ? value : notifyAfterSet(old, value)
 	}
 
 	function onChange(handler: StateChangeHandler<T>) {
-- 
2.43.0


From 3671f7a33142a5d0d72e55a574ee0f23596354ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 03/21] fix: disposing a state handler twice must not remove
 another handler

---
 libraries/states/src/state.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index dee1942..c1f6aa5 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -94,7 +94,10 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let disposed = false
 		return () => {
+			if (disposed) return
+			disposed = true
 			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
-- 
2.43.0


From 57bdc2a79b84391c4c309a3d880b280e2f7eef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 04/21] fix: disposing a state handler while notifying must not
 skip another handler

---
 libraries/states/src/state.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index c1f6aa5..c67c700 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -51,8 +51,8 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
-			h(value, old)
+		handlers.slice().forEach(h => {
+			if (handlers.includes(h)) h(value, old)
 		})
 		return value
 	}
-- 
2.43.0


From 2226bfa3d425f38fd8ee2a7adde88db9386e87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 05/21] fix: registry.has() only reports its own keys

---
 libraries/states/src/registry.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..b215d2d 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -33,7 +33,8 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			const r = store.get()
+			return Object.prototype.hasOwnProperty.call(r, key) && r[key] !== undefined
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From 9696cb5a49aec325fcf66fa0204f115c86f8b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 06/21] fix: command ids are not looked up in Object.prototype

---
 plugins/commands/src/handlers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..6f15af9 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,9 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(
+		Object.assign(record<string, AnyFunction>(), options)
+	)
 
 	return {
 		/**
-- 
2.43.0


From 3db0083e1ea579894e8b24b1152369a0d335a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 07/21] fix: command title from an id without a namespace

---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From a7422cda9c821c70c288dc1e61b1d622772229af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/21] fix: a preference is removed when its updater returns
 undefined

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts          | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..11d8dfe 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, async (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as any)(original) : value
 			MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..febb256 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,9 +32,9 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? value(storage[key]) : value
 			return MaybePromise.transform(v, v => {
-				if (isNothing(v)) delete storage[key]
+				if (isNothing(v) || v === undefined) delete storage[key]
 				else storage[key] = v
 			})
 		})
-- 
2.43.0


From b7733697abc302ce3e7439bb89355abe320e8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 09/21] fix: preference stores keep in-place updates and leave
 the default value alone

---
 plugins/preferences/src/preferences_gizmo.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..23fadc3 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,10 +49,14 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
-								return MaybePromise.transform(value(orig as any), v => {
+								const stored = v
+								const before = stored ?? JSON.stringify(defaultValue)
+								const draft: T | undefined = before !== undefined ? JSON.parse(before) : undefined
+								return MaybePromise.transform(value(draft as any), v => {
 									if (isNothing(v)) return v
 									if (v !== undefined) return JSON.stringify(v)
+									const after = JSON.stringify(draft)
+									return after === before ? stored : after
 								})
 							})
 						}
-- 
2.43.0


From 8adfd2849f77a18a6ffd05e61908ad7cbb001783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 10/21] fix: setting a browser preference waits for its updater
 and reports its failure

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 11d8dfe..360e6f5 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -28,11 +28,11 @@ export const browserPreferencesGizmo = define({
 			ctx.log.planck(`get: '${k}'`)
 			return getItem(k) ?? defaultValue
 		})
-		setUserPreference.connect(ctx, async (key, value) => {
+		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? (value as any)(original) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 4ed46adf286d0e0d5de61c079e89eabb15c4cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 11/21] fix: app.preferences uses the preferences of its own
 app

---
 plugins/preferences/src/preferences_gizmo.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index 23fadc3..52629c6 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -2,7 +2,7 @@ import { define } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,17 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
+		// The commands reach whichever app is connected last.
+		// Go through the handlers of this app, so that each app gets its own preferences.
+		function bind<C extends AnyFunction & { id: string }>(command: C) {
+			return ((...args) => commands.handlers.invoke(command.id, ...args)) as ExtractFunction<C>
+		}
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				get: bind(getUserPreference),
+				set: bind(setUserPreference),
+				clearAll: bind(clearAllUserPreferences),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
-- 
2.43.0


From bfc692f9971f4156bbe91fe3ff688bf6c04d747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 12/21] fix: a preference starting with a byte order mark is
 read back in full

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 360e6f5..b12740b 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,7 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { decode, encode } from 'js-base64'
+import { encode, toUint8Array } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
 /**
@@ -72,5 +72,5 @@ function serialize(value: string) {
 }
 
 function deserialize(value: string | null) {
-	return value === null ? undefined : decode(value)
+	return value === null ? undefined : new TextDecoder('utf-8', { ignoreBOM: true }).decode(toUint8Array(value))
 }
-- 
2.43.0


From 82f20953a30a5fc50dca4156cff20478197abd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 13/21] fix: a stale unregister must not remove a later
 registration of the route

---
 plugins/routes/src/routes_gizmo.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..6a249ff 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -36,13 +36,14 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				const entry = () => handler()
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
 					store.set(s => {
-						delete s.routes[route]
+						if (s.routes[route] === entry) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From 41e88a6b716a8df0748f025df87b10499201a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 14/21] fix: map every cmd in a key sequence

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..5252dca 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -50,5 +50,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From 93855cec155640b03c46fc68481fca0d8bd66eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 15/21] fix: app id is always 15 characters long

---
 frameworks/id/src/id_gizmo.logic.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..07483f4 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,5 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).padEnd(15, '0').substring(0, 15)
 	}
 }
-- 
2.43.0


From 0c1173689f19360506f2f50ed3816e0471779d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 16/21] fix: BrowserError takes any thrown value as its cause

Passing it through iso-error wrote to the cause: an uncaught DOMException or
frozen error made the error listener throw, so it was neither recorded nor logged.
---
 plugins/browser/src/errors.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/errors.ts b/plugins/browser/src/errors.ts
index 08d9205..2db2c0f 100644
--- a/plugins/browser/src/errors.ts
+++ b/plugins/browser/src/errors.ts
@@ -14,6 +14,9 @@ export class BrowserError extends JustWebBrowserError {
 		public colno?: number,
 		error?: Error
 	) {
-		super(event.toString(), { cause: error })
+		super(event.toString())
+		// not passed through `ModuleError`, as it writes to the cause,
+		// which fails for frozen errors, `DOMException`, and changes primitives.
+		this.cause = error as Error
 	}
 }
-- 
2.43.0


From d4a50f2d42f25921bbd8727593269a3bff9f990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 17/21] fix: fetch of fetchTestGizmoFn() works as a method of
 the app

Called as app.fetch() in a browser it threw 'Illegal invocation'.
---
 plugins/fetch/src/fetch_gizmo.mocks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/fetch/src/fetch_gizmo.mocks.ts b/plugins/fetch/src/fetch_gizmo.mocks.ts
index ded1479..0a961a0 100644
--- a/plugins/fetch/src/fetch_gizmo.mocks.ts
+++ b/plugins/fetch/src/fetch_gizmo.mocks.ts
@@ -9,7 +9,7 @@ export const fetchTestGizmoFn = (options?: FetchTestGizmoOptions) =>
 	define({
 		create() {
 			return {
-				fetch: options?.fetch ?? (fetch as Fetch)
+				fetch: options?.fetch ?? (globalThis.fetch.bind(globalThis) as Fetch)
 			}
 		}
 	})
-- 
2.43.0


From 5c8c621ce4bbc6576bc6a5ce79fa328256894bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 18/21] fix: app.commands.showCommandPalette() reaches the app
 it belongs to

---
 plugins/commands/src/commands_gizmo.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 10512bd..7589c4e 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -1,6 +1,6 @@
 import { type DepBuilder, define, type GizmoStatic, type LogGizmo } from '@just-web/app'
 import type { KeyboardGizmo } from '@just-web/keyboard'
-import { type AnyFunction, extractFunction } from 'type-plus'
+import type { AnyFunction } from 'type-plus'
 import { showCommandPalette } from './commands.js'
 import { contributionRegistry } from './contributions.js'
 import { handlerRegistry } from './handlers.js'
@@ -35,7 +35,8 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				showCommandPalette: extractFunction(showCommandPalette)
+				// through the handlers of this app, as the command itself reaches whichever app is connected last.
+				showCommandPalette: () => handlers.invoke(showCommandPalette.id)
 			}
 		}
 	}
-- 
2.43.0


From a9b9973b691e5dcb35de802a0a0968a641e6d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 19/21] fix: logTestGizmoFn() does not write to the options it
 is given

---
 frameworks/log/src/log_gizmo.testing.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frameworks/log/src/log_gizmo.testing.ts b/frameworks/log/src/log_gizmo.testing.ts
index ad45ea4..ff3a832 100644
--- a/frameworks/log/src/log_gizmo.testing.ts
+++ b/frameworks/log/src/log_gizmo.testing.ts
@@ -26,7 +26,8 @@ export type LogTestGizmoOptions<N extends string = LogMethodNames> = StandardLog
 export const logTestGizmoFn = define(<N extends string = LogMethodNames>(options?: LogTestGizmoOptions<N>) => ({
 	static: define.require(idGizmoFn),
 	async create(ctx: IdGizmo) {
-		const sl = createStandardLogForTest<N>(options)
+		// `createStandardLogForTest()` writes to the options it gets
+		const sl = createStandardLogForTest<N>({ ...options, reporters: [...(options?.reporters ?? [])] })
 		return {
 			log: Object.assign(buildLogContext<N>(ctx.name, sl, options), {
 				reporter: sl.reporter
-- 
2.43.0


From 7de4f6c903634b8d75eed81c888af9983c797f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 20/21] fix: adders of registries and lists take what their
 types say

---
 libraries/states/src/adder.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libraries/states/src/adder.ts b/libraries/states/src/adder.ts
index 7dbc6e8..a5bcc8d 100644
--- a/libraries/states/src/adder.ts
+++ b/libraries/states/src/adder.ts
@@ -15,11 +15,11 @@ export type WithAdder<T> = {
 export function adder<R extends Registry<any, any>>(
 	registry: R,
 	handler: (record: Draft<RegistryValue<R>>, entry: RecordValue<RegistryValue<R>>) => void
-): Adder<ReturnType<RecordValue<RegistryValue<R>>>>
-export function adder<A extends Array<any>, S extends Store<A>>(
+): Adder<RecordValue<RegistryValue<R>>>
+export function adder<S extends Store<any[]>>(
 	store: S,
-	handler: (record: Draft<A>, entry: UnionOfValues<A>) => void
-): Adder<UnionOfValues<A>>
+	handler: (record: Draft<StoreValue<S>>, entry: UnionOfValues<StoreValue<S>>) => void
+): Adder<UnionOfValues<StoreValue<S>>>
 export function adder<S extends Store<Record<KeyTypes, any>>>(
 	store: S,
 	handler: (record: Draft<StoreValue<S>>, entry: RecordValue<StoreValue<S>>) => void
@@ -38,10 +38,10 @@ export function withAdder<R extends Registry<any, any>>(
 	registry: R,
 	addEntry: (record: Draft<RegistryValue<R>>, entry: RecordValue<RegistryValue<R>>) => void
 ): R & WithAdder<RecordValue<RegistryValue<R>>>
-export function withAdder<A extends Array<any>, S extends Store<A>>(
+export function withAdder<S extends Store<any[]>>(
 	store: S,
-	addEntry: (record: Draft<A>, entry: ReturnType<S['get']>) => void
-): S & WithAdder<UnionOfValues<ReturnType<S['get']>>>
+	addEntry: (record: Draft<StoreValue<S>>, entry: UnionOfValues<StoreValue<S>>) => void
+): S & WithAdder<UnionOfValues<StoreValue<S>>>
 export function withAdder<S extends Store<Record<any, any>>>(
 	store: S,
 	addEntry: (record: Draft<StoreValue<S>>, entry: RecordValue<StoreValue<S>>) => void
-- 
2.43.0


From ac979b14d2f943da8ab9cbd3d7a790feb40004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 21/21] fix: justApp() takes the log levels of the program

---
 frameworks/app/src/just_app.logic.ts   | 4 ++--
 frameworks/app/src/just_app.testing.ts | 7 +++++--
 frameworks/app/src/just_app.ts         | 4 ++--
 frameworks/app/src/just_app.types.ts   | 6 ++++--
 frameworks/log/src/log_gizmo.types.ts  | 2 +-
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/frameworks/app/src/just_app.logic.ts b/frameworks/app/src/just_app.logic.ts
index 488505d..d4f3cdf 100644
--- a/frameworks/app/src/just_app.logic.ts
+++ b/frameworks/app/src/just_app.logic.ts
@@ -1,9 +1,9 @@
 import { type IdGizmo, idGizmoFn } from '@just-web/id'
-import { logGizmoFn } from '@just-web/log'
+import { type LogMethodNames, logGizmoFn } from '@just-web/log'
 import { type GizmoIncubator, incubate } from '@unional/gizmo'
 import type { JustAppOptions } from './just_app.types.js'
 
-export function incubateApp(options: JustAppOptions): GizmoIncubator<IdGizmo> {
+export function incubateApp<N extends string = LogMethodNames>(options: JustAppOptions<N>): GizmoIncubator<IdGizmo> {
 	const incubator = incubate().with(idGizmoFn(options))
 	return new Proxy(incubator, {
 		get(target, prop) {
diff --git a/frameworks/app/src/just_app.testing.ts b/frameworks/app/src/just_app.testing.ts
index 9b3d35a..48c32dd 100644
--- a/frameworks/app/src/just_app.testing.ts
+++ b/frameworks/app/src/just_app.testing.ts
@@ -1,8 +1,11 @@
+import type { LogMethodNames } from '@just-web/log'
 import { type LogTestGizmo, type LogTestGizmoOptions, logTestGizmoFn } from '@just-web/log/testing'
 import { incubateApp } from './just_app.logic.js'
 import type { IdGizmo, IdGizmoOptions } from './just_web_id.js'
 
-export type JustAppTestOptions = Partial<IdGizmoOptions> & { log?: LogTestGizmoOptions | undefined }
+export type JustAppTestOptions<N extends string = LogMethodNames> = Partial<IdGizmoOptions> & {
+	log?: LogTestGizmoOptions<N> | undefined
+}
 
 /**
  * Create a test jest-app.
@@ -15,7 +18,7 @@ export type JustAppTestOptions = Partial<IdGizmoOptions> & { log?: LogTestGizmoO
  * app.log.reporter.... // to inspect the logs
  * ```
  */
-export function justTestApp(options?: JustAppTestOptions) {
+export function justTestApp<N extends string = LogMethodNames>(options?: JustAppTestOptions<N>) {
 	const name = options?.name ?? 'test'
 	return incubateApp({
 		...options,
diff --git a/frameworks/app/src/just_app.ts b/frameworks/app/src/just_app.ts
index a0f2ca7..1f5a199 100644
--- a/frameworks/app/src/just_app.ts
+++ b/frameworks/app/src/just_app.ts
@@ -1,10 +1,10 @@
-import { type LogGizmo, logGizmoFn } from '@just-web/log'
+import { type LogGizmo, type LogMethodNames, logGizmoFn } from '@just-web/log'
 import { incubateApp } from './just_app.logic.js'
 import type { JustAppOptions } from './just_app.types.js'
 import type { IdGizmo } from './just_web_id.js'
 import type { GizmoIncubator } from './unional_gizmo.js'
 
-export function justApp(options: JustAppOptions) {
+export function justApp<N extends string = LogMethodNames>(options: JustAppOptions<N>) {
 	return incubateApp(options).with(logGizmoFn(options.log))
 }
 
diff --git a/frameworks/app/src/just_app.types.ts b/frameworks/app/src/just_app.types.ts
index ef4b59a..30bde4c 100644
--- a/frameworks/app/src/just_app.types.ts
+++ b/frameworks/app/src/just_app.types.ts
@@ -1,7 +1,9 @@
 import type { IdGizmo, IdGizmoOptions } from '@just-web/id'
-import type { LogGizmo, LogGizmoOptions } from '@just-web/log'
+import type { LogGizmo, LogGizmoOptions, LogMethodNames } from '@just-web/log'
 
-export type JustAppOptions = IdGizmoOptions & { log?: LogGizmoOptions | undefined }
+export type JustAppOptions<N extends string = LogMethodNames> = IdGizmoOptions & {
+	log?: LogGizmoOptions<N> | undefined
+}
 
 /**
  * This is the basic type of an `JustApp`.
diff --git a/frameworks/log/src/log_gizmo.types.ts b/frameworks/log/src/log_gizmo.types.ts
index f5153a1..0886bbb 100644
--- a/frameworks/log/src/log_gizmo.types.ts
+++ b/frameworks/log/src/log_gizmo.types.ts
@@ -3,7 +3,7 @@ import type { Omit } from 'type-plus'
 
 export type LogGizmoOptions<N extends string = LogMethodNames> = StandardLogOptions<N>
 
-export type GizmoStandardLog<N extends string = LogMethodNames> = Omit<StandardLog<N>, 'getLogger'> &
+export type GizmoStandardLog<N extends string = LogMethodNames> = Omit<StandardLog<LogMethodNames | N>, 'getLogger'> &
 	Omit<Logger<LogMethodNames | N>, 'id' | 'level' | 'write'> & {
 		getLogger(id?: string, options?: LoggerOptions): Logger<LogMethodNames | N>
 	}
-- 
2.43.0

