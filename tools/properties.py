#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/properties.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, tests, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(tests.split()),
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
S='libraries/states/src/'
p('C01','State updates behave like a plain variable',
 '''After any sequence of synchronous updates of a store (direct `set(value)`, updater that returns a value, updater that
 edits its draft in place, updater that returns `nothing`, `reset()`), `get()` is the value those updates produce one after the
 other on a plain variable that starts at the initial value; each `set` returns that value too.
 An updater is called exactly once, with the current value, a state created with a function treats functions given to `set` as values,
 and `createState`, `createStore` and `createRegistry` agree. `isNothing(x)` is true for `nothing` only.''',
 ['inputs','histories'],'every initial value (plain data nested at will, undefined, NaN, -0, functions, dates, maps, instances of classes) and every finite history of updates, also with async updates, resets and subscriptions in between',
 'The specs call set() once or twice per store on one or two fixed objects; they never run a long mix of direct, in-place, returning, clearing and resetting updates, where a stale internal value shows only in the next step.',
 [S+'state.ts',S+'store.ts',S+'registry.ts',S+'types.ts'],[('set()/commit of createState',S+'state.ts'),('createStore mirrors the state through onChange',S+'store.ts')],
 ['createStore().get/set/reset','createState() set result and onChange','createRegistry().get/set/reset'],
 [dict(name='value',meaning='current value inside createState',where=S+'state.ts'),dict(name='state[0]',meaning='copy served by store.get()',where=S+'store.ts')])
p('C02','Subscribers see every change exactly once, in order',
 '''Every synchronous update that changes the state (by Object.is) calls every currently subscribed handler exactly once, in subscription order, with
 the new value and the value it replaced, and `get()` already returns the new value inside the handler.
 An update that leaves the state unchanged (setting the same value, a no-op updater, resetting an untouched state) calls no handler.''',
 ['inputs','histories'],'every history of updates (also async ones, resets) to values of any kind over stores, registries and states with any number of subscribers that come and go',
 'Specs attach one handler and set one different and one equal value; order, the (new, previous) chain across many updates, and no-op updaters or edits that restore the same content are not covered.',
 [S+'state.ts',S+'store.ts'],[('notifyAfterSet',S+'state.ts'),('Object.is comparison',S+'state.ts')],['onChange handlers'],
 [dict(name='handlers',meaning='ordered subscriber list',where=S+'state.ts')])
p('C03','Subscription lifecycle is independent per subscriber',
 '''Subscribing a handler that is already subscribed neither adds a second call per change nor yields a function that unsubscribes it, and a function returned by
 `onChange` unsubscribes only its own subscription, also when called several times or after the handler was subscribed again.
 Unsubscribing while a change is being delivered (oneself or others) never makes a handler that stays subscribed miss that change or be called twice for it, and never affects `get()`.''',
 ['histories'],'every interleaving of subscribe, duplicate subscribe, unsubscribe (repeated, stale, from inside a handler) and updates of every kind',
 'Specs dispose one handler once, and check one duplicate; the mistakes live in repeated or stale disposes and in disposes during delivery.',
 [S+'state.ts',S+'store.ts'],[('onChange/dispose of createState',S+'state.ts')],['onChange handlers and dispose functions'],
 [dict(name='handlers',meaning='ordered subscriber list',where=S+'state.ts')])
p('C04','Values read from a state are immutable snapshots',
 '''A value obtained from a store (by `get()`, the result of `set`, or a change handler) is frozen and its content never changes afterwards, whatever updates follow; the parts of it
 that were produced by updaters are frozen all the way down.
 An updater that throws, or that both edits its draft and returns another value (which is refused with an error), leaves the state as it was, notifies nobody and the error reaches the caller of `set`; later updates work as if it never happened.''',
 ['inputs','histories','fault_sequences'],'every history of updates over nested plain data with updaters failing after an arbitrary prefix of their edits',
 'Specs check that the top object is frozen after one set; they keep no old snapshots across later updates and never let an updater fail half way.',
 [S+'state.ts'],[('Object.freeze and immer drafts',S+'state.ts')],['get(), set() result, onChange arguments'])
p('C05','Async updaters commit atomically when they resolve',
 '''An async updater starts from the value at the time of the call, the state stays as it is until the updater settles, then becomes what it resolved to (its draft as edited, before or after awaiting, when it resolves to undefined;
 undefined when it resolves to `nothing`; otherwise the resolved value, including null), and the promise from `set` resolves to that.
 Handlers are called once per change with the new value and the value held just before the commit, whatever other updates were committed in between.
 A rejected updater changes nothing, notifies nobody and rejects the promise.''',
 ['schedules','inputs','histories'],'every interleaving of several async updaters (with any number of awaits between edits, resolving to any kind of value), synchronous updates, resets and subscriptions',
 'Specs run one async updater at a time that edits before its first await or returns one object; overlapping updaters, edits after an await, null/`nothing` results followed by further updates and rejections are not run.',
 [S+'state.ts'],[('async branch of set',S+'state.ts')],['set() promise, get(), onChange'])
p('C06','Registry views agree with its record',
 '''At any time `keys()` lists exactly the own enumerable string keys and the own symbol keys of the record returned by `get()`, `size()` is their number, `values()` the corresponding values in the same order, and `has(k)` tells
 whether the record itself (not its prototype) holds a value other than undefined for k.
 This also holds for inherited-looking keys such as `toString` or `constructor`.''',
 ['inputs','histories'],'every history of additions, deletions, replacements and resets with string, numeric-like, symbol and Object.prototype-named keys',
 'Specs add one or two ordinary keys.',
 [S+'registry.ts'],[('keys/has/size/values',S+'registry.ts')],['createRegistry()'])
p('C07','Adders apply their entries one by one, as one change',
 '''`add(...entries)` of `adder`/`withAdder` leaves the state as if the entry handler had been applied to it once for each entry, in order, and subscribers see at most one change for the whole call, none if nothing changed.
 `push` appends and `unshift` prepends each entry (so several unshifted entries end up reversed), and a store extended by `withAdder` stays the same store: both handles see each other's updates.''',
 ['inputs','histories'],'every sequence of add calls with any number of entries, mixed with other updates',
 'Specs add one or two entries once.',
 [S+'adder.ts'],[('adder/withAdder/push/unshift',S+'adder.ts')],['add(), get(), onChange'])
p('C08','Readonly stores and registries are live, mutator-free views',
 '''A store or registry turned readonly always answers `get`, `onChange` (and `keys`, `has`, `size`, `values` for registries) exactly as its source does, at any time and in any order of use.
 It offers no way to change it: no `set`, `reset` or `add`.''',
 ['histories'],'every history of updates on the source with reads and subscriptions through both handles',
 'Specs convert once and read once; liveness after later updates and dispose through the view are not covered.',
 [S+'store.ts',S+'registry.ts'],[('toReadonlyStore/toReadonlyRegistry',S+'store.ts')],['toReadonlyStore(), toReadonlyRegistry()'])
p('C09','Invoking a command runs its latest registered handler',
 '''`handlers.invoke(id, ...args)` calls the handler registered last for exactly that id, exactly once, with exactly those arguments, and returns what it returns (or throws what it throws); handlers given as options count as registered first.
 For an id with no registered handler, whatever its spelling (also names of Object.prototype members), it calls nothing, returns undefined and logs an error naming the id; `has` and `keys` always tell exactly the registered ids.
 Registering over an existing handler logs a notice naming the id.''',
 ['inputs','histories'],'every sequence of registrations and invocations over arbitrary ids (including __proto__, constructor, empty) and arguments',
 'Specs register one or two ordinary ids.',
 ['plugins/commands/src/handlers.ts','plugins/commands/src/commands_gizmo.ts'],[('handlerRegistry','plugins/commands/src/handlers.ts')],['app.commands.handlers'])
p('C10','Commands dispatch to the handler and app they are connected to',
 '''Calling a command passes its arguments to, and returns the result of, its default (or last defined) handler before it is connected, and the handler registered for its id in the app connected most recently afterwards; with neither it
 returns undefined and reports an error naming the id.
 `connect(ctx, handler?)` registers the given handler, else the command's current one (none: nothing is registered or contributed), and for commands defined by an object (not a string id) adds the command to the contributions, and to the key bindings when the app has a keyboard and the command has a `key` or `mac`.
 A command carries its id as `id` and `name`, and the fields of its definition.
 All this holds for the ready-made `showCommandPalette` too (id `just-web.showCommandPalette`, key `ctrl+k`, mac `cmd+k`, not in the palette itself), and `app.commands.showCommandPalette()` runs the handler registered for that id in that app.''',
 ['inputs','histories','configurations'],'every history of defineHandler, connect (to several apps with or without keyboard, with or without handler), re-registration and calls, over every shape of command definition',
 'Specs check each transition once from a fresh command with one app.',
 ['plugins/commands/src/command.ts','plugins/commands/src/commands.ts'],[('command()','plugins/commands/src/command.ts')],['command(), app.commands, app.keyboard'])
p('C11','First command contribution of an id wins',
 '''`commands.contributions` holds, for every id ever contributed (through the options, `add` with any number of entries, or connecting a command), exactly the first contribution made for it, with all its fields (ids within the options being distinct); later ones are ignored
 and each logs an error naming the id.
 Registry views over it (`keys`, `has`, `values`, `size`, `get`) agree with that.''',
 ['inputs','histories'],'every sequence of add batches with colliding and prototype-named ids',
 'Specs add one duplicate, alone in its batch.',
 ['plugins/commands/src/contributions.ts'],[('contributionRegistry','plugins/commands/src/contributions.ts')],['app.commands.contributions, app.log'])
p('C12','First key binding contribution wins; formatting picks the platform key',
 '''`keyboard.keyBindingContributions` holds for every id exactly the first key binding contributed for it (ids within the options being distinct), and each later one is ignored with a warning naming the id.
 `formatKeyBinding` returns the id with `mac` on macOS if it is given and otherwise `key`; elsewhere always `key`.''',
 ['inputs','histories','configurations'],'every sequence of contributions in batches, every key/mac combination (absent, undefined, empty) on both platforms',
 'Specs check one duplicate and three fixed bindings.',
 ['plugins/keyboard/src/keyBindings.ts','plugins/os/src/os.ts'],[('keyBindingRegistry, formatKeyBinding','plugins/keyboard/src/keyBindings.ts')],['app.keyboard.keyBindingContributions, formatKeyBinding()'])
p('C13','Command titles default to the readable command name',
 '''`formatCommand` keeps the id, the description and a given title; without a title the title is the part of the id after its first `.` (the whole id when there is none) in sentence case: its words separated by single spaces, first letter upper case, the rest lower case.''',
 ['inputs'],'every id built from words in camel, kebab, snake or dotted case with or without a namespace',
 'One fixed id is checked.',
 ['plugins/commands/src/formatCommand.ts'],[('generateTitle','plugins/commands/src/formatCommand.ts')],['formatCommand()'])
p('C14','A key press runs exactly the command bound to it',
 '''With the browser keyboard active, pressing a key combination (or key sequence) invokes exactly once, without arguments, the command whose binding for the current platform was contributed first with that combination, and prevents the browser default (left alone for combinations nobody bound); no other command runs, also after any number of
 later additions, removals or replacements of bindings, before or after start.
 Combinations may be spelled with their modifiers in any order, with aliases (command, meta, option, mod, return, escape), or as the character they produce (`A`, `?`), which differs from the plain key; keys typed into text fields run nothing.
`mac` applies only on macOS (where it takes precedence over `key`), `cmd+` means the command key wherever it appears, and a binding whose combination is already taken is ignored with a warning naming its id.''',
 ['inputs','histories','configurations'],'every history of binding contributions and key presses on macOS and other platforms',
 'Specs press one key after one contribution; rebinding after updates, removals and collisions between platform keys are not run.',
 ['plugins/browser-keyboard/src/keyBindings.ts','plugins/browser-keyboard/src/browser_keyboard_gizmo.ts'],[('startKeyBindings/bindKey','plugins/browser-keyboard/src/keyBindings.ts')],['DOM keydown/keypress events, app.commands.handlers'],
 [dict(name='keys',meaning='combinations already bound',where='plugins/browser-keyboard/src/keyBindings.ts')])
PR='plugins/preferences/src/'; BP='plugins/browser-preferences/src/'
p('C15','Preferences behave like a map of strings',
 '''For the memory and the browser preferences alike: after any sequence of `set(key, value)`, `set(key, updater)` (sync or async) and `clearAll()`, `get(key)` is the value last stored for that key and `get(key, default)` is the default exactly when there is none; keys are independent of each other.
 Storing undefined, or an updater whose result is undefined or `nothing`, removes the preference; an updater receives the stored value (undefined if none); a failing updater changes nothing and its error reaches the caller.
 Once `set` returns (with an async updater: once the promise it returned resolves), the value is visible. The commands `just-web.getUserPreference`, `just-web.setUserPreference` and `just-web.clearAllUserPreferences` do the same.''',
 ['inputs','histories','schedules','configurations'],'every history over arbitrary well-formed Unicode strings and keys (including empty strings and Object.prototype names), on both implementations',
 'Specs set one or two ASCII values and do not mix removal, updaters and defaults.',
 [PR+'memory_preferences_gizmo.ts',PR+'preferences_gizmo.ts',BP+'browser_preferences_gizmo.ts'],[('set/get handlers',PR+'memory_preferences_gizmo.ts'),('set/get handlers',BP+'browser_preferences_gizmo.ts')],['app.preferences.get/set/clearAll, the preference commands'])
p('C16','Browser preferences survive restarts, scoped to their app',
 '''A value stored through browser preferences is returned unchanged by an app of the same name started later over the same local storage, for any well-formed Unicode key and value, and is never kept in local storage as readable text of the value.
 Apps with different names sharing that storage never see, change or clear each other's preferences: apps of the same name share their preferences, each seeing at once what the other does; every storage key used starts with the app name, and `clearAll` removes all preferences of its own app and nothing else in the storage (colons in app names are a recorded exception).''',
 ['inputs','histories','crash_points','configurations'],'every interleaving of operations by several differently named apps, restarts between any two operations, with foreign entries in the storage',
 'Specs use one app instance, and one clearAll with two apps; no restart is simulated.',
 [BP+'browser_preferences_gizmo.ts'],[('getKey/serialize/deserialize/clearAll',BP+'browser_preferences_gizmo.ts')],['localStorage, app.preferences'])
p('C17','Typed preference stores round-trip JSON values',
 '''`preferences.createStore(key, default?)` returns from `get()` a value deeply equal to the JSON value last set through any store on that key (or what the last updater returned, or its argument as edited in place, also asynchronously), and the default value when nothing is stored or after setting undefined or `nothing`.
 The default object itself is never modified by the store, and a value given to `set` or read from what is stored is the caller's own: changing it afterwards changes nothing. Falsy JSON values (null, false, 0, "") are kept, and stores on different keys do not affect each other.''',
 ['inputs','histories','configurations'],'every history of typed sets and updaters over arbitrary JSON values with and without defaults, on memory and browser preferences, with restarts',
 'Specs run each kind of set once on a fixed small value.',
 [PR+'preferences_gizmo.ts'],[('createStore',PR+'preferences_gizmo.ts')],['app.preferences.createStore()'])
p('C18','Apps in one page keep separate preferences',
 '''When several apps run in the same page, whatever the order of their creation and whichever preference implementation each uses, `app.preferences` (get, set, clearAll, and stores created from it before or after other apps appear) always reads and writes the preferences of that app only.''',
 ['histories','configurations'],'every interleaving of app creation and preference operations over two to four apps',
 'Specs never operate an app after another one was created in the same module instance.',
 [PR+'preferences_gizmo.ts',PR+'preferences.ts','plugins/commands/src/command.ts'],[('preferencesGizmo dispatches through the app own handlers',PR+'preferences_gizmo.ts')],['app.preferences'])
p('C19','Language changes are stored and announced in order',
 '''`i18n.getLanguage()` is the initial language until the first `setLanguage`, then the last one set; every set calls all handlers registered by then exactly once, in registration order, with the new and the previous language, after `getLanguage()` already returns the new one.
 The set-language command of an app with commands does the same for that app.''',
 ['inputs','histories','configurations'],'every history of language changes through both entry points and handler registrations, with several independent apps',
 'Specs change the language once.',
 ['plugins/i18n/src/i18n_gizmo.ts','plugins/i18n/src/commands.ts'],[('i18nGizmoFn','plugins/i18n/src/i18n_gizmo.ts')],['app.i18n, setLanguageCommand'])
p('C20','The chosen language survives restarts until cleared',
 '''With browser i18n, an app starts in the language stored for its name if there is one and otherwise in the browser's language; a language set by API or command is what the app of that name starts in next time.
 `clearLanguage()` returns to the browser language, announces that change, and makes the next start follow the browser again; apps of other names and other storage entries are never affected.''',
 ['inputs','histories','crash_points','configurations'],'every history of set, command, clear, restart and browser-language changes for several apps over one storage',
 'Specs use one app instance and one change.',
 ['plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts'],[('storage key and clearLanguage','plugins/browser-i18n/src/browser_i18n_gizmo.ts')],['app.i18n, localStorage'])
p('C21','Navigation reaches exactly the registered route',
 '''`navigate(route)` runs exactly once the handler currently registered for exactly that route, and `navigate()` the one for the configured initial route (`/` unless configured; the latest `config` wins); for an unknown route it runs nothing and logs an error naming it.
 A registered route cannot be replaced: a second registration is ignored with an error and its unregister function does nothing; an unregister function removes only its own registration, `clearRoutes` removes all and keeps the configuration, and `hasRoute` tells exactly what is registered.''',
 ['inputs','histories'],'every history of register, unregister (repeated, stale), clear, config and navigate over arbitrary route strings including Object.prototype names',
 'Specs register one route and navigate once.',
 ['plugins/routes/src/routes_gizmo.ts'],[('routesGizmo','plugins/routes/src/routes_gizmo.ts')],['app.routes, app.log'])
p('C22','A failing event listener is contained and logged',
 '''Emitting through `events.emitter` never throws because of a listener: every error thrown by a listener is logged as an error through the app logger, and the emitter keeps working for later events.
 Listeners that do not fail receive exactly the emitted arguments, in subscription order, once per emission (only once at all for `once`), up to the first failing listener; removed listeners receive nothing. All this holds with `justEvent` events, and when the app brings its own emitter: that is the one used, whether through the app or directly.''',
 ['inputs','histories','fault_sequences'],'every history of subscribe, unsubscribe and emit with listeners that throw arbitrary values',
 'Specs throw once from a single listener.',
 ['plugins/events/src/events_gizmo.ts'],[('trapError wiring','plugins/events/src/events_gizmo.ts')],['app.events.emitter, app.log'])
p('C23','Log entries carry the app identity and respect levels',
 '''Entries logged through the app have the app name as logger id, those of `app.log.getLogger(x)` or `getNonConsoleLogger(x)` `name:x`, and those of a prefixed getLogger `name:prefix:x` (`name:prefix` for an empty id), in the spelling of the log library (it writes punctuation such as `?` as `-`); arguments arrive unchanged, and `getLogger()` without id is the app logger.
 A message reaches the reporters exactly when its level is within the configured level (info by default, debug for test apps), per logger level first, including custom levels, whose methods exist on the app log.''',
 ['inputs','configurations'],'every combination of app name, logger id, prefix, configured level, custom levels and log method',
 'Specs log a few fixed messages at one or two levels.',
 ['frameworks/log/src/log_gizmo.logic.ts','frameworks/log/src/logger.ts','frameworks/log/src/log_gizmo.ts','frameworks/log/src/log_gizmo.testing.ts'],[('buildLogContext, createPrefixedGetLogger','frameworks/log/src/log_gizmo.logic.ts')],['app.log, reporters'])
p('C24','Apps are composed from their gizmos, later ones win',
 '''An app built from any sequence of `with` and `merge` steps has the id fields plus everything its gizmos and merged objects provide and nothing else, a later one overriding an earlier one of the same field; each gizmo is created exactly once, in order,
 in the context of what the earlier steps provide (name and id first, then log).
 The start function returned by a gizmo runs once, right after that gizmo is created and before later ones; the `init` callback and then the `start` given to `create` run once each, after all gizmos and awaited, with the complete app, which is the one `create` resolves to.
 The cleanup functions these three return are called once each, in that order, by `incubate.cleanup(app)` and not before.''',
 ['programs','configurations'],'every composition program of static, tuple, value-less, start-function, function and merged gizmos up to a size, with and without init and start, for justApp and justTestApp',
 'Specs compose one or two gizmos each.',
 ['frameworks/app/src/just_app.logic.ts','frameworks/app/src/just_app.ts','frameworks/app/src/just_app.testing.ts'],[('incubateApp proxy','frameworks/app/src/just_app.logic.ts')],['justApp(), justTestApp()'])
p('C25','Creating an app reports it, whatever its log looks like',
 '''Every app created, also each of several created from one incubator, logs at info level, exactly once and after everything else succeeded, an entry containing the app id, through the app's own log under the app's name; if a gizmo replaced `log` by something unusable, creation still succeeds with that replacement kept, and the entry goes to a logger built from the app's log options.
 If a gizmo, init or start function fails, `create` rejects with that error and nothing is reported as created.''',
 ['programs','configurations','fault_sequences'],'every placement of a log override, usable or not, or a failing step among the gizmos, with any log level',
 'Specs check one override and the plain message.',
 ['frameworks/app/src/just_app.logic.ts'],[('create wrapper with fallback log','frameworks/app/src/just_app.logic.ts')],['justApp().create(), reporters'])
p('C26','Every app has its name and a 15-character id of its own',
 '''An app keeps exactly the name it was given (test apps default to `test`) and gets an id of exactly 15 lower-case letters and digits, whatever the random source returns.
 Apps created one after another on a random source of full resolution that does not repeat get different ids.''',
 ['inputs','configurations'],'every pair of random numbers in [0, 1), including 0, 0.5 and numbers with short base-36 expansions, and every name',
 'Specs look at one or two random draws, where short expansions are practically never seen.',
 ['frameworks/id/src/id_gizmo.logic.ts','frameworks/id/src/id_gizmo.ts'],[('genAppID','frameworks/id/src/id_gizmo.logic.ts')],['app.id, app.name'])
BR='plugins/browser/src/'
p('C27','Uncaught page errors are recorded and logged',
 '''Every error event on the window from the creation of the browser gizmo on (also while later gizmos are being created) appends, in order, one `BrowserError` to `browser.errors` carrying its message, source, line, column and original error as cause, notifies subscribers of the store, and logs an error;
 the event's default is prevented exactly when the `preventDefault` option is set.
 The store cannot be changed by the app, and each app on the page records on its own, until it is cleaned up (`incubate.cleanup(app)`, for an app that uses the browser gizmo directly), after which it neither records nor prevents anything.''',
 ['inputs','histories','configurations'],'every sequence of error events with arbitrary fields, before and after creation completes, for several apps',
 'Specs raise one error; two of them do not even run under this test environment.',
 [BR+'browser_gizmo.ts',BR+'error_store.ts',BR+'errors.ts'],[('error listener',BR+'browser_gizmo.ts')],['app.browser.errors, app.log, event.defaultPrevented'])
p('C28','Browser facilities can be replaced one by one',
 '''`app.fetch` is what the last fetch gizmo provides (the fetch given to it, else the page's own), or what the browser gizmo after it was given in its options; with the browser gizmo alone it is the page's own; `app.browser` exposes the page's own storages, navigator and location, except for those replaced in a test gizmo, which are used as given while all others stay the real ones.
 `app.history` is the given history or else one that drives the page's history, and `os.isMac()` tells whether the browser's platform is macOS unless a test gizmo replaces it.''',
 ['configurations','inputs'],'every subset of replaced facilities, every order of gizmos, and user agents of the common platforms',
 'Specs replace one facility at a time.',
 [BR+'browser_gizmo.ts',BR+'browser_gizmo.ctx.ts',BR+'browser_gizmo.testing.ts','plugins/fetch/src/fetch_gizmo.ts','plugins/fetch/src/fetch_gizmo.mocks.ts','plugins/history/src/history_gizmo.ts','plugins/os/src/os.ts','plugins/os/src/os_gizmo.ts','plugins/os/src/os_gizmo.mocks.ts'],[('ctx and option precedence',BR+'browser_gizmo.ts')],['app.fetch, app.browser, app.history, app.os'])
p('C29','The browser preset adds to an app without changing it',
 '''An app using the browser preset (or its test variant) gets `browser`, `fetch`, `preferences` and `history` working as the separate gizmos with the same options would, and everything the app already had (name, id, log, commands, keyboard and the rest) stays the very same object, also when log was overridden before.
 Preferences and error logging of the preset act for that app: under its name, in its log.''',
 ['configurations','histories'],'every option subset and surrounding gizmos, with a history of preference, error and navigation operations compared between preset and separate gizmos',
 'Specs check that the fields exist, and one log override.',
 ['presets/browser/src/presets_browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.mocks.ts'],[('presetsBrowserGizmoFn','presets/browser/src/presets_browser_gizmo.ts')],['the created app'])
p('C30','Storage stand-ins behave like web storage',
 '''`stubStorage()` answers `setItem`, `getItem`, `removeItem`, `clear`, `key` and `length` as web storage does after any history with string keys and values, keys listed each once, and every stub is separate.
 `stubLocalStorage(stub)` and `stubSessionStorage(stub)` use every member given in the stub, also falsy ones, and behave as the page's real storage for all others.''',
 ['histories','configurations'],'every history of storage operations with arbitrary strings (empty, prototype names) and every subset of stubbed members',
 'Specs stub one method, and check key() for one item.',
 [BR+'browser_gizmo.testing.ts',BR+'testing/storage.mocks.ts'],[('stubStorage, stubLocalStorage, stubSessionStorage',BR+'browser_gizmo.testing.ts')],['the Storage interface'])
p('C31','App states are plain states logged under the app',
 '''`app.states.createState`, `createStore` and `createRegistry` yield states that behave exactly as the stand-alone functions under every history of updates.
 Each change is logged once, at planck level with the old and the new value, by the app's own logger under the app name, or by the logger given in `meta` and then not by the app logger.''',
 ['histories','configurations'],'every history of updates and subscriptions run side by side on app states and stand-alone ones, with and without a custom logger',
 'Specs create each kind once and read it.',
 [S+'states_gizmo.ts',S+'log.ts'],[('statesGizmo',S+'states_gizmo.ts')],['app.states, app.log'])
p('C32','The formatjs gizmo formats as createIntl would',
 '''`app.formatjs.intl` of the formatjs gizmo formats messages, numbers, dates, lists and names exactly as `createIntl(config, cache)` called with the same options, including what is reported to the config's `onError`.
 It uses the cache it was given and no other, and apps with different configurations do not affect each other.''',
 ['configurations','inputs'],'every combination of locale, messages, time zone and cache for several apps, with a sequence of formatting calls',
 'The spec only checks that intl is defined.',
 ['plugins/formatjs/src/formatjs_gizmo.ts'],[('formatJSGizmoFn','plugins/formatjs/src/formatjs_gizmo.ts')],['app.formatjs.intl'])
p('C33','Ready-made test apps are complete apps of their own',
 '''`setupMemoryPreferencesTestApp()`, `browserPreferencesGizmoTestApp(options)` and `browserKeyboardGizmoTestApp()` resolve to a new app that provides and does exactly what a test app does that is composed by hand from the same gizmos (key bindings, commands, and the preferences, browser or keyboard the name tells) with the same options.
 In particular the options' name, log options and replaced browser facilities are used, the name is `test` without options, and apps made one after another share nothing but the page.''',
 ['configurations','histories'],'every combination of options and every history of uses of several such apps on one page',
 'The specs use these helpers without options or with a replaced storage, and never compare them with a composed app.',
 [PR+'preferences_gizmo.mocks.ts','plugins/browser-preferences/src/browser_preferences_gizmo.mocks.ts','plugins/browser-keyboard/src/browser_keyboard_gizmos.mock.ts'],[('setup functions of the test apps',PR+'preferences_gizmo.mocks.ts')],['the created apps'])
p('C34','Apps on one page do not affect each other',
 '''Whatever other apps are created and used on the same page, before, after or while an app is being created or used, and even if they are made with the same gizmo objects and the same option objects, everything the app returns, logs under its name, stores under its name, announces and shows
 is what it would be if it were the only app of the page: its commands, contributions, preferences, language, routes, event listeners, recorded errors and states.
 Page events (errors, key presses) reach each app as if it were alone.''',
 ['schedules','histories','configurations'],'every set of apps with different names (one of them binding keys to the page), every interleaving of the steps of their creations, their uses and page events',
 'Each spec makes one app, or two apps that are used for one thing; nothing runs two creations at the same time, so anything kept per module, per gizmo object or per option object goes unseen.',
 ['frameworks/app/src/just_app.logic.ts','plugins/commands/src/commands_gizmo.ts','plugins/commands/src/handlers.ts','plugins/commands/src/contributions.ts','plugins/keyboard/src/keyBindings.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/events/src/events_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/browser-preferences/src/browser_preferences_gizmo.ts',PR+'preferences_gizmo.ts',PR+'memory_preferences_gizmo.ts',BR+'browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.ts'],[('state made in create() of each gizmo','plugins/*/src/*_gizmo.ts')],['the created apps, their logs, window.localStorage'])
p('C35','The order of independent gizmos does not matter',
 '''Two compositions of an app from the same gizmos, in any two orders in which each gizmo comes after those it requires or makes use of, give apps that behave the same from then on: same fields, same results, logs, storage and announcements for the same uses and page events.''',
 ['programs','histories','configurations'],'every set of gizmos, every two orders of it that respect what each gizmo needs, and every history of uses',
 'Every spec composes its gizmos in one order.',
 ['plugins/commands/src/commands_gizmo.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/browser-keyboard/src/browser_keyboard_gizmo.ts','plugins/browser-keyboard/src/keyBindings.ts','plugins/i18n/src/i18n_gizmo.ts',PR+'preferences_gizmo.ts',BR+'browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.ts'],[('context given to create() of each gizmo','plugins/*/src/*_gizmo.ts')],['the created apps, their logs, window.localStorage'])
p('C36','Calls made from inside handlers work like any other call',
 '''A handler, whatever called it (a command, a route, a language change, an event, a change of a store, registry, contributions or the recorded errors), may itself make any call on the app: each such call, to any depth, calls exactly the handlers it would call from outside, once each, in order and with its own arguments, returns what it would return, and takes effect before it returns.
 After all of it everything the app answers is the result of all calls in the order in which they were made; an outer call continues with its own arguments and values.''',
 ['programs','histories'],'every set of handlers of every kind, every sequence of calls from outside and every tree of calls made by the handlers they reach',
 'Handlers of the specs record that they were called and do nothing else, so a state that is written late, read again after a handler ran, or delivered from a queue goes unseen.',
 [S+'state.ts',S+'store.ts',S+'registry.ts','plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/commands/src/contributions.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/events/src/events_gizmo.ts',PR+'preferences_gizmo.ts',BR+'browser_gizmo.ts',BR+'error_store.ts'],[('handlers called by commands, routes, i18n, events and states','plugins/*/src, libraries/states/src')],['the created app, the calls of its handlers'])
p('C37','A failing call leaves the app working',
 '''When something fails in a call on the app (a command, route or language handler, a subscriber, an updater before or after its edits, an adder entry, a value that cannot be serialized, a storage that cannot be read or written, a gizmo or callback of another app being created), its very error reaches the caller (for event listeners: the log), and nothing else is lost.
 A failed updater, adder or storage write leaves the state or preference as it was; a failed handler or subscriber leaves the change it was told about in place (value, language and stored language, contribution, handler), and those before it have been called.
 Every later call works as if there had been no failure, and a creation that failed can be repeated.''',
 ['fault_sequences','histories'],'every history of calls with any participant of any call failing',
 'Specs let one updater or listener fail and then stop; none looks at the rest of the app after a failure, or makes a storage fail.',
 [S+'state.ts',S+'adder.ts','plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/commands/src/contributions.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/events/src/events_gizmo.ts',PR+'preferences_gizmo.ts',PR+'memory_preferences_gizmo.ts','plugins/browser-preferences/src/browser_preferences_gizmo.ts','frameworks/app/src/just_app.logic.ts'],[('order of writes and notifications in every call','plugins/*/src, libraries/states/src')],['the created app, errors thrown, the local storage'])
p('C38','What an app is given is only read',
 '''The content of every object given to an app or one of its plugins stays as it was: options of every gizmo (log, commands, keyboard, browser, preset, os, fetch, events, i18n, formatjs; also their arrays of contributions, bindings and reporters), merged objects, contributions, key bindings, command definitions, initial states, new states and results of updaters, list entries, preference defaults and values, route configurations, logger options, arguments, messages and their values, causes of errors.
So the same objects can be given again, to another app, and deeply frozen ones work: the app behaves exactly as with fresh ones.''',
 ['inputs','histories'],'every composition of gizmos with every option, and every history of calls with objects given: fresh, given to an earlier app, or deeply frozen',
 'Specs give literals they never look at again, to one app only.',
 ['frameworks/app/src/just_app.logic.ts','frameworks/app/src/just_app.testing.ts','frameworks/log/src/log_gizmo.testing.ts','frameworks/log/src/log_gizmo.ts',S+'state.ts',S+'registry.ts',S+'adder.ts','plugins/commands/src/commands_gizmo.ts','plugins/commands/src/contributions.ts','plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/browser/src/browser_gizmo.ts',PR+'memory_preferences_gizmo.ts','plugins/browser-preferences/src/browser_preferences_gizmo.ts','plugins/formatjs/src/formatjs_gizmo.ts','plugins/routes/src/routes_gizmo.ts'],[('options, initial states and arguments','plugins/*/src, frameworks/*/src, libraries/states/src')],['the objects given, the created app, its log'])
p('C39','The type of an app tells what the app has',
 '''The compiler takes a link of a chain `.with(gizmo)` if, and only if, what the gizmo requires comes before it, whichever app or incubator the chain starts from and whichever options the gizmos are given.
The type of the app (at `create()`, in the callbacks of `init` and `create`, and by `justApp.Infer`) has exactly the fields the created app has, and each member down to the results of gizmos of the program has the type it is given.''',
 ['programs','configurations'],'every chain of gizmos of the repository, with and without options (log levels of the program among them), of gizmos of the program that require or want others by their exported types, and of merged objects',
 'The specs assert the inferred type of a few fixed compositions; a gizmo typed with more or less than it gives or needs shows only in a composition nobody wrote down, or only once the app runs.',
 ['frameworks/app/src/just_app.ts','frameworks/app/src/just_app.logic.ts','frameworks/app/src/just_app.testing.ts','frameworks/id/src/id_gizmo.ts','frameworks/log/src/log_gizmo.ts',S+'states_gizmo.ts','plugins/commands/src/commands_gizmo.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/os/src/os_gizmo.ts','plugins/browser-keyboard/src/browser_keyboard_gizmo.ts',PR+'memory_preferences_gizmo.ts','plugins/browser-preferences/src/browser_preferences_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/events/src/events_gizmo.ts','plugins/formatjs/src/formatjs_gizmo.ts','plugins/fetch/src/fetch_gizmo.ts','plugins/history/src/history_gizmo.ts','plugins/browser/src/browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.ts'],[('static: define.require / optional, and the result of create()','*/src/*_gizmo.ts'),('type of the incubator','frameworks/app/src/just_app.ts')],['diagnostics and types of the TypeScript compiler','the created app'])
p('C40','Typed calls take and give what their types say',
 '''A program that uses states, registries, adders, commands, contributions, key bindings, preferences, languages, routes and the rest of an app with values of the types it names compiles, gets results of exactly these types, and the values it then gets at run time are of them.
A call with an argument of another type, a missing or surplus one, or of a member the type does not have (a setter of a readonly store, say) is rejected by the compiler.''',
 ['programs','inputs'],'every program of up to six parts over more than twenty types of values, in an app for the browser or with memory stand-ins, and every ill-typed variant of its calls that the generator knows',
 'The specs assert the type of a handful of calls with one type each; nothing compares the types with what the calls return, and a parameter that has become `any` accepts every call the specs make.',
 [S+'state.ts',S+'store.ts',S+'registry.ts',S+'adder.ts',S+'types.ts','plugins/commands/src/command.ts','plugins/commands/src/handlers.ts','plugins/commands/src/contributions.ts','plugins/commands/src/formatCommand.ts','plugins/keyboard/src/keyBindings.ts',PR+'preferences_gizmo.ts',PR+'preferences.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/browser/src/errors.ts'],[('signatures of the exported functions','*/src/index.ts')],['diagnostics and types of the TypeScript compiler','the values the program gets'])
if __name__ == '__main__':
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        print(json.dumps(x,ensure_ascii=False))
