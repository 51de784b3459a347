#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

SW, PM, PL, ST, BD, HU = ("pluginManagerSwapper.go", "pluginManager.go", "plugin.go", "staticPlugin.go",
    "cli/hotswap/cmd/build.go", "internal/hutils/hutils.go")

prop("C01", "A failed load or reload changes nothing",
 "If LoadPlugins, Reload or ReloadWithCallback does not succeed - whatever the cause: an unreadable or invalid plugin file, a missing or mistyped function, an error or panic in any plugin function, a dependency or live-name conflict, a rejecting callback - Current() still returns the very same manager with the same plugins, imports and live tables, none of that manager's plugins has been freed, and the reload counter has not moved. A later load is unaffected by the failure: it behaves as if the failed one had never been attempted (as far as the Go runtime lets the same plugin content be opened again).",
 ["inputs", "histories", "fault_sequences"],
 "every history of loads and reloads over every plugin population, with a fault injected at every stage of every plugin (open, symbol lookup, Reloadable, Export, Import, dependency resolution, OnLoad, live tables, OnInit, callbacks)",
 "Tests trigger about a dozen single failures on a fresh manager, mostly below the swapper, and never look at Current(), the reference counts or a following reload after a failure.",
 [SW, PM],
 [("current", "the published manager", "PluginManagerSwapper.current"), ("Refs", "how many managers hold a plugin instance", "Plugin.Refs")],
 [("manager built aside and stored last", "loadPluginFiles"), ("rollback of references and OnFree on error or panic", "loadPlugins deferred function, invokeReloadCallbacks")],
 ["return value of LoadPlugins/Reload", "Current(), Plugins(), Vault, ReloadCounter() after each call", "OnFree calls"])

prop("C02", "Current() only ever shows complete managers, which never change",
 "A manager becomes visible through Current() only after every new plugin in it has completed OnLoad and OnInit, its Vault is filled and every reload callback has accepted it. Once visible, its plugin set, order, imports, live tables and the attributes of its plugins (name, file, time, note) are never altered by later reloads, failures or retirements. Current() never waits for a load in progress: meanwhile it keeps returning the previous manager.",
 ["schedules", "histories"],
 "every point of every load at which another goroutine may call Current(), in every history of concurrent loads",
 "Tests are single-threaded: no test reads Current() while a load is running, nor looks at an old manager again after a later reload.",
 [SW, PM],
 [("current", "the published manager", "PluginManagerSwapper.current")],
 [("atomic store as the last step of a load", "loadPluginFiles, loadStaticPlugins")],
 ["Current() read inside every plugin function and callback and by concurrent readers"])

prop("C03", "OnFree runs at most once and never on a plugin still in use",
 "For every plugin instance (one loading of one plugin) OnFree is called at most once over the whole life of the process. It is never called while any manager holding the instance is current, is still being built, or has been replaced less than the free delay ago; an instance carried over from one manager to the next counts as held by both.",
 ["histories", "schedules", "fault_sequences"],
 "every history of loads that keep, replace, drop and fail, overlapping with any set of pending retirements, in any order of timer expiry",
 "Tests check one reload and look for one log line; the reference count is asserted for one linear chain without failures, overlapping retirements or callbacks.",
 [PM, SW],
 [("Refs/freeOnce", "shared between the copies of one instance", "Plugin")],
 [("reference counting", "addUnchanged, invokeEveryOnFree")],
 ["OnFree calls of each instance"])

prop("C04", "Every plugin instance that falls out of use is freed",
 "With dynamic loading, when the last manager holding an instance has been replaced and its free delay has elapsed, OnFree of that instance has been called, and a panic in some OnFree does not keep the others from being called. If a load, dynamic or static, fails, every plugin it had newly loaded (whose Export had completed) has been freed by the time the call returns.",
 ["histories", "fault_sequences"],
 "every history of loads, failures and retirements; at every quiescent point after the delays have elapsed",
 "A leak is the absence of an event after minutes; the tests wait 1.2 s once, for one plugin.",
 [PM, SW],
 [("Refs", "holders of an instance", "Plugin.Refs")],
 [("delayed release goroutine", "loadPluginFiles"), ("release on failure", "loadPlugins deferred function, invokeReloadCallbacks")],
 ["OnFree calls of each instance"])

prop("C05", "Replaced plugins stay alive for the whole free delay",
 "The plugins of a replaced manager are not released before the configured free delay (five minutes by default, and never less than 15 seconds however small the configured value) has passed since it was replaced, and they are released promptly once it has. Each replaced manager has its own delay: later loads neither shorten nor extend it.",
 ["histories", "configurations"],
 "every configured delay (negative, zero, below, at and above the minimum, default) and every history of overlapping retirements",
 "The tests override the 15 s floor and look once after 1.2 s; the default and the floor themselves are never exercised.",
 [SW],
 [("minFreeDelay, opts.freeDelay", "floor and configured delay", "pluginManagerSwapper.go")],
 [("sleep for the larger of the two, then release", "loadPluginFiles")],
 ["time of OnFree relative to the swap"])

prop("C06", "Lifecycle functions run exactly once, phase by phase",
 "In a successful load every newly loaded plugin has Reloadable, Export, Import, OnLoad and OnInit called exactly once each, in that order; no Import runs before all new plugins have exported, no OnLoad before all dependencies are resolved, no OnInit before all OnLoads have returned; OnLoad receives the data given by the caller and OnInit the Vault of the new manager. Plugins carried over from the previous manager have none of these called again, and after the first error or panic no further lifecycle function of that load is called.",
 ["inputs", "histories", "fault_sequences"],
 "every plugin population and dependency graph, every mix of new and carried-over plugins, and a fault at every stage",
 "Tests look at log lines of three plugins for one graph; call counts, phase barriers across plugins and silence after a failure are not asserted.",
 [PM, ST],
 [("unchanged", "plugin carried over from the previous manager", "Plugin.unchanged")],
 [("phase sequence", "loadPlugins, loadStaticPlugins")],
 ["calls of the plugin functions"])

prop("C07", "Everything runs in dependency order",
 "For every dependency of plugin A on plugin B, direct or transitive, B comes before A in Plugins(), in the OnLoad calls, in the OnInit calls and in InvokeEach, and after A in InvokeEachBackward and whenever plugins of a load whose dependencies were resolved are freed. Plugins() lists every plugin of the manager exactly once.",
 ["inputs", "histories"],
 "every acyclic dependency graph over the loaded plugins, with any subset of them carried over from the previous manager",
 "Tests check four fixed graphs of at most four plugins; the order depends on map iteration and name order, so a sampled graph can pass by luck.",
 [PM],
 [("ordered", "dependency order", "PluginManager.ordered")],
 [("topological ordering", "orderPlugins"), ("reverse iteration", "invokeEveryOnFree, InvokeEachBackward")],
 ["Plugins()", "order of plugin calls"])

prop("C08", "Imports are wired to the instances of the same manager",
 "After a successful load, for every exported field of a plugin's Import() struct whose name matches (ignoring case) a plugin of the same manager that exports a non-nil value, the field holds exactly the value exported by the instance of that plugin in that very manager, whether the two plugins are new or carried over. A field whose plugin exports nil and a field tagged hotswap:\"-\" or unexported are left as the plugin set them; a plugin's recorded dependencies are exactly its untagged exported fields.",
 ["inputs", "histories"],
 "every combination of import and export kinds, name case and tags, over histories in which either side is kept, replaced, dropped or re-added",
 "Tests look at one field set after one or two loads; nil exports, kept dependencies and stale wiring after partial reloads are not examined.",
 [PM],
 [("exported, Deps", "exported value and dependency names of an instance", "Plugin")],
 [("field assignment", "initDeps")],
 ["fields of the Import() object", "Plugin.Deps"])

prop("C09", "Exactly the unsatisfiable dependency sets are rejected",
 "A load is rejected if and only if - its plugin files and functions being otherwise in order - some new plugin's Import() is neither nil nor a pointer to a struct, or has an untagged exported field that is embedded, names no loaded plugin, has a type the dependency's exported value is not assignable to, or belongs to a non-reloadable plugin while the dependency is reloadable; or the dependencies form a cycle; or a carried-over plugin depends on one that was replaced or is gone. Every satisfiable set of plugins loads.",
 ["inputs", "histories"],
 "every dependency graph (including self and longer cycles), every mix of reloadable and non-reloadable, kept, replaced, removed and added plugins",
 "Each rejection is tested by one example; combinations (a cycle among carried-over plugins, a removed dependency, a diamond) and the absence of false rejections are not.",
 [PM],
 [("Deps", "dependency names", "Plugin.Deps")],
 [("validation", "initDeps, checkCyclicDependency")],
 ["return value of the load"])

prop("C10", "A plugin is kept if and only if unchanged or not reloadable",
 "On a load over an existing manager, a plugin of that manager whose file is present again is carried over as the same live instance if its loaded instance is not reloadable or its file content equals the content that instance was loaded from; otherwise the file's current content is loaded as a new instance. The comparison is with what is actually loaded - failed attempts in between have no influence - and the returned details report each plugin, and only those, as \"ok\", \"unchanged\" or \"not reloadable\" accordingly (\"not reloadable\" taking precedence over \"unchanged\"); their text lists the same plugins and reports.",
 ["inputs", "histories"],
 "every history of file changes, reverts, removals and additions interleaved with successful and failed loads",
 "Tests walk one linear history of successful reloads; failed attempts, reverts, case changes and file changes during a load are not covered.",
 [PM, SW],
 [("FileSha1, reloadable, Note", "identity of the loaded content", "Plugin")],
 [("classification", "removeNotReloadable, removeUnchanged, addUnchanged"), ("details", "loadPluginFiles")],
 ["instance identity behind each plugin", "Details", "Plugin.FileSha1/Note"])

prop("C11", "A load covers exactly the selected plugin files",
 "After a successful load from a non-empty selection the manager holds exactly one plugin per regular file with the plugin suffix directly in the plugin directory, or, with a whitelist, exactly the whitelisted ones; a plugin whose file is gone is gone. The load fails if a whitelisted plugin is missing or if two selected files have names that differ only in case, whether loaded dynamically or statically; with nothing to load it changes nothing. Each plugin is found by its name ignoring case, and no other name finds one.",
 ["inputs", "configurations", "histories"],
 "every directory content (directories, other suffixes, case variants) and every whitelist, over histories of changes",
 "The whitelist is not tested at all and directory contents are always the plain expected files.",
 [SW, PM, ST],
 [("pluginMap", "plugins by lower-case name", "PluginManager")],
 [("directory scan and whitelist", "loadPluginsImpl"), ("duplicate detection", "loadPlugins"), ("static selection", "loadStaticPlugins")],
 ["Plugins(), FindPlugin()", "return value of the load"])

prop("C12", "The Vault is complete, conflict-free and per manager",
 "When the first OnInit of a load runs, and ever after, the Vault's live functions and live types are exactly the union of those of all plugins of that manager, carried-over ones included and removed or replaced ones excluded, each name mapped to the value registered by its plugin's instance in that manager. If two plugins register the same live function name, or the same live type name, or a plugin yields no table at all, the load fails. DataBag starts empty and Extension is a fresh object for every load.",
 ["inputs", "histories"],
 "every distribution of live names over plugins, over histories in which plugins are kept, replaced, dropped and added",
 "Tests check names of one plugin after its first load and two duplicate cases; carried-over plugins' tables, removal and freshness are not checked.",
 [PM, "vault/vault.go", ST],
 [("LiveFuncs, LiveTypes, DataBag, Extension", "shared vault", "vault.Vault")],
 [("collection and duplicate detection", "setupVault"), ("fresh vault", "newPluginManager")],
 ["Vault in OnInit and on the manager"])

prop("C13", "InvokeEach reaches every plugin despite failures",
 "InvokeEach and InvokeEachBackward on any manager, current or replaced, call InvokeFunc of every plugin of that manager exactly once with the given name and parameters, even when some of them return errors or panic. They never panic themselves, and every such error or panic is logged.",
 ["inputs", "histories", "fault_sequences"],
 "every subset of plugins failing by error or panic, on current and replaced managers, before, during and after reloads",
 "Tests run one pair of plugins in which both fail in the same way.",
 [PM],
 [("ordered", "plugins of the manager", "PluginManager.ordered")],
 [("per-plugin recover", "InvokeEach, InvokeEachBackward")],
 ["InvokeFunc calls", "Error log calls"])

prop("C14", "Loads are serialised and the counter counts successful reloads",
 "Concurrent calls of LoadPlugins, Reload and ReloadWithCallback behave as if executed one after the other: no plugin function or callback of one load runs before an earlier load has finished, and each load starts from the manager that the previous successful one published. ReloadCounter() always equals the number of Reload and ReloadWithCallback calls that have succeeded so far, and never counts LoadPlugins or failures.",
 ["schedules", "histories"],
 "every interleaving of any number of concurrent calls, with any of them failing",
 "No test calls the swapper from two goroutines, and ReloadCounter is not tested.",
 [SW],
 [("mu", "serialises loads", "PluginManagerSwapper.mu"), ("reloadCounter", "successful reloads", "PluginManagerSwapper.reloadCounter")],
 [("mutex", "LoadPlugins, ReloadWithCallback")],
 ["order of calls of the plugin functions", "ReloadCounter()"])

prop("C15", "Reload callbacks run once, in order, before the switch and can veto it",
 "In every load that got through all OnInit calls, the configured reload callback and then the extra callback of ReloadWithCallback are each called exactly once with the new manager and the manager it is about to replace (nil for the first, and in static mode), while Current() still returns the latter. If one returns an error or panics, the later one is not called, the load fails with an error and the new manager is discarded; a load that failed earlier calls none.",
 ["histories", "fault_sequences"],
 "every history of loads with configured and extra callbacks accepting, failing or panicking",
 "One test counts calls of one callback; arguments, Current() at the time and the effect of a veto on state are not checked.",
 [SW],
 [("opts.reloadCallback", "configured callback", "PluginManagerSwapper.opts")],
 [("callback loop", "invokeReloadCallbacks, ReloadWithCallback")],
 ["callback arguments, Current() inside the callback"])

prop("C16", "Panics in plugin code or callbacks never escape or wedge",
 "A panic that recover reports (all but panic(nil) under GODEBUG=panicnil=1) in any function of any plugin, or in a reload callback, during a load is turned into a non-nil error returned by that call, and one in OnFree or InvokeFunc (when run by InvokeEach) is contained and logged. Afterwards the swapper is fully usable: the next load, Current() and pending frees neither block nor panic.",
 ["fault_sequences", "histories"],
 "a panic at every plugin function of every plugin, alone and in sequence, followed by any further operation",
 "Each panic is tested once on a manager that is then thrown away; OnFree panics on the timer, and the state of the swapper after a panic, are not covered.",
 [PM, PL, SW, ST],
 [("mu", "must be released", "PluginManagerSwapper.mu")],
 [("recover wrappers", "invokeReloadable/Export/Import, invokeEveryOn*, loadPlugins, invokeReloadCallbacks")],
 ["return value of the load", "subsequent calls"])

prop("C17", "Static linking mode gives the same load guarantees",
 "With static plugins, LoadPlugins takes exactly the given (or whitelisted) plugins through the same lifecycle, dependency order and validation, import wiring, Vault set-up and callbacks as dynamic loading does, refuses plugins with missing functions, publishes the manager only on success, and frees what was loaded on failure. Reload and ReloadWithCallback always fail in this mode without calling anything or changing any state.",
 ["inputs", "fault_sequences", "configurations"],
 "every plugin population, dependency graph, whitelist and fault as for dynamic loading",
 "One test loads three independent plugins successfully and counts table entries.",
 [ST, SW, PM],
 [("staticPlugins", "plugins compiled into the host", "PluginManagerSwapper.staticPlugins")],
 [("static load path", "loadStaticPlugins, loadStaticPlugin"), ("refusal", "ReloadWithCallback")],
 ["return values, plugin function calls, Current()"])

prop("C18", "Lookup assigns a symbol only when types fit and says why otherwise",
 "Plugin.Lookup stores the named symbol into the target exactly when the target is a non-nil pointer to a type to which the symbol itself, or else the variable it points to, is assignable (the former taking precedence); it then returns nil. It returns ErrNotExist exactly when the arguments are valid and the plugin has no such symbol, and another error in all other cases; in every error case the target is untouched and nothing panics.",
 ["inputs"],
 "every combination of symbol kind (function, variable, pointer, interface, absent, empty name) and target kind",
 "The test covers seven combinations; most cells of the table, and that the target stays untouched, are not covered.",
 [PL],
 [],
 [("case analysis", "Lookup, isNil")],
 ["return value and target of Lookup"])

prop("C19", "What runs is a private copy of exactly the content that was read",
 "Every newly loaded plugin is opened from a private copy that holds exactly the content whose checksum is recorded for it, at a path no other content ever had - also when several versions are loaded within the same second, or files change while a load is running. Loading never modifies, moves or opens the files in the plugin directory itself, so they may be overwritten or deleted at any time without affecting loaded plugins.",
 ["histories", "schedules"],
 "every history of file changes, including changes between the steps of a running load and loads within one clock second",
 "The tests never change a file during a load, and the build shim forces loads into different seconds.",
 [PM],
 [("fileData, fileSha1", "content read once", "fileInfo"), ("dirName", "per-manager copy directory", "PluginManager")],
 [("copy keyed by checksum", "copyPlugin")],
 ["path and content given to plugin.Open", "files of the plugin directory"])

prop("C20", "Plugins that break the plugin contract are refused",
 "A dynamic or static load that includes a new plugin lacking any of the nine required functions, or (dynamically) having one with a different signature or as something other than a function or function variable, fails before any function of that plugin has been called; if functions are missing the error names every missing one. A plugin having all of them is never refused for this reason.",
 ["inputs"],
 "every subset of missing functions and every position of a mistyped one, alone and among other plugins",
 "Three fixed plugins (two with missing functions, one with a wrong type).",
 [PM, PL, ST],
 [],
 [("symbol table walk", "makePluginFuncItemList, loadPlugin, loadStaticPlugin")],
 ["return value of the load, plugin function calls"])

prop("C21", "The build registers exactly the live functions and types",
 "hotswap build (dynamic and static) registers every top-level function and every struct type whose name starts with the live prefix, compared ignoring case, in any file of the plugin's packages (those its root package may import) that is compiled (test files, and files excluded by build constraints or tags, are not), under its exact name, and nothing else; methods and other declarations are ignored. It fails, producing no plugin, if a live name occurs twice in the plugin or a live type is not a struct.",
 ["programs", "configurations"],
 "every plugin source tree and live prefix",
 "The tests build fixed plugins with the default prefix and look at one or two names.",
 [BD, "cli/hotswap/cmd/hotswapLive.tpl", "cli/hotswap/cmd/hotswapMain.tpl", "cli/hotswap/cmd/hotswapBureau.tpl"],
 [],
 [("declaration scan and code generation", "completePlugin, genHotswapLive, genHotswapMain")],
 ["generated code, Vault of a host that loads the result"])

prop("C22", "Static linking generates consistent files for any set of plugins",
 "After any sequence of static-linking builds and cleanings of plugins that share an output directory, the generated files are exactly those of the plugins whose last operation was a build, reflecting their sources at that time: generating or cleaning one plugin never removes or alters what was generated for another (plugins being disjoint trees whose names differ in more than case), and the output package compiles and registers exactly those plugins. No user-written file is ever modified or removed, and repeating a successful build changes nothing.",
 ["histories", "programs"],
 "every sequence of build and clean operations over any set of plugins and source edits",
 "The test builds three plugins one after the other and skips itself when their files are not all there, which is always the case without the test script's work-around.",
 [BD, "cli/hotswap/cmd/hotswapStaticPluginInit.tpl", "cli/hotswap/cmd/hotswapStaticPlugins.tpl"],
 [],
 [("removal and generation", "removeStaticFiles, genHotswapStaticPluginInit, genHotswapStaticPlugins")],
 ["files in the plugin and output directories"])

prop("C23", "The build compiles exactly the selected source files",
 "A dynamic build takes, from the whole plugin directory tree, every .go file except _test.go files and files generated by hotswap itself, plus every other file whose base name matches --include and does not match --exclude, each at the same relative place and, apart from the package clause of the root package and the plugin's own import paths, with identical content.",
 ["programs", "configurations"],
 "every directory tree and every include/exclude pair",
 "The include and exclude options are not tested; trees are fixed.",
 [BD],
 [],
 [("selection and copy", "collectFiles, copyFiles")],
 ["the temporary package (--goBuild=false or --leaveTemps)"])

prop("C24", "Each build is an isolated copy of the plugin's packages",
 "In a dynamic build every import of the plugin's root package or one of its sub-packages is redirected to the build's own copy, and every other import - also of packages whose path merely starts with the same characters - is left alone; the root package becomes package main. Builds that are at least a second apart (within a month) or made from different commits thus never share a plugin package and, even when they overlap in time, do not disturb each other, so that their versions can be loaded side by side in one process.",
 ["programs", "histories"],
 "every import graph within and around the plugin and every sequence of builds, overlapping ones included",
 "Tests build one plugin with one sub-package; look-alike paths and sharing between versions are not checked.",
 [BD, HU],
 [("tmpPkgPath", "package path of the copy", "buildCmdT")],
 [("import path rewriting", "copyFiles"), ("naming", "execute, commitInfo")],
 ["import clauses in the temporary package", "state of two loaded versions"])

prop("C25", "The build cleans up after itself and leaves sources alone",
 "A dynamic build always ends, and however it ends - success, compile error, rejected source, termination by SIGINT or SIGTERM while an external tool is running - its temporary package is gone afterwards unless --leaveTemps or --goBuild=false was given, every file of the plugin directory is as before, and on failure the exit status is non-zero and the output directory holds no new plugin file. A plugin file already there is not damaged by a build that fails.",
 ["fault_sequences", "crash_points", "configurations"],
 "every failing stage of the build and every external tool during which a signal can arrive",
 "The tests only run builds that succeed and never send a signal.",
 [BD],
 [("tmpDir, leaveTemps", "temporary package and whether it is kept", "buildCmdT")],
 [("signal and exit handling", "execute, removeTmpDir")],
 ["file system and exit status after the build"])

prop("C26", "The build refuses plugins without the required functions",
 "hotswap build succeeds on an otherwise valid plugin if and only if its root package declares all seven required functions as top-level functions in files that are compiled (methods, test files, files excluded by build constraints and sub-packages do not count), both for dynamic builds and static linking. When refused, the message names every missing function, and nothing is left behind for a dynamic build.",
 ["programs"],
 "every subset of declared functions and every place of declaration",
 "The tests switch this check off through an environment variable.",
 [BD],
 [],
 [("parse of the root package", "parseRequiredPluginFuncs")],
 ["exit status, message and files of the build"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
