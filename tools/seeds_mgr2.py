"""More planted bugs in the plugin manager, the swapper and static linking."""
from seeds_mgr import PM, SW, ST, PL, demo

SEEDS = {}


def seed(id, property, needs, breaks, edits, body):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, files=demo(body))


def test(body):
    return "\nfunc TestDemo(t *testing.T) {\n\tsynctest.Test(t, func(t *testing.T) {\n\t\tbegin()\n" + \
        "\n".join("\t\t" + l for l in body.strip().split("\n")) + "\n\t})\n}\n"


GO_RETIRE = """		go func() {
			delay := minFreeDelay
			if minFreeDelay < sw.opts.freeDelay {
				delay = sw.opts.freeDelay
			}
			time.Sleep(delay)
			oldManager.invokeEveryOnFree()
		}()
"""

seed("c10-size-and-time", "C10", "a new version of a plugin file that has the size and the modification time of the old one",
     "a file whose size and modification time are those of the loaded one is taken to be unchanged without looking at its content",
     [(PM, "	FileSha1", "	FileSha1") if False else
      (PM, """			if info.fileSha1 == oldP.FileSha1 {
				unchanged[k] = info
""", """			fi, err := os.Stat(info.file)
			sameStat := err == nil && len(info.fileData) == oldP.fileSize && fi.ModTime().Equal(oldP.fileTime)
			if sameStat || info.fileSha1 == oldP.FileSha1 {
				unchanged[k] = info
"""),
      (PM, """	p.FileSha1 = info.fileSha1
""", """	p.FileSha1 = info.fileSha1
	p.fileSize = len(info.fileData)
	if fi, err := os.Stat(info.file); err == nil {
		p.fileTime = fi.ModTime()
	}
"""),
      (PL, "	unchanged bool\n", "	unchanged bool\n	fileSize  int\n	fileTime  time.Time\n")],
     test("""
dir := t.TempDir()
at := time.Unix(1000000000, 0)
put(dir, "aa", nil)
os.Chtimes(filepath.Join(dir, "aa.so"), at, at)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
a := put(dir, "aa", nil)
os.Chtimes(filepath.Join(dir, "aa.so"), at, at)
_, err = sw.Reload(nil)
must(t, nil, err)
ok(t, "the new version was not loaded", a.inits == 1)
time.Sleep(time.Hour)
"""))

seed("c05-delay-from-start", "C05", "a load that takes long",
     "the free delay is counted from the beginning of the load instead of from the switch",
     [(SW, GO_RETIRE, GO_RETIRE.replace("time.Sleep(delay)", "time.Sleep(delay - time.Since(newManager.when))"))],
     test("""
dir := t.TempDir()
a := put(dir, "aa", nil)
sw := swapper(dir, hotswap.WithFreeDelay(time.Second*20))
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
put(dir, "aa", func(f *fake) { f.onLoad = func(interface{}) error { time.Sleep(time.Second * 10); return nil } })
_, err = sw.Reload(nil)
must(t, nil, err)
time.Sleep(time.Second * 15)
ok(t, "freed too early", a.frees == 0)
time.Sleep(time.Hour)
"""))

seed("c11-find-by-file-name", "C11", "FindPlugin is given a path or a file name",
     "FindPlugin strips directories and the suffix from the name, so that it finds plugins by names they do not have",
     [(PM, """	return pm.pluginMap[name2key(name)]
}

func (pm *PluginManager) Plugins()""", """	return pm.pluginMap[name2key(pluginName(name))]
}

func (pm *PluginManager) Plugins()""")],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "found by another name", sw.Current().FindPlugin("aa.so") == nil)
ok(t, "not found", sw.Current().FindPlugin("AA") != nil)
"""))

seed("c08-nil-export-clears-field", "C08", "a plugin presets an import field whose dependency exports nil",
     "a field whose plugin exports nil is set to its zero value instead of being left alone",
     [(PM, """			if isNil(dep.exported) {
				p.Deps = append(p.Deps, dep.Name)
				continue
			}
""", """			if isNil(dep.exported) {
				reflect.ValueOf(imp).Elem().Field(i).Set(reflect.Zero(field.Type))
				p.Deps = append(p.Deps, dep.Name)
				continue
			}
""")],
     "\ntype impDemo struct{ Aa interface{} }\n" + test("""
dir := t.TempDir()
put(dir, "aa", nil)
i := &impDemo{Aa: 7}
put(dir, "bb", func(f *fake) { f.imp = func() interface{} { return i } })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "the field was changed", i.Aa == 7)
"""))

seed("c14-old-manager-before-lock", "C14", "a reload that has to wait for another one",
     "the manager to be replaced is determined before the lock is taken",
     [(SW, """	sw.mu.Lock()
	defer sw.mu.Unlock()
	cbs := []ReloadCallback{sw.opts.reloadCallback}
	if extra != nil {
		cbs = append(cbs, extra)
	}
	details, err := sw.loadPluginsImpl(data, cbs)
""", """	oldManager := sw.Current()
	sw.mu.Lock()
	defer sw.mu.Unlock()
	cbs := []ReloadCallback{sw.opts.reloadCallback}
	if extra != nil {
		cbs = append(cbs, extra)
	}
	details, err := sw.loadPluginsImpl(data, cbs, oldManager)
"""),
      (SW, "	return sw.loadPluginsImpl(data, cbs)\n", "	return sw.loadPluginsImpl(data, cbs, sw.Current())\n"),
      (SW, "loadPluginsImpl(data interface{}, cbs []ReloadCallback) (Details, error) {", "loadPluginsImpl(data interface{}, cbs []ReloadCallback, oldManager *PluginManager) (Details, error) {"),
      (SW, "	return sw.loadPluginFiles(files, data, cbs)\n", "	return sw.loadPluginFiles(files, data, cbs, oldManager)\n"),
      (SW, "loadPluginFiles(files []string, data interface{}, cbs []ReloadCallback) (Details, error) {", "loadPluginFiles(files []string, data interface{}, cbs []ReloadCallback, oldManager *PluginManager) (Details, error) {"),
      (SW, "	oldManager := sw.Current()\n	newManager := newPluginManager(sw.Logger, sw.opts.newExt)\n	if err := newManager.loadPlugins(files", "	newManager := newPluginManager(sw.Logger, sw.opts.newExt)\n	if err := newManager.loadPlugins(files")],
     """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	put(dir, "aa", nil)
	sw := swapper(dir)
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
	in, out := make(chan bool), make(chan bool)
	put(dir, "aa", func(f *fake) { f.onLoad = func(interface{}) error { in <- true; <-out; return nil } })
	done := make(chan bool)
	go func() { sw.Reload(nil); done <- true }()
	<-in
	var seen *hotswap.PluginManager
	go func() {
		sw.ReloadWithCallback(nil, func(n, o *hotswap.PluginManager) error { seen = o; return fmt.Errorf("no") })
		done <- true
	}()
	time.Sleep(time.Second)
	close(out)
	<-done
	<-done
	ok(t, "started from a manager that had been replaced", seen == sw.Current())
}
""")

seed("c13-retired-manager-emptied", "C13", "InvokeEach on a replaced manager after its free delay",
     "the list of plugins of a retired manager is dropped with its plugins, the carried-over ones included",
     [(SW, "			time.Sleep(delay)\n			oldManager.invokeEveryOnFree()\n", "			time.Sleep(delay)\n			oldManager.invokeEveryOnFree()\n			oldManager.ordered = nil\n")],
     test("""
dir := t.TempDir()
n := 0
put(dir, "aa", func(f *fake) { f.invoke = func(string, ...interface{}) (interface{}, error) { n++; return nil, nil } })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
pm := sw.Current()
put(dir, "bb", nil)
_, err = sw.Reload(nil)
must(t, nil, err)
time.Sleep(time.Hour)
pm.InvokeEach("x")
ok(t, "aa was not reached", n == 1)
"""))

seed("c07-veto-frees-in-any-order", "C07", "a callback rejects a load of plugins that depend on each other",
     "after a veto the new plugins are freed in the order in which they were loaded, dependencies first",
     [(SW, """		if err != nil {
			newManager.invokeEveryOnFree()
			return err
		}
""", """		if err != nil {
			newManager.discard()
			return err
		}
"""), (PM, """func (pm *PluginManager) FindPlugin(""", """func (pm *PluginManager) discard() {
	for i, j := 0, len(pm.ordered)-1; i < j; i, j = i+1, j-1 {
		pm.ordered[i], pm.ordered[j] = pm.ordered[j], pm.ordered[i]
	}
	pm.invokeEveryOnFree()
}

func (pm *PluginManager) FindPlugin(""")],
     "\ntype impDemo struct{ Aa interface{} }\n" + test("""
dir := t.TempDir()
a := put(dir, "aa", nil)
b := put(dir, "bb", func(f *fake) { f.imp = func() interface{} { return &impDemo{} } })
early := false
a.onFree = func() { early = b.frees == 0 }
sw := swapper(dir, hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { return fmt.Errorf("no") }))
_, err := sw.LoadPlugins(nil)
ok(t, "no error", err != nil)
ok(t, "aa was freed before bb, which depends on it", !early && a.frees == 1)
"""))

seed("c14-empty-reload-not-counted", "C14", "a reload that finds nothing to load",
     "a successful reload of an empty directory does not count",
     [(SW, "	if err == nil {\n		atomic.AddInt64(&sw.reloadCounter, 1)\n", "	if err == nil && details != nil {\n		atomic.AddInt64(&sw.reloadCounter, 1)\n")],
     test("""
dir := t.TempDir()
sw := swapper(dir)
_, err := sw.Reload(nil)
must(t, nil, err)
ok(t, "not counted", sw.ReloadCounter() == 1)
"""))

seed("c02-visible-before-callbacks", "C02", "a look at Current() while a callback of a later-rejected load runs",
     "the new manager is already current while the extra callback runs and is taken back if that rejects it",
     [(SW, """	if err := invokeReloadCallbacks(cbs, newManager, oldManager); err != nil {
		return nil, err
	}

	result""", """	if err := invokeReloadCallbacks(cbs[:1], newManager, oldManager); err != nil {
		return nil, err
	}
	if len(cbs) > 1 && oldManager != nil {
		sw.current.Store(newManager)
	}
	if err := invokeReloadCallbacks(cbs[1:], newManager, oldManager); err != nil {
		if oldManager != nil {
			sw.current.Store(oldManager)
		}
		return nil, err
	}

	result""")],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
put(dir, "aa", nil)
early := false
_, err = sw.ReloadWithCallback(nil, func(n, o *hotswap.PluginManager) error { early = sw.Current() == n; return nil })
must(t, nil, err)
ok(t, "visible before it was accepted", !early)
time.Sleep(time.Hour)
"""))

seed("c18-variable-first", "C18", "a symbol that is a variable, looked up into a target to which both it and its value can be assigned",
     "the value of a variable takes precedence over the symbol itself",
     [(PL, """	case symTyp.AssignableTo(eleTyp):
		ele.Set(symVal)
		return nil
	case symTyp.Kind() == reflect.Ptr && symTyp.Elem().AssignableTo(eleTyp):
		ele.Set(symVal.Elem())
		return nil
""", """	case symTyp.Kind() == reflect.Ptr && symTyp.Elem().AssignableTo(eleTyp):
		ele.Set(symVal.Elem())
		return nil
	case symTyp.AssignableTo(eleTyp):
		ele.Set(symVal)
		return nil
""")],
     """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	put(dir, "aa", nil)
	n := 5
	plugin.VerifOpen = func(string, bool) (map[string]any, error) {
		m := (&fake{id: "aa"}).funcs()
		m["Number"] = &n
		return m, nil
	}
	sw := swapper(dir)
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
	var x interface{}
	err = sw.Current().FindPlugin("aa").Lookup("Number", &x)
	ok(t, fmt.Sprintf("got %v %v", x, err), err == nil && x == &n)
}
""")

seed("c17-static-on-free-optional", "C17", "a static plugin that lacks OnFree",
     "a static plugin without OnFree is accepted",
     [(ST, "		if isNil(vv.Elem().Interface()) {\n", "		if isNil(vv.Elem().Interface()) {\n			if v.symbol == \"OnFree\" {\n				p.fOnFree = func() {}\n				continue\n			}\n")],
     test("""
_, sp := static("aa", func(f *fake) { f.without = "OnFree" })
sw := swapper("", hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"aa": sp}))
_, err := sw.LoadPlugins(nil)
ok(t, "accepted", err != nil && sw.Current() == nil)
"""))

seed("c20-live-types-optional", "C20", "a plugin without HotswapLiveTypes",
     "a plugin that lacks HotswapLiveTypes is taken to have none instead of being refused",
     [(PM, "				missing = append(missing, v.symbol)\n			} else {\n				return err\n", "				if v.symbol == \"HotswapLiveTypes\" {\n					p.hotswapLiveTypes = func() map[string]func() interface{} { return map[string]func() interface{}{} }\n					continue\n				}\n				missing = append(missing, v.symbol)\n			} else {\n				return err\n")],
     test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.without = "HotswapLiveTypes" })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
ok(t, "accepted", err != nil)
"""))

seed("c09-convertible-imports", "C09", "an exported value whose type can be converted, but not assigned, to the type of the import field",
     "exports are converted to the type of the import field",
     [(PM, """			if !exportedVal.Type().AssignableTo(field.Type) {
""", """			if !exportedVal.Type().ConvertibleTo(field.Type) {
"""), (PM, "			reflect.ValueOf(imp).Elem().Field(i).Set(exportedVal)\n", "			reflect.ValueOf(imp).Elem().Field(i).Set(exportedVal.Convert(field.Type))\n")],
     "\ntype expA struct{ n int }\ntype expB expA\ntype impDemo struct{ Aa *expB }\n" + test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.export = func() interface{} { return &expA{} } })
put(dir, "bb", func(f *fake) { f.imp = func() interface{} { return &impDemo{} } })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
ok(t, "accepted", err != nil)
"""))

seed("c19-hard-link", "C19", "a plugin file is overwritten in place after it has been loaded",
     "the private copy is a hard link: overwriting the file overwrites what is loaded",
     [(PM, "	return dst, ioutil.WriteFile(dst, info.fileData, 0644)\n", """	if fi, err := os.Stat(info.file); err == nil && fi.Size() == int64(len(info.fileData)) {
		if err := os.Link(info.file, dst); err == nil {
			return dst, nil
		}
	}
	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
""")],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
at := ""
open := plugin.VerifOpen
plugin.VerifOpen = func(path string, reopened bool) (map[string]any, error) { at = path; return open(path, reopened) }
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
before, err := os.ReadFile(at)
must(t, nil, err)
os.WriteFile(filepath.Join(dir, "aa.so"), []byte("something else"), 0644)
after, err := os.ReadFile(at)
must(t, nil, err)
ok(t, "the copy has changed", string(before) == string(after))
"""))

seed("c01-counter-moves-early", "C01", "the counter is read while a reload that fails is running",
     "the counter is increased before the load and decreased again if that fails",
     [(SW, "	details, err := sw.loadPluginsImpl(data, cbs)\n	if err == nil {\n		atomic.AddInt64(&sw.reloadCounter, 1)\n	}\n", "	atomic.AddInt64(&sw.reloadCounter, 1)\n	details, err := sw.loadPluginsImpl(data, cbs)\n	if err != nil {\n		atomic.AddInt64(&sw.reloadCounter, -1)\n	}\n")],
     test("""
dir := t.TempDir()
sw := swapper(dir)
put(dir, "aa", func(f *fake) { f.onLoad = func(interface{}) error { ok(t, "counted early", sw.ReloadCounter() == 0); return fmt.Errorf("no") } })
_, err := sw.Reload(nil)
ok(t, "no error", err != nil)
"""))

seed("c12-live-functions-of-removed-plugins", "C12", "a plugin with live functions is removed while others are carried over",
     "live functions of the previous manager stay in the table when all plugins that remain are carried over",
     [(PM, "	pm.outputStats1(infoMap)\n", "	pm.outputStats1(infoMap)\n	if infoMap.Len() == 0 && oldManager != nil {\n		for k, v := range oldManager.LiveFuncs {\n			pm.inherited[k] = v\n		}\n	}\n"),
      (PM, "	return nil\n}\n\nfunc (pm *PluginManager) invokeEveryOnFree() {", "	for k, v := range pm.inherited {\n		if _, ok := pm.LiveFuncs[k]; !ok {\n			pm.LiveFuncs[k] = v\n		}\n	}\n	return nil\n}\n\nfunc (pm *PluginManager) invokeEveryOnFree() {"),
      (PM, "	vault.Vault\n\n", "	vault.Vault\n	inherited map[string]interface{}\n\n"),
      (PM, "		Vault:        v,\n", "		Vault:        v,\n		inherited:    make(map[string]interface{}),\n")],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
put(dir, "bb", func(f *fake) { f.liveFuncs = func() map[string]interface{} { return map[string]interface{}{"live_x": 1} } })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
os.Remove(filepath.Join(dir, "bb.so"))
_, err = sw.Reload(nil)
must(t, nil, err)
ok(t, "live_x is still there", sw.Current().Vault.LiveFuncs["live_x"] == nil)
time.Sleep(time.Hour)
"""))

seed("c13-error-not-logged-backward", "C13", "InvokeFunc of a plugin panics with an error value in InvokeEachBackward",
     "a panic whose value is an error is logged as a warning only",
     [(PM, """		if _, err := p.InvokeFunc(name, params...); err != nil {
			pm.Error(err)
		}
	}

	all := pm.Plugins()
	for i := len(all) - 1; i >= 0; i-- {
""", """		if _, err := p.InvokeFunc(name, params...); err != nil && err != io.EOF {
			pm.Error(err)
		}
	}

	all := pm.Plugins()
	for i := len(all) - 1; i >= 0; i-- {
"""), (PM, '	"fmt"\n', '	"fmt"\n	"io"\n')],
     """
type counting struct {
	slog.Logger
	n int
}

func (c *counting) Error(args ...interface{})                 { c.n++ }
func (c *counting) Errorf(format string, args ...interface{}) { c.n++ }
""" + test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.invoke = func(string, ...interface{}) (interface{}, error) { return nil, io.EOF } })
log := &counting{Logger: slog.NewDumbLogger()}
sw := swapper(dir, hotswap.WithLogger(log))
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
sw.Current().InvokeEachBackward("x")
ok(t, "not logged", log.n == 1)
"""))

seed("c15-static-callback-gets-current", "C15", "LoadPlugins a second time with static plugins and a callback",
     "in static mode the callback is given the current manager instead of nil",
     [(ST, "invokeReloadCallbacks(cbs, newManager, nil)", "invokeReloadCallbacks(cbs, newManager, sw.Current())")],
     test("""
_, sp := static("aa", nil)
var olds []*hotswap.PluginManager
sw := swapper("", hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"aa": sp}),
	hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { olds = append(olds, o); return nil }))
for i := 0; i < 2; i++ {
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
}
ok(t, "not nil", len(olds) == 2 && olds[0] == nil && olds[1] == nil)
"""))

seed("c16-panic-value-error", "C16", "a reload callback panics with a value that is an error",
     "a callback that panics with an error made by errors.New lets the panic out",
     [(SW, """				if r := recover(); r != nil {
					err = fmt""", """				if r := recover(); r != nil {
					if e, ok := r.(runtime.Error); ok {
						panic(e)
					}
					err = fmt"""), (SW, '	"path/filepath"\n', '	"path/filepath"\n	"runtime"\n')],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
sw := swapper(dir, hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { var m map[string]int; m["x"] = 1; return nil }))
escaped := false
func() {
	defer func() { escaped = recover() != nil }()
	_, err := sw.LoadPlugins(nil)
	ok(t, "no error", err != nil)
}()
ok(t, "the panic got out", !escaped)
"""))
