"""Planted bugs in the plugin manager, the swapper and static linking."""
PM, SW, ST, PL = "pluginManager.go", "pluginManagerSwapper.go", "staticPlugin.go", "plugin.go"


def demo(body, imports=()):
    std = ["errors", "fmt", "os", "path/filepath", "strings", "sync", "testing", "testing/synctest", "time", "reflect", "sort", "io", "plugin"]
    own = ["github.com/edwingeng/hotswap", "github.com/edwingeng/hotswap/vault", "github.com/edwingeng/slog"]
    use = [i for i in std + own if i.split("/")[-1] + "." in body or i in imports or (i == "testing")]
    use = [i for i in use if not (i == "testing" and "testing." not in body)]
    return dict([("demo_test.go", "package hotswap_test\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in use) + ")\n" + body)])


SEEDS = {}


def seed(id, property, needs, breaks, edits, body):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, files=demo(body))


seed("c04-failed-load-leaks-kept-refs", "C04",
     "a reload that carries a plugin over fails, later that plugin is replaced and the delay passes",
     "the reference that the failed load took on a carried-over instance is never given back, so OnFree of the instance never runs",
     [(PM, """	invokeImpl := func(p *Plugin) {
		if v := p.Refs.Dec(); v > 0 {
			return
		}
""", """	current := len(pm.ordered) > 0
	invokeImpl := func(p *Plugin) {
		if p.unchanged && !current {
			return
		}
		if v := p.Refs.Dec(); v > 0 {
			return
		}
""")], """
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		begin()
		dir := t.TempDir()
		a := put(dir, "aa", nil)
		sw := swapper(dir, hotswap.WithFreeDelay(time.Second))
		_, err := sw.LoadPlugins(nil)
		must(t, nil, err)
		put(dir, "bb", func(f *fake) { f.without = "Export" })
		_, err = sw.Reload(nil)
		ok(t, "the bad plugin was accepted", err != nil)
		os.Remove(filepath.Join(dir, "bb.so"))
		put(dir, "aa", nil)
		_, err = sw.Reload(nil)
		must(t, nil, err)
		time.Sleep(time.Minute)
		ok(t, "aa was not freed", a.frees == 1)
	})
}
""")

seed("c03-kept-by-second-retirement", "C03",
     "a non-reloadable plugin survives two reloads and the managers of both expire",
     "a carried-over instance is counted only the first time it is carried over: with the second retirement it is freed while the current manager uses it",
     [(PM, """	newP.Note = note
	newP.Refs.Inc()
""", """	newP.Note = note
	if !oldP.unchanged || oldP.reloadable {
		newP.Refs.Inc()
	}
""")], """
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		begin()
		dir := t.TempDir()
		a := put(dir, "aa", func(f *fake) { f.reloadable = false })
		sw := swapper(dir, hotswap.WithFreeDelay(time.Second))
		for i := 0; i < 4; i++ {
			put(dir, "bb", nil)
			_, err := sw.Reload(nil)
			must(t, nil, err)
			time.Sleep(time.Minute)
		}
		ok(t, "aa was freed while in use", a.frees == 0)
	})
}
""")

seed("c05-delay-restarts", "C05",
     "several reloads within one free delay",
     "the free delay of a replaced manager starts anew with each later load: retirements are queued on one timer",
     [(SW, """	staticPlugins map[string]*StaticPlugin
	reloadCounter int64
""", """	staticPlugins map[string]*StaticPlugin
	reloadCounter int64
	retired       []*PluginManager
	retireTimer   *time.Timer
"""), (SW, """		go func() {
			delay := minFreeDelay
			if minFreeDelay < sw.opts.freeDelay {
				delay = sw.opts.freeDelay
			}
			time.Sleep(delay)
			oldManager.invokeEveryOnFree()
		}()
""", """		delay := minFreeDelay
		if minFreeDelay < sw.opts.freeDelay {
			delay = sw.opts.freeDelay
		}
		if sw.retireTimer != nil {
			sw.retireTimer.Stop()
		}
		sw.retired = append(sw.retired, oldManager)
		sw.retireTimer = time.AfterFunc(delay, func() {
			sw.mu.Lock()
			retired := sw.retired
			sw.retired = nil
			sw.mu.Unlock()
			for _, m := range retired {
				m.invokeEveryOnFree()
			}
		})
""")], """
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		begin()
		dir := t.TempDir()
		a := put(dir, "aa", nil)
		sw := swapper(dir, hotswap.WithFreeDelay(time.Second*20))
		sw.LoadPlugins(nil)
		put(dir, "aa", nil)
		sw.Reload(nil)
		time.Sleep(time.Second * 15)
		put(dir, "aa", nil)
		sw.Reload(nil)
		time.Sleep(time.Second * 6)
		ok(t, "the first aa was not freed in time", a.frees == 1)
		time.Sleep(time.Hour)
	})
}
""")

seed("c15-veto-does-not-stop", "C15",
     "the configured callback rejects and an extra callback is given",
     "after the configured callback has rejected, the extra callback still runs",
     [(SW, """	for _, cb := range cbs {
		if cb == nil {
			continue
		}
		err := func() (err error) {""", """	var first error
	for _, cb := range cbs {
		if cb == nil {
			continue
		}
		err := func() (err error) {"""),
      (SW, """		if err != nil {
			newManager.invokeEveryOnFree()
			return err
		}
	}
	return nil
}
""", """		if err != nil && first == nil {
			first = err
		}
	}
	if first != nil {
		newManager.invokeEveryOnFree()
	}
	return first
}
""")], """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	put(dir, "aa", nil)
	veto := errors.New("no")
	sw := swapper(dir, hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { return veto }))
	called := false
	_, err := sw.ReloadWithCallback(nil, func(n, o *hotswap.PluginManager) error { called = true; return nil })
	ok(t, "the veto was ignored", err != nil)
	ok(t, "the extra callback ran after a veto", !called)
}
""")

seed("c10-remembers-failed-content", "C10",
     "a reload with new content fails for another reason, then a second reload with the same content succeeds",
     "contents are compared with what the last attempt saw instead of what is loaded: after a failed attempt the new content counts as unchanged and is never loaded",
     [(PM, """func (x fileInfoMap) removeUnchanged(oldManager *PluginManager) map[string]*fileInfo {
	if oldManager == nil {
		return nil
	}

	unchanged := make(map[string]*fileInfo)
	for k, info := range x.m {
		if oldP := oldManager.pluginMap[k]; oldP != nil {
			if info.fileSha1 == oldP.FileSha1 {
				unchanged[k] = info
				delete(x.m, k)
			}
		}
	}
""", """func (x fileInfoMap) removeUnchanged(oldManager *PluginManager) map[string]*fileInfo {
	if oldManager == nil {
		return nil
	}

	if oldManager.checked == nil {
		oldManager.checked = make(map[string][sha1.Size]byte)
		for k, p := range oldManager.pluginMap {
			oldManager.checked[k] = p.FileSha1
		}
	}
	unchanged := make(map[string]*fileInfo)
	for k, info := range x.m {
		if last, ok := oldManager.checked[k]; ok {
			if info.fileSha1 == last {
				unchanged[k] = info
				delete(x.m, k)
			}
			oldManager.checked[k] = info.fileSha1
		}
	}
"""), (PM, """	ordered   []*Plugin
	when      time.Time
""", """	ordered   []*Plugin
	checked   map[string][sha1.Size]byte
	when      time.Time
""")], """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	put(dir, "aa", nil)
	sw := swapper(dir)
	sw.LoadPlugins(nil)
	a := put(dir, "aa", nil)
	_, err := sw.ReloadWithCallback(nil, func(n, o *hotswap.PluginManager) error { return errors.New("no") })
	ok(t, "veto", err != nil)
	d, err := sw.Reload(nil)
	must(t, d, err)
	ok(t, "the new content was not loaded: "+d.String(), a.loads == 2 && strings.Contains(d.String(), "aa: ok"))
}
""")

seed("c19-one-path-per-second", "C19",
     "two versions of a plugin loaded within one second",
     "the private copy's path depends on name, size and second only, so two versions of equal size loaded within a second share a path",
     [(PM, """	sum := xxHash32.Checksum(info.fileSha1[:], 0)
""", """	sum := xxHash32.Checksum([]byte(fmt.Sprint(info.name, len(info.fileData))), 0)
""")], """
func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		begin()
		dir := t.TempDir()
		sw := swapper(dir)
		seen := map[string]string{}
		orig := plugin.VerifOpen
		plugin.VerifOpen = func(path string, r bool) (map[string]any, error) {
			data, _ := os.ReadFile(path)
			if v, ok := seen[path]; ok && v != string(data) {
				t.Errorf("%s is opened with a different content", path)
			}
			seen[path] = string(data)
			return orig(path, r)
		}
		put(dir, "aa", nil)
		sw.Reload(nil)
		put(dir, "aa", nil)
		sw.Reload(nil)
		time.Sleep(time.Hour)
	})
}
""")

seed("c12-kept-live-types-not-checked", "C12",
     "a reload in which a new plugin registers a live type name that a carried-over plugin has",
     "live type names of carried-over plugins are taken over unconditionally: a clash between a kept and a new plugin goes unnoticed",
     [(PM, """		for k, v := range liveTypes {
			if _, ok := pm.LiveTypes[k]; !ok {
""", """		for k, v := range liveTypes {
			if _, ok := pm.LiveTypes[k]; !ok || p.unchanged {
""")], """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	mk := func() map[string]func() interface{} {
		return map[string]func() interface{}{"live_x": func() interface{} { return 1 }}
	}
	put(dir, "zz", func(f *fake) { f.liveTypes = mk })
	sw := swapper(dir)
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
	for i := 0; i < 40; i++ {
		put(dir, "aa", func(f *fake) { f.liveTypes = mk })
		_, err = sw.Reload(nil)
		ok(t, "the clash was not noticed", err != nil)
	}
}
""")

seed("c09-gone-dependency", "C09",
     "an unchanged plugin's dependency was removed and another plugin changed",
     "a carried-over plugin whose dependency is gone is accepted when it is not the only dependency: only the first dependency of a kept plugin is looked at",
     [(PM, """			for _, depName := range p.Deps {
				if dep := pm.pluginMap[name2key(depName)]; !dep.unchanged {
					return fmt.Errorf("%s was rebuilt while %s was not", dep.Name, p.Name)
				}
			}
""", """			for _, depName := range p.Deps {
				if dep := pm.pluginMap[name2key(depName)]; !dep.unchanged {
					return fmt.Errorf("%s was rebuilt while %s was not", dep.Name, p.Name)
				}
				break
			}
""")], """
type exp struct{ n int }

func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	put(dir, "aa", func(f *fake) { f.export = func() interface{} { return &exp{1} } })
	put(dir, "bb", func(f *fake) { f.export = func() interface{} { return &exp{2} } })
	put(dir, "cc", func(f *fake) { f.imp = func() interface{} { return &struct{ Aa, Bb interface{} }{} } })
	sw := swapper(dir)
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
	put(dir, "bb", func(f *fake) { f.export = func() interface{} { return &exp{3} } })
	_, err = sw.Reload(nil)
	ok(t, "cc was kept although bb was replaced", err != nil)
}
""")
