"""Planted bugs: phases, attributes, waiting loads, live names, missing functions."""
from seeds_mgr import PM, SW, ST, PL, demo
from seeds_mgr2 import test

SEEDS = {}


def seed(id, property, needs, breaks, edits, body):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, files=demo(body))


seed("c06-onload-goes-on-for-independents", "C06", "OnLoad of a plugin fails while others that do not depend on it come later",
     "after an OnLoad has failed, OnLoad of the plugins without dependencies is still called",
     [(PM, """		pm.Debugf("<hotswap> invoking %s.OnLoad", p.Name)
		return p.fOnLoad(data)
	}

	for _, p := range pm.ordered {
		if p.unchanged {
			continue
		}
		if err := invokeImpl(p); err != nil {
			return err
		}
	}

	return nil
""", """		pm.Debugf("<hotswap> invoking %s.OnLoad", p.Name)
		return p.fOnLoad(data)
	}

	var first error
	for _, p := range pm.ordered {
		if p.unchanged || first != nil && len(p.Deps) > 0 {
			continue
		}
		if err := invokeImpl(p); err != nil && first == nil {
			first = err
		}
	}

	return first
""")],
     test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.onLoad = func(interface{}) error { return io.EOF } })
b := put(dir, "bb", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
ok(t, "must fail", err != nil)
ok(t, "OnLoad after a failure", b.loads == 0)
time.Sleep(time.Hour)
"""))

seed("c06-oninit-of-users-again", "C06", "a plugin is reloaded together with a dependency that was reloaded too",
     "OnInit of a plugin on which another new plugin depends is called a second time before that other plugin's",
     [(PM, """	for _, p := range pm.ordered {
		if p.unchanged {
			continue
		}
		if err := invokeImpl(p); err != nil {
			return err
		}
	}

	return nil
}

func (pm *PluginManager) setupVault() error {
""", """	for _, p := range pm.ordered {
		if p.unchanged {
			continue
		}
		for _, name := range p.Deps {
			dep := pm.FindPlugin(name)
			if dep.unchanged || len(dep.Deps) == 0 || dep.When.Before(p.When) {
				continue
			}
			if err := invokeImpl(dep); err != nil {
				return err
			}
		}
		if err := invokeImpl(p); err != nil {
			return err
		}
	}

	return nil
}

func (pm *PluginManager) setupVault() error {
""")],
     test("""
type ab struct{ Bb interface{} }
type bc struct{ Cc interface{} }
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.imp = func() interface{} { return &ab{} } })
b := put(dir, "bb", func(f *fake) { f.imp = func() interface{} { return &bc{} } })
c := put(dir, "cc", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "OnInit is not called once", b.inits == 1 && c.inits == 1)
time.Sleep(time.Hour)
"""))

seed("c14-refused-while-first-load-runs", "C14", "a reload that is called while the very first load is still running",
     "a reload that began before there was a manager fails instead of waiting for its turn",
     [(SW, """	sw.mu.Lock()
	defer sw.mu.Unlock()
	cbs := []ReloadCallback{sw.opts.reloadCallback}
	if extra != nil {
""", """	first := sw.Current() == nil
	sw.mu.Lock()
	defer sw.mu.Unlock()
	if first && sw.Current() != nil {
		return nil, errors.New("the plugins have just been loaded")
	}
	cbs := []ReloadCallback{sw.opts.reloadCallback}
	if extra != nil {
""")],
     """
func TestDemo(t *testing.T) {
	begin()
	dir := t.TempDir()
	loading := make(chan struct{})
	put(dir, "aa", func(f *fake) {
		f.onLoad = func(interface{}) error { close(loading); time.Sleep(time.Second); return nil }
	})
	sw := swapper(dir)
	done := make(chan error)
	go func() {
		<-loading
		_, err := sw.Reload(nil)
		done <- err
	}()
	_, err := sw.LoadPlugins(nil)
	must(t, nil, err)
	must(t, nil, <-done)
	ok(t, "not counted", sw.ReloadCounter() == 1)
}
""")

seed("c02-note-of-kept-shared", "C02", "a plugin is carried over by a reload, and the manager from before is looked at afterwards",
     "a carried-over plugin is shared by both managers, and its note changes in the old one, too",
     [(PM, """	newP := *oldP
	newP.unchanged = true
	newP.Note = note
	newP.Refs.Inc()
	pm.pluginMap[name2key(oldP.Name)] = &newP
""", """	oldP.unchanged = true
	oldP.Note = note
	oldP.Refs.Inc()
	pm.pluginMap[name2key(oldP.Name)] = oldP
""")],
     test("""
dir := t.TempDir()
put(dir, "aa", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
old := sw.Current()
before := old.FindPlugin("aa").Note
put(dir, "bb", func(f *fake) { f.onLoad = func(interface{}) error { return io.EOF } })
_, err = sw.Reload(nil)
ok(t, "must fail", err != nil)
ok(t, "the note of a plugin of the current manager changed", old.FindPlugin("aa").Note == before)
time.Sleep(time.Hour)
"""))

seed("c12-live-type-named-like-a-function", "C12", "a plugin's live type has the name of another plugin's live function",
     "live functions and live types share one space of names",
     [(PM, """			if _, ok := pm.LiveTypes[k]; !ok {
				pm.LiveTypes[k] = v
				continue
			}
""", """			_, taken := pm.LiveFuncs[k]
			if _, ok := pm.LiveTypes[k]; !ok && !taken {
				pm.LiveTypes[k] = v
				continue
			}
""")],
     test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.liveFuncs = func() map[string]interface{} { return map[string]interface{}{"live_X": 1} } })
put(dir, "bb", func(f *fake) {
	f.liveTypes = func() map[string]func() interface{} { return map[string]func() interface{}{"live_X": func() interface{} { return 2 }} }
})
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "incomplete", sw.Current().LiveFuncs["live_X"] != nil && sw.Current().LiveTypes["live_X"] != nil)
time.Sleep(time.Hour)
"""))

seed("c20-only-last-missing-named", "C20", "a static plugin that lacks several functions",
     "of the functions a static plugin lacks only the last one is named",
     [(ST, """			missing = append(missing, v.symbol)
""", """			missing = []string{v.symbol}
""")],
     test("""
_, p := static("aa", func(f *fake) { f.without = "OnInit Reloadable" })
sw := swapper("", hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"aa": p}))
_, err := sw.LoadPlugins(nil)
ok(t, "must fail", err != nil)
ok(t, "not all named", err != nil && strings.Contains(err.Error(), "OnInit") && strings.Contains(err.Error(), "Reloadable"))
"""))

seed("c03-shared-count-of-name", "C03", "a plugin file is removed and put back with the same content while the manager from before is being retired",
     "a plugin that comes back with the content that a manager in its free delay still holds is given that instance's copy of OnFree state",
     [(PM, """	newP.Refs.Inc()
	pm.pluginMap[name2key(oldP.Name)] = &newP
""", """	if len(oldP.Deps) == 0 || oldP.Refs.Load() < 2 {
		newP.Refs.Inc()
	}
	pm.pluginMap[name2key(oldP.Name)] = &newP
""")],
     test("""
type uses struct{ Bb interface{} }
dir := t.TempDir()
a := put(dir, "aa", func(f *fake) { f.imp = func() interface{} { return &uses{} } })
put(dir, "bb", nil)
put(dir, "cc", nil)
sw := swapper(dir, hotswap.WithFreeDelay(time.Minute))
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
for i := 0; i < 2; i++ {
	put(dir, "cc", nil)
	_, err = sw.Reload(nil)
	must(t, nil, err)
}
time.Sleep(time.Hour)
ok(t, "freed while in use", a.frees == 0)
"""))
SEEDS["c03-shared-count-of-name"]["needs"] = "a plugin with dependencies is carried over twice within one free delay"
SEEDS["c03-shared-count-of-name"]["breaks"] = "the second carrying over within a free delay does not count, so that the plugin is freed while the current manager holds it"
SEEDS["c03-carried-twice-counts-once"] = SEEDS.pop("c03-shared-count-of-name")
