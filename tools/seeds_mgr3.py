"""Planted bugs that the checks missed at first, and their like."""
from seeds_mgr import PM, SW, ST, PL, demo
from seeds_mgr2 import test

SEEDS = {}


def seed(id, property, needs, breaks, edits, body):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, files=demo(body))


seed("c13-equal-errors-once", "C13", "several plugins return errors of the same text from InvokeFunc in one InvokeEach",
     "an error that reads like one already logged in the same call is not logged",
     [(PM, """func (pm *PluginManager) InvokeEach(name string, params ...interface{}) {
	invokeImpl := func(p *Plugin) {
		defer func() {
			if r := recover(); r != nil {
				pm.Errorf("<hotswap:%s> panic: %+v\\n%s", p.Name, r, debug.Stack())
			}
		}()
		if _, err := p.InvokeFunc(name, params...); err != nil {
			pm.Error(err)
		}
	}
""", """func (pm *PluginManager) InvokeEach(name string, params ...interface{}) {
	seen := make(map[string]struct{})
	invokeImpl := func(p *Plugin) {
		defer func() {
			if r := recover(); r != nil {
				pm.Errorf("<hotswap:%s> panic: %+v\\n%s", p.Name, r, debug.Stack())
			}
		}()
		if _, err := p.InvokeFunc(name, params...); err != nil {
			if _, ok := seen[err.Error()]; !ok {
				seen[err.Error()] = struct{}{}
				pm.Error(err)
			}
		}
	}
""")],
     """
type counting struct {
	slog.Logger
	n int
}

func (c *counting) Error(args ...interface{})                 { c.n++ }
func (c *counting) Errorf(format string, args ...interface{}) { c.n++ }
""" + test("""
dir := t.TempDir()
for _, n := range []string{"aa", "bb", "cc"} {
	put(dir, n, func(f *fake) { f.invoke = func(string, ...interface{}) (interface{}, error) { return nil, io.EOF } })
}
log := &counting{Logger: slog.NewDumbLogger()}
sw := swapper(dir, hotswap.WithLogger(log))
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
sw.Current().InvokeEach("x")
ok(t, "not all logged", log.n == 3)
time.Sleep(time.Hour)
"""))

seed("c11-link-target-name", "C11", "a plugin file that is a symbolic link to a file of another name",
     "symbolic links in the plugin directory are resolved first, so that the plugin gets the name of the link's target",
     [(SW, """			files = append(files, filepath.Join(absDir, fi.Name()))
""", """			file := filepath.Join(absDir, fi.Name())
			if target, err := filepath.EvalSymlinks(file); err == nil && strings.HasSuffix(target, hutils.FileNameExt) {
				file = target
			}
			files = append(files, file)
""")],
     test("""
dir, store := t.TempDir(), t.TempDir()
put(store, "aa-1", nil)
must(t, nil, os.Symlink(filepath.Join(store, "aa-1.so"), filepath.Join(dir, "aa.so")))
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "not found by its name", sw.Current().FindPlugin("aa") != nil && sw.Current().FindPlugin("aa-1") == nil)
"""))

seed("c11-name-up-to-first-dot", "C11", "two plugin files whose names differ only after a dot",
     "a plugin's name ends at the first dot of the file name",
     [(PM, """	return strings.TrimSuffix(filepath.Base(file), hutils.FileNameExt)
""", """	name := strings.TrimSuffix(filepath.Base(file), hutils.FileNameExt)
	if i := strings.IndexByte(name, '.'); i > 0 {
		name = name[:i]
	}
	return name
""")],
     test("""
dir := t.TempDir()
put(dir, "aa.v1", nil)
put(dir, "bb", nil)
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "not found by its name", sw.Current().FindPlugin("aa.v1") != nil && sw.Current().FindPlugin("aa") == nil)
"""))

seed("c08-preset-field-kept", "C08", "a plugin whose Import() struct comes with a value already in a field",
     "a field that is already set is not overwritten with what its plugin exports",
     [(PM, """			reflect.ValueOf(imp).Elem().Field(i).Set(exportedVal)
""", """			if fv := reflect.ValueOf(imp).Elem().Field(i); fv.IsZero() {
				fv.Set(exportedVal)
			}
""")],
     test("""
type deps struct{ Low *int }
dir := t.TempDir()
x, other := 1, 2
put(dir, "low", func(f *fake) { f.export = func() interface{} { return &x } })
d := &deps{Low: &other}
put(dir, "top", func(f *fake) { f.imp = func() interface{} { return d } })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
must(t, nil, err)
ok(t, "the field holds something else", d.Low == &x)
"""))

seed("c20-all-missing-unnamed", "C20", "a plugin file that has none of the nine functions",
     "a file with none of the functions is refused with an error that names none of them",
     [(PM, """	if len(missing) > 0 {
		return fmt.Errorf("missing functions: %s", strings.Join(missing, ", "))
	}

	p.reloadable, err = p.invokeReloadable()
""", """	if len(missing) == len(a) {
		return fmt.Errorf("%s is not a hotswap plugin", info.file)
	}
	if len(missing) > 0 {
		return fmt.Errorf("missing functions: %s", strings.Join(missing, ", "))
	}

	p.reloadable, err = p.invokeReloadable()
""")],
     test("""
dir := t.TempDir()
put(dir, "aa", func(f *fake) { f.without = "OnLoad OnInit OnFree Export Import InvokeFunc Reloadable HotswapLiveFuncs HotswapLiveTypes" })
sw := swapper(dir)
_, err := sw.LoadPlugins(nil)
ok(t, "no error", err != nil)
for _, n := range []string{"OnLoad", "InvokeFunc", "HotswapLiveTypes"} {
	ok(t, "not named", strings.Contains(err.Error(), n))
}
"""))
