package hotswap_test

import (
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"strings"
	"sync"
	"testing"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// fake is the content of a plugin file.
type fake struct {
	id, name   string
	reloadable bool
	export     func() interface{}
	imp        func() interface{}
	onLoad     func(data interface{}) error
	onInit     func(v *vault.Vault) error
	onFree     func()
	invoke     func(name string, params ...interface{}) (interface{}, error)
	liveFuncs  func() map[string]interface{}
	liveTypes  func() map[string]func() interface{}
	without    string // functions it lacks

	loads, inits, frees int
}

var (
	kitMu    sync.Mutex
	registry = map[string]*fake{}
	trail    []string
)

func note(format string, a ...interface{}) {
	kitMu.Lock()
	trail = append(trail, fmt.Sprintf(format, a...))
	kitMu.Unlock()
}

func (f *fake) funcs() map[string]interface{} {
	m := map[string]interface{}{
		"Reloadable": func() bool { return f.reloadable },
		"Export": func() interface{} {
			if f.export != nil {
				return f.export()
			}
			return nil
		},
		"Import": func() interface{} {
			if f.imp != nil {
				return f.imp()
			}
			return nil
		},
		"OnLoad": func(data interface{}) error {
			note("load %s", f.id)
			f.loads++
			if f.onLoad != nil {
				return f.onLoad(data)
			}
			return nil
		},
		"OnInit": func(v *vault.Vault) error {
			note("init %s", f.id)
			f.inits++
			if f.onInit != nil {
				return f.onInit(v)
			}
			return nil
		},
		"OnFree": func() {
			note("free %s", f.id)
			f.frees++
			if f.onFree != nil {
				f.onFree()
			}
		},
		"InvokeFunc": func(name string, params ...interface{}) (interface{}, error) {
			note("invoke %s", f.id)
			if f.invoke != nil {
				return f.invoke(name, params...)
			}
			return nil, nil
		},
		"HotswapLiveFuncs": func() map[string]interface{} {
			if f.liveFuncs != nil {
				return f.liveFuncs()
			}
			return map[string]interface{}{}
		},
		"HotswapLiveTypes": func() map[string]func() interface{} {
			if f.liveTypes != nil {
				return f.liveTypes()
			}
			return map[string]func() interface{}{}
		},
	}
	for _, n := range strings.Fields(f.without) {
		delete(m, n)
	}
	return m
}

// put writes a plugin file with a fresh fake as its content.
func put(dir, name string, set func(f *fake)) *fake {
	f := &fake{name: name, reloadable: true}
	kitMu.Lock()
	f.id = fmt.Sprintf("%s#%d", name, len(registry)+1)
	registry[f.id] = f
	kitMu.Unlock()
	if set != nil {
		set(f)
	}
	if err := os.WriteFile(filepath.Join(dir, name+".so"), []byte(f.id), 0644); err != nil {
		panic(err)
	}
	return f
}

// static makes a static plugin of a fake.
func static(name string, set func(f *fake)) (*fake, *hotswap.StaticPlugin) {
	f := &fake{name: name, id: name, reloadable: true}
	if set != nil {
		set(f)
	}
	m := f.funcs()
	ex, _ := m["Export"].(func() interface{})
	lf, _ := m["HotswapLiveFuncs"].(func() map[string]interface{})
	lt, _ := m["HotswapLiveTypes"].(func() map[string]func() interface{})
	im, _ := m["Import"].(func() interface{})
	iv, _ := m["InvokeFunc"].(func(name string, params ...interface{}) (interface{}, error))
	of, _ := m["OnFree"].(func())
	oi, _ := m["OnInit"].(func(*vault.Vault) error)
	ol, _ := m["OnLoad"].(func(interface{}) error)
	re, _ := m["Reloadable"].(func() bool)
	return f, &hotswap.StaticPlugin{Name: name, PluginFuncs: hotswap.NewPluginFuncs(ex, lf, lt, im, iv, of, oi, ol, re)}
}

type quiet struct{ slog.Logger }

func swapper(dir string, opts ...hotswap.Option) *hotswap.PluginManagerSwapper {
	opts = append([]hotswap.Option{hotswap.WithLogger(slog.NewDumbLogger())}, opts...)
	return hotswap.NewPluginManagerSwapper(dir, opts...)
}

func begin() {
	plugin.VerifReset()
	kitMu.Lock()
	trail = nil
	kitMu.Unlock()
	plugin.VerifOpen = func(path string, reopened bool) (map[string]any, error) {
		data, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		kitMu.Lock()
		f := registry[string(data)]
		kitMu.Unlock()
		if f == nil {
			return nil, fmt.Errorf("invalid ELF header")
		}
		return f.funcs(), nil
	}
}

func ok(t *testing.T, what string, good bool) {
	t.Helper()
	if !good {
		t.Errorf("%s\ntrail: %s", what, strings.Join(trail, ", "))
	}
}

func must(t *testing.T, d hotswap.Details, err error) hotswap.Details {
	t.Helper()
	if err != nil {
		t.Fatalf("unexpected error: %v", err)
	}
	return d
}

func names(m *hotswap.PluginManager) string {
	var a []string
	for _, p := range m.Plugins() {
		a = append(a, p.Name)
	}
	return strings.Join(a, " ")
}
