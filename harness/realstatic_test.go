//go:build realstatic

package harness

import (
	"github.com/edwingeng/hotswap"
	"verif/harness/bridge"
	"verif/harness/sp"
)

// With the tag realstatic the static plugins are those that the command line tool linked.

func init() {
	staticReal = func(s Static, o *opened) *hotswap.StaticPlugin {
		sp := sp.HotswapStaticPlugins[s.K]
		if sp == nil {
			panic("HARNESS: a plugin that is not linked: " + s.K)
		}
		bridge.Set(o.blob.Pool, &bridge.Syms{
			OnLoad: o.fOnLoad, OnInit: o.fOnInit, OnFree: o.fOnFree, Export: o.fExport, Import: o.fImport, InvokeFunc: o.fInvoke,
			Reloadable: o.fReloadable, Inst: func() int { return o.inst().id },
		})
		return &hotswap.StaticPlugin{Name: sp.Name, PluginFuncs: sp.PluginFuncs}
	}
}
