//go:build real

package harness

import (
	"os"
	"path/filepath"
	"plugin"

	"verif/harness/bridge"
)

// With the tag real the plugins are real ones: built by the command line tool, opened by the Go runtime. They pass each call on to the harness.

var (
	justOpened *opened
	byPlugin   = map[*plugin.Plugin]*opened{}
)

func init() {
	setupReal = func(w *World) {
		bridge.Opened = func(no int) *bridge.Syms {
			for _, b := range w.blobs {
				if b.Pool == no {
					o := &opened{w: w, blob: b}
					justOpened = o
					return &bridge.Syms{
						OnLoad: o.fOnLoad, OnInit: o.fOnInit, OnFree: o.fOnFree, Export: o.fExport, Import: o.fImport, InvokeFunc: o.fInvoke,
						Reloadable: o.fReloadable, Inst: func() int { return o.inst().id },
					}
				}
			}
			panic("HARNESS: a plugin that is not part of the scenario")
		}
		plugin.VerifReal = w.openReal
	}
}

func (w *World) openReal(path string, real func(path string) (*plugin.Plugin, error)) (*plugin.Plugin, error) {
	w.gate("open")
	data, err := os.ReadFile(path)
	var b *Blob
	if err == nil {
		b = w.parse(data)
	}
	abs, _ := filepath.Abs(path)
	w.mu.Lock()
	p, ok := w.paths[abs]
	if !ok {
		p = len(w.paths) + 1
		w.paths[abs] = p
	}
	w.mu.Unlock()
	ev := M{"b": 0, "p": p, "pb": 0, "orig": filepath.Dir(abs) == w.dir, "i": 0, "ok": false}
	if b != nil {
		ev["b"], ev["pb"] = b.ID, b.ID
	}
	justOpened = nil
	pl, err := real(path)
	if err != nil {
		w.emit("open", ev)
		return nil, err
	}
	o := byPlugin[pl]
	if o == nil {
		o = justOpened
		if o == nil {
			panic("HARNESS: opened, but not initialised")
		}
		byPlugin[pl] = o
	}
	o.path = p
	if b != nil {
		w.keepCopy(abs, b)
	}
	in := o.newInst()
	ev["i"], ev["ok"], ev["pb"] = in.id, true, o.blob.ID
	w.emit("open", ev)
	return pl, nil
}
