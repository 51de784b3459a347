// Package bridge connects real plugins, which are built by the command line tool, with the harness that scripts them.
package bridge

import "github.com/edwingeng/hotswap/vault"

// Syms is what one opened plugin does.
type Syms struct {
	OnLoad     func(data interface{}) error
	OnInit     func(sharedVault *vault.Vault) error
	OnFree     func()
	Export     func() interface{}
	Import     func() interface{}
	InvokeFunc func(name string, params ...interface{}) (interface{}, error)
	Reloadable func() bool
	Inst       func() int
}

var cur = map[int]*Syms{}

// Set says what plugin no, which is linked statically, does from now on.
func Set(no int, s *Syms) { cur[no] = s }

// Opened is called when a plugin is initialised, with the number that was compiled into it. The harness replaces it before it
// opens plugins; those that are linked statically are initialised first.
var Opened = func(no int) *Syms {
	return &Syms{
		OnLoad:     func(data interface{}) error { return cur[no].OnLoad(data) },
		OnInit:     func(v *vault.Vault) error { return cur[no].OnInit(v) },
		OnFree:     func() { cur[no].OnFree() },
		Export:     func() interface{} { return cur[no].Export() },
		Import:     func() interface{} { return cur[no].Import() },
		InvokeFunc: func(name string, params ...interface{}) (interface{}, error) { return cur[no].InvokeFunc(name, params...) },
		Reloadable: func() bool { return cur[no].Reloadable() },
		Inst:       func() int { return cur[no].Inst() },
	}
}
