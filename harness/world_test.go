package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

type M = map[string]any

// IExp is what the plugins export.
type IExp interface{ InstID() int }

type Exp struct{ id int }

func (e *Exp) InstID() int { return e.id }

type ExpV struct{ id int }

func (e ExpV) InstID() int { return e.id }

// ExpAlias can be converted to Exp but not assigned.
type ExpAlias Exp

func (e *ExpAlias) InstID() int { return e.id }

// ExpZ is exported as its zero value.
type ExpZ struct{ _ int }

func (e ExpZ) InstID() int { return 0 }

// Embeddable field types.
type Alpha interface{ InstID() int }
type Beta interface{ InstID() int }
type Gamma interface{ InstID() int }
type Delta interface{ InstID() int }

type IBad interface{ NoSuchMethod() }

var (
	tIExp  = reflect.TypeOf((*IExp)(nil)).Elem()
	tAny   = reflect.TypeOf((*any)(nil)).Elem()
	tPtr   = reflect.TypeOf((*Exp)(nil))
	tVal   = reflect.TypeOf(ExpV{})
	tConv  = reflect.TypeOf((*ExpAlias)(nil))
	tBad   = reflect.TypeOf((*IBad)(nil)).Elem()
	tInt   = reflect.TypeOf(0)
	anonTy = map[string]reflect.Type{
		"Alpha": reflect.TypeOf((*Alpha)(nil)).Elem(),
		"Beta":  reflect.TypeOf((*Beta)(nil)).Elem(),
		"Gamma": reflect.TypeOf((*Gamma)(nil)).Elem(),
		"Delta": reflect.TypeOf((*Delta)(nil)).Elem(),
	}
)

// sentinel is what the plugins put in their import fields beforehand.
var sentinel = &Exp{id: -1}

// Inst is one plugin instance: one successful open (or, statically, one pass through Reloadable).
type Inst struct {
	id   int
	blob *Blob
	imp  reflect.Value // the import struct (pointer), if any
	exp  any
}

// opened is one opened path (or one static plugin): the functions are shared by all instances made of it.
type opened struct {
	w      *World
	blob   *Blob
	path   int
	cur    *Inst
	static bool
}

type actor struct {
	name string
	call int // current call id, 0 if none
	spec CallSpec
	data *int
}

type World struct {
	sc   *Scenario
	dir  string
	sw   *hotswap.PluginManagerSwapper
	t0   time.Time
	mu   sync.Mutex
	log  *os.File
	evs  []json.RawMessage
	mgrs map[*hotswap.PluginManager]int
	mseq []*hotswap.PluginManager

	vaults  vaultMap
	active  map[int]*actor // calls in flight
	queries []string
	pubs    []*hotswap.PluginManager

	nInst  int
	nCall  int
	nExt   int
	nInv   int
	blobs  map[int]*Blob
	paths  map[string]int
	first  map[string]int // blob first opened from a path
	byBlob map[int]string // path from which a content was first opened
	errs   int64
	done   map[string]int
	copies []*copyFile // private copies that were opened

	actMu  sync.Mutex
	actors map[int64]*actor
	inv    map[int64]int // goroutine -> InvokeEach call

	ctl *controller
}

type vaultMap map[*vault.Vault]int

type extObj struct{ id int }

// setupReal prepares real plugins (tag real).
var setupReal func(w *World)

// staticReal yields static plugins that the command line tool has linked (tag realstatic).
var staticReal func(s Static, o *opened) *hotswap.StaticPlugin

var pool = map[int][]byte{}
var poolMu sync.Mutex

func pooled(no int) []byte {
	poolMu.Lock()
	defer poolMu.Unlock()
	if pool[no] == nil {
		data, err := os.ReadFile(filepath.Join(os.Getenv("HS_POOL"), strconv.Itoa(no)))
		must(err)
		pool[no] = data
	}
	return pool[no]
}

var progress atomic.Int64
var inCurrent atomic.Int64

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	s := buf[len("goroutine "):n]
	i := bytes.IndexByte(s, ' ')
	id, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return id
}

func (w *World) self() *actor {
	w.actMu.Lock()
	defer w.actMu.Unlock()
	return w.actors[goid()]
}

func (w *World) setActor(a *actor) {
	id := goid()
	w.actMu.Lock()
	if a == nil {
		delete(w.actors, id)
	} else {
		w.actors[id] = a
	}
	w.actMu.Unlock()
}

// mgrID numbers managers in the order in which they are first seen. w.mu is held.
func (w *World) mgrID(pm *hotswap.PluginManager) int {
	if pm == nil {
		return 0
	}
	id, ok := w.mgrs[pm]
	if !ok {
		w.mseq = append(w.mseq, pm)
		id = len(w.mseq)
		w.mgrs[pm] = id
	}
	return id
}

func (w *World) current() *hotswap.PluginManager {
	inCurrent.Add(1)
	pm := w.sw.Current()
	inCurrent.Add(-1)
	return pm
}

// emit appends one event. The current manager is read while the log is locked, so that the readings are
// in the order of the events.
func (w *World) emit(e string, m M) {
	a := w.self()
	if a == nil {
		switch e {
		case "open", "rel", "exp", "imp", "onload", "oninit", "lf", "lt":
			// called on a goroutine of the code under test: it can only belong to the one call in flight
			a = w.only()
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.emitLocked(a, e, m)
}

// only returns the actor of the one call in flight, if there is exactly one.
func (w *World) only() (a *actor) {
	w.actMu.Lock()
	defer w.actMu.Unlock()
	if len(w.active) == 1 {
		for _, a = range w.active {
		}
	}
	return a
}

func (w *World) emitLocked(a *actor, e string, m M) {
	if m == nil {
		m = M{}
	}
	m["e"] = e
	if a != nil {
		m["g"] = a.name
		if _, ok := m["c"]; !ok {
			m["c"] = a.call
		}
	} else {
		m["g"] = "timer"
		m["c"] = 0
	}
	m["rc"] = -1
	if w.sw != nil {
		m["rc"] = w.sw.ReloadCounter()
	}
	m["cur"] = w.mgrID(w.current())
	m["t"] = time.Since(w.t0).Milliseconds()
	raw, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	w.evs = append(w.evs, raw)
	_, _ = w.log.Write(append(raw, '\n'))
	progress.Add(1)
}

func (w *World) gate(point string) {
	progress.Add(1)
	if w.ctl != nil {
		w.ctl.gate(point)
	}
}

const bigFile = 200000

// content is what a file of the blob holds. With a shape, all files of that shape have one size and differ in a few bytes only.
func (b *Blob) content() []byte {
	if b.Pool > 0 && os.Getenv("HS_POOL") != "" {
		return pooled(b.Pool)
	}
	mark := fmt.Sprintf("HSBLOB %06d\n", b.ID)
	switch b.Shape {
	case "const":
		return []byte(mark)
	case "front":
		return []byte(mark + strings.Repeat("x", bigFile-len(mark)))
	case "mid":
		return []byte(strings.Repeat("x", bigFile/2) + mark + strings.Repeat("x", bigFile/2-len(mark)))
	case "end":
		return []byte(strings.Repeat("x", bigFile-len(mark)) + mark)
	}
	return []byte(mark + strings.Repeat("x", b.ID%7))
}

func (w *World) parse(data []byte) *Blob {
	if setupReal != nil {
		for _, b := range w.blobs {
			if bytes.Equal(b.content(), data) {
				return b
			}
		}
		return nil
	}
	i := bytes.Index(data, []byte("HSBLOB "))
	if i < 0 {
		return nil
	}
	s := data[i+len("HSBLOB "):]
	i = bytes.IndexByte(s, '\n')
	if i < 0 {
		return nil
	}
	id, err := strconv.Atoi(string(s[:i]))
	if err != nil {
		return nil
	}
	b := w.blobs[id]
	if b == nil || !bytes.Equal(b.content(), data) {
		return nil
	}
	return b
}

// open is plugin.Open as seen by the code under test.
func (w *World) open(path string, reopened bool) (map[string]any, error) {
	w.gate("open")
	data, err := os.ReadFile(path)
	var b *Blob
	if err == nil {
		b = w.parse(data)
	}
	abs, _ := filepath.Abs(path)
	orig := filepath.Dir(abs) == w.dir
	w.mu.Lock()
	p, ok := w.paths[abs]
	if !ok {
		p = len(w.paths) + 1
		w.paths[abs] = p
	}
	bid, firstID := 0, 0
	if b != nil {
		bid = b.ID
		if _, ok := w.first[abs]; !ok {
			w.first[abs] = bid
		}
		firstID = w.first[abs]
	}
	o := openedByPath[abs]
	w.mu.Unlock()

	ev := M{"b": bid, "p": p, "pb": firstID, "orig": orig, "i": 0, "ok": false}
	fail := func(msg string) (map[string]any, error) {
		w.emit("open", ev)
		return nil, fmt.Errorf("plugin.Open(%q): %s", path, msg)
	}
	if b == nil {
		return fail("invalid ELF header")
	}
	switch w.times(b, "open", orOK(b.Open)) {
	case "err":
		return fail("plugin was built with a different version of package runtime/internal/sys")
	case "panic":
		w.emit("open", ev)
		somePanic(bid, "init")
	}
	if reopened && o != nil {
		// the runtime hands out what was opened from this path before
		b = o.blob
	} else {
		if w.sc.Opts.Once {
			if q, ok := w.byBlob[bid]; ok && q != abs {
				return fail("plugin already loaded")
			}
			w.byBlob[bid] = abs
		}
		o = &opened{w: w, blob: b, path: p}
		openedByPath[abs] = o
	}
	w.keepCopy(abs, b)
	// every opening gets functions of its own, so that it is always known for which one they are called
	o = &opened{w: w, blob: b, path: p}
	in := o.newInst()
	ev["i"], ev["ok"], ev["b"] = in.id, true, bid
	w.emit("open", ev)
	return o.symbols(), nil
}

// copyFile is a file that was opened as a plugin. It is mapped into the process from then on, so nobody may write to it again.
type copyFile struct {
	f *os.File
	b *Blob
}

var copyTime = time.Unix(1234567890, 0)

func (w *World) keepCopy(path string, b *Blob) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	fi, err := f.Stat()
	must(err)
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.copies {
		if old, err := c.f.Stat(); err == nil && os.SameFile(old, fi) {
			_ = f.Close()
			return
		}
	}
	must(os.Chtimes(path, copyTime, copyTime))
	w.copies = append(w.copies, &copyFile{f, b})
}

// copiesIntact tells whether no opened file has been written to.
func (w *World) copiesIntact() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.copies {
		fi, err := c.f.Stat()
		must(err)
		if !fi.ModTime().Equal(copyTime) || fi.Size() != int64(len(c.b.content())) {
			return false
		}
	}
	return true
}

var openedByPath = map[string]*opened{}

func (o *opened) newInst() *Inst {
	o.w.mu.Lock()
	o.w.nInst++
	in := &Inst{id: o.w.nInst, blob: o.blob}
	o.w.mu.Unlock()
	o.cur = in
	return in
}

func (o *opened) inst() *Inst {
	if o.cur == nil {
		o.newInst()
	}
	return o.cur
}

type oddError struct{ n int }

func (e *oddError) Error() string { return "odd error" }

// someError and somePanic vary the values that plugins return and panic with.
func someError(n int, what string) error {
	switch n % 6 {
	case 0:
		return io.EOF
	case 1:
		return context.Canceled
	case 2:
		return &oddError{n}
	case 3:
		return fmt.Errorf("%s: %w", what, os.ErrNotExist)
	case 4:
		return hotswap.ErrNotExist
	}
	return errors.New("scripted error of " + what)
}

func somePanic(n int, what string) {
	switch n % 7 {
	case 0:
		panic(someError(n/7, what))
	case 1:
		var m map[string]int
		m[what] = n
	case 2:
		var a []int
		_ = a[n]
	case 3:
		panic(n)
	case 4:
		panic(oddError{n})
	case 5:
		var in *Inst
		in.id = n
	}
	panic("scripted panic of " + what)
}

// times is the behaviour b, which may be limited to the first few times ("err!2").
func (w *World) times(b *Blob, stage, v string) string {
	i := strings.IndexByte(v, '!')
	if i < 0 {
		return v
	}
	n, err := strconv.Atoi(v[i+1:])
	must(err)
	w.mu.Lock()
	defer w.mu.Unlock()
	k := stage + strconv.Itoa(b.ID)
	w.done[k]++
	if w.done[k] > n {
		return "ok"
	}
	return v[:i]
}

func (o *opened) act(stage string, m M) string {
	in := o.inst()
	if m == nil {
		m = M{}
	}
	m["i"], m["b"] = in.id, in.blob.ID
	r := o.w.times(in.blob, stage, orOK(in.blob.Fault[stage]))
	m["r"] = r
	o.w.emit(stage, m)
	return r
}

func (o *opened) fOnLoad(data interface{}) error {
	o.w.gate("onload")
	a := o.w.self()
	if a == nil {
		a = o.w.only()
	}
	same := false
	if p, ok := data.(*int); ok && a != nil {
		same = p == a.data
	}
	switch o.act("onload", M{"d": same}) {
	case "err":
		return someError(o.cur.id, "OnLoad")
	case "panic":
		somePanic(o.cur.id, "OnLoad")
	}
	return nil
}

func (o *opened) fOnInit(v *vault.Vault) error {
	o.w.gate("oninit")
	in := o.inst()
	m := o.w.vaultInfo(v)
	o.w.mu.Lock()
	vp, ok := o.w.vaults[v]
	if !ok {
		vp = len(o.w.vaults) + 1
		o.w.vaults[v] = vp
	}
	o.w.mu.Unlock()
	m["vp"] = vp
	bag := []int{}
	for k := range v.DataBag {
		n, err := strconv.Atoi(k)
		if err != nil {
			n = -1
		}
		bag = append(bag, n)
	}
	m["bag"] = bag
	v.DataBag[strconv.Itoa(in.id)] = true
	switch o.act("oninit", m) {
	case "err":
		return someError(in.id+1, "OnInit")
	case "panic":
		somePanic(in.id+1, "OnInit")
	}
	return nil
}

func (o *opened) fOnFree() {
	o.w.gate("onfree")
	if o.act("onfree", nil) == "panic" {
		somePanic(o.cur.id+2, "OnFree")
	}
}

func (o *opened) fExport() interface{} {
	o.w.gate("exp")
	in := o.inst()
	var v any
	switch in.blob.Exp {
	case "obj":
		v = &Exp{id: in.id}
	case "val":
		v = ExpV{id: in.id}
	case "zero":
		v = ExpZ{}
	case "tnil":
		v = (*Exp)(nil)
	case "tnilm":
		v = map[string]int(nil)
	case "tnilf":
		v = (func())(nil)
	}
	in.exp = v
	if o.act("exp", nil) == "panic" {
		somePanic(in.id+3, "Export")
	}
	return v
}

func (o *opened) fImport() interface{} {
	o.w.gate("imp")
	in := o.inst()
	if o.act("imp", nil) == "panic" {
		somePanic(in.id, "Import")
	}
	switch in.blob.Impk {
	case "nil":
		return nil
	case "tnil":
		return (*struct{ Alpha IExp })(nil)
	case "nonptr":
		return struct{ A int }{1}
	case "ptrint":
		n := 3
		return &n
	}
	var fields []reflect.StructField
	for _, x := range in.blob.Imps {
		f := reflect.StructField{Name: x.F}
		switch x.K {
		case "any":
			f.Type = tAny
		case "iface":
			f.Type = tIExp
		case "ptr":
			f.Type = tPtr
		case "val":
			f.Type = tVal
		case "conv":
			f.Type = tConv
		case "bad":
			f.Type = tBad
		case "int":
			f.Type = tInt
		case "skip":
			f.Type, f.Tag = tIExp, `hotswap:"-"`
		case "skipbad":
			f.Type, f.Tag = tInt, `hotswap:"-"`
		case "unexp":
			f.Type, f.PkgPath = tIExp, "verif/harness"
		case "anon":
			f.Type, f.Anonymous = anonTy[x.F], true
		case "anonskip":
			f.Type, f.Anonymous, f.Tag = anonTy[x.F], true, `hotswap:"-"`
		}
		// tags that mean nothing here, and other places for the one that does
		if f.Tag == "" {
			f.Tag = oddTags[(len(fields)+len(in.blob.Imps))%len(oddTags)]
		} else if len(fields)%2 == 1 {
			f.Tag = `json:"x,omitempty" ` + f.Tag
		}
		fields = append(fields, f)
	}
	ptr := reflect.New(reflect.StructOf(fields))
	for i := range fields {
		fv := ptr.Elem().Field(i)
		if in.blob.Imps[i].K == "unexp" {
			fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
		}
		if reflect.TypeOf(sentinel).AssignableTo(fv.Type()) {
			fv.Set(reflect.ValueOf(sentinel))
		}
	}
	in.imp = ptr
	return ptr.Interface()
}

func (o *opened) fInvoke(name string, params ...interface{}) (interface{}, error) {
	if name == "\x00whoami" {
		return o.inst(), nil
	}
	o.w.gate("inv")
	id := goid()
	o.w.actMu.Lock()
	k := o.w.inv[id]
	o.w.actMu.Unlock()
	argok := len(params) == 3 && params[0] == "p" && params[1] == k && params[2] == o.w && name == "job"+strconv.Itoa(k)
	what := o.inst().id + k
	if k%2 == 0 { // every plugin fails in the same way
		what = k / 2
	}
	switch o.act("inv", M{"k": k, "argok": argok}) {
	case "err":
		return k, someError(what, "InvokeFunc")
	case "panic":
		somePanic(what, "InvokeFunc")
	}
	return k, nil
}

func (o *opened) fReloadable() bool {
	o.w.gate("rel")
	if o.static {
		o.newInst()
	}
	in := o.inst()
	if o.act("rel", nil) == "panic" {
		somePanic(in.id+1, "Reloadable")
	}
	return in.blob.Rel
}

func orOK(s string) string {
	if s == "" {
		return "ok"
	}
	return s
}

func (o *opened) fLiveFuncs() map[string]interface{} {
	in := o.inst()
	o.w.emit("lf", M{"i": in.id, "b": in.blob.ID, "r": orOK(in.blob.Lfk)})
	switch in.blob.Lfk {
	case "nil":
		return nil
	case "panic":
		somePanic(in.id+2, "HotswapLiveFuncs")
	}
	m := make(map[string]interface{})
	for _, k := range in.blob.Lf {
		k := k
		m[k] = func() (int, string) { return in.id, k }
	}
	return m
}

func (o *opened) fLiveTypes() map[string]func() interface{} {
	in := o.inst()
	o.w.emit("lt", M{"i": in.id, "b": in.blob.ID, "r": orOK(in.blob.Ltk)})
	switch in.blob.Ltk {
	case "nil":
		return nil
	case "panic":
		somePanic(in.id+3, "HotswapLiveTypes")
	}
	m := make(map[string]func() interface{})
	for _, k := range in.blob.Lt {
		k := k
		m[k] = func() interface{} { return liveObj{in.id, k} }
	}
	return m
}

type liveObj struct {
	id   int
	name string
}

func contains(a []string, s string) bool {
	for _, v := range a {
		if v == s {
			return true
		}
	}
	return false
}

func (o *opened) symbols() map[string]any {
	b := o.blob
	type item struct{ fn, ptr any }
	var (
		fOnLoad     func(data interface{}) error                                  = o.fOnLoad
		fOnInit     func(sharedVault *vault.Vault) error                          = o.fOnInit
		fOnFree     func()                                                        = o.fOnFree
		fExport     func() interface{}                                            = o.fExport
		fImport     func() interface{}                                            = o.fImport
		fInvokeFunc func(name string, params ...interface{}) (interface{}, error) = o.fInvoke
		fReloadable func() bool                                                   = o.fReloadable
		fLiveFuncs  func() map[string]interface{}                                 = o.fLiveFuncs
		fLiveTypes  func() map[string]func() interface{}                          = o.fLiveTypes
	)
	all := map[string]item{
		"OnLoad":           {fOnLoad, &fOnLoad},
		"OnInit":           {fOnInit, &fOnInit},
		"OnFree":           {fOnFree, &fOnFree},
		"Export":           {fExport, &fExport},
		"Import":           {fImport, &fImport},
		"InvokeFunc":       {fInvokeFunc, &fInvokeFunc},
		"Reloadable":       {fReloadable, &fReloadable},
		"HotswapLiveFuncs": {fLiveFuncs, &fLiveFuncs},
		"HotswapLiveTypes": {fLiveTypes, &fLiveTypes},
	}
	syms := map[string]any{}
	for name, it := range all {
		switch {
		case contains(b.Miss, name):
		case contains(b.Mist, name):
			switch b.Mistk {
			case "var":
				n := 7
				syms[name] = &n
			case "ptrsig":
				f := func(uint8) uint8 { return 0 }
				syms[name] = &f
			default:
				syms[name] = func(x uint8, y ...string) uint8 { return x }
			}
		case contains(b.Fvar, name):
			syms[name] = it.ptr
		default:
			syms[name] = it.fn
		}
	}
	return syms
}

func (o *opened) staticFuncs() hotswap.PluginFuncs {
	has := func(n string) bool { return !contains(o.blob.Miss, n) }
	var (
		fOnLoad     func(data interface{}) error
		fOnInit     func(sharedVault *vault.Vault) error
		fOnFree     func()
		fExport     func() interface{}
		fImport     func() interface{}
		fInvokeFunc func(name string, params ...interface{}) (interface{}, error)
		fReloadable func() bool
		fLiveFuncs  func() map[string]interface{}
		fLiveTypes  func() map[string]func() interface{}
	)
	if has("OnLoad") {
		fOnLoad = o.fOnLoad
	}
	if has("OnInit") {
		fOnInit = o.fOnInit
	}
	if has("OnFree") {
		fOnFree = o.fOnFree
	}
	if has("Export") {
		fExport = o.fExport
	}
	if has("Import") {
		fImport = o.fImport
	}
	if has("InvokeFunc") {
		fInvokeFunc = o.fInvoke
	}
	if has("Reloadable") {
		fReloadable = o.fReloadable
	}
	if has("HotswapLiveFuncs") {
		fLiveFuncs = o.fLiveFuncs
	}
	if has("HotswapLiveTypes") {
		fLiveTypes = o.fLiveTypes
	}
	return hotswap.NewPluginFuncs(fExport, fLiveFuncs, fLiveTypes, fImport, fInvokeFunc, fOnFree, fOnInit, fOnLoad, fReloadable)
}

// vaultInfo reads the live tables: pairs of name and the instance whose function or type it is.
func (w *World) vaultInfo(v *vault.Vault) M {
	lf, lt := [][]any{}, [][]any{}
	for k, f := range v.LiveFuncs {
		id := -1
		if fn, ok := f.(func() (int, string)); ok {
			if i, name := fn(); name == k {
				id = i
			}
		}
		lf = append(lf, []any{k, id})
	}
	for k, f := range v.LiveTypes {
		id := -1
		if f != nil {
			switch o := f().(type) {
			case liveObj:
				if o.name == k {
					id = o.id
				}
			case interface{ HsLive() (int, string) }:
				if i, name := o.HsLive(); name == k {
					id = i
				}
			}
		}
		lt = append(lt, []any{k, id})
	}
	ext := 0
	switch x := v.Extension.(type) {
	case nil:
	case *extObj:
		ext = x.id
	default:
		ext = -1
	}
	return M{"lf": lf, "lt": lt, "ext": ext}
}

func whoami(p *hotswap.Plugin) (in *Inst) {
	defer func() {
		if r := recover(); r != nil {
			in = nil
		}
	}()
	v, err := p.InvokeFunc("\x00whoami")
	if err != nil {
		return nil
	}
	in, _ = v.(*Inst)
	return in
}

// logger counts error records.
type logger struct {
	slog.Logger
	n *int64
}

func (l logger) NewLoggerWith(keyVals ...any) slog.Logger { return l }
func (l logger) Debug(args ...any)                        {}
func (l logger) Info(args ...any)                         {}
func (l logger) Warn(args ...any)                         {}
func (l logger) Debugf(format string, args ...any)        {}
func (l logger) Infof(format string, args ...any)         {}
func (l logger) Warnf(format string, args ...any)         {}
func (l logger) Debugw(msg string, keyVals ...any)        {}
func (l logger) Infow(msg string, keyVals ...any)         {}
func (l logger) Warnw(msg string, keyVals ...any)         {}
func (l logger) FlushLogger() error                       { return nil }
func (l logger) Error(args ...any)                        { atomic.AddInt64(l.n, 1) }
func (l logger) Errorf(format string, args ...any)        { atomic.AddInt64(l.n, 1) }
func (l logger) Errorw(msg string, keyVals ...any)        { atomic.AddInt64(l.n, 1) }

var oddTags = []reflect.StructTag{"", `json:"-"`, `hotswap:"-x"`, `hotswap:""`, `hotswapx:"-"`, `hotswap:"-,"`, `hotswap:" -"`}
