package harness

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/edwingeng/hotswap"
)

const ext = ".so"

type onDisk struct {
	kind string // file, dir, link
	data []byte
	b    int
	sym  bool // reached through a symbolic link
}

type runner struct {
	*World
	stored  int
	root    string
	dirNo   int
	dirs    map[int]map[string]onDisk
	cls     map[string]*client
	order   []string
	wg      sync.WaitGroup
	snapped int
	dirty   atomic.Bool // static mode: a load failed after the last success
}

func (r *runner) dirPath(n int) string {
	return filepath.Join(r.root, "d"+strconv.Itoa(n))
}

func (r *runner) inFlight() (n int) {
	r.ctl.mu.Lock()
	defer r.ctl.mu.Unlock()
	for _, cl := range r.cls {
		if cl.state == "running" || cl.state == "gated" {
			n++
		}
	}
	return
}

func (r *runner) emitFS() {
	fl := [][]any{}
	ok := r.dirNo >= 0
	if ok {
		var names []string
		for n := range r.dirs[r.dirNo] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			o := r.dirs[r.dirNo][n]
			so := strings.HasSuffix(n, ext)
			nm := strings.TrimSuffix(n, ext)
			fl = append(fl, []any{nm, strings.ToLower(nm), so, o.kind == "dir", o.b, o.kind == "link"})
		}
	}
	r.emit("fs", M{"ok": ok, "fl": fl})
}

// fsIntact tells whether the plugin directory holds exactly what was put there.
func (r *runner) fsIntact() bool {
	for n, files := range r.dirs {
		ents, err := os.ReadDir(r.dirPath(n))
		if err != nil {
			return false
		}
		seen := 0
		for _, e := range ents {
			o, ok := files[e.Name()]
			if !ok {
				if e.IsDir() {
					continue
				}
				return false
			}
			seen++
			switch o.kind {
			case "dir":
				if !e.IsDir() {
					return false
				}
			case "link":
				if e.Type()&os.ModeSymlink == 0 {
					return false
				}
			default:
				if o.sym != (e.Type()&os.ModeSymlink != 0) {
					return false
				}
				data, err := os.ReadFile(filepath.Join(r.dirPath(n), e.Name()))
				if err != nil || !bytes.Equal(data, o.data) {
					return false
				}
			}
		}
		if seen != len(files) {
			return false
		}
	}
	return true
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("HARNESS: %v", err))
	}
}

// doCall makes one call on the calling goroutine, which belongs to actor a.
func (r *runner) doCall(a *actor, cs CallSpec) {
	w := r.World
	w.mu.Lock()
	w.nCall++
	a.call = w.nCall
	w.mu.Unlock()
	a.spec = cs
	a.data = new(int)
	w.actMu.Lock()
	w.active[a.call] = a
	w.actMu.Unlock()
	w.emit("call", M{"op": cs.Op, "cfg": cs.Cfg, "x": cs.X})
	var det hotswap.Details
	var err error
	var pan bool
	func() {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(string); ok && strings.HasPrefix(s, "HARNESS") {
					panic(x)
				}
				pan = true
			}
		}()
		switch cs.Op {
		case "load":
			det, err = w.sw.LoadPlugins(a.data)
		case "reload":
			det, err = w.sw.Reload(a.data)
		default:
			det, err = w.sw.ReloadWithCallback(a.data, w.callback(2))
		}
	}()
	m := M{"ok": err == nil && !pan, "pan": pan, "cnt": w.sw.ReloadCounter()}
	d := [][]any{}
	for k, v := range det {
		if w.sc.Mode != "static" {
			k = strings.TrimSuffix(filepath.Base(k), ext)
		}
		d = append(d, []any{strings.ToLower(k), v})
	}
	m["det"] = d
	// its text, taken apart again; it must not depend on the order of a map
	txt := [][]any{}
	if t := det.String(); t != "" {
		for _, x := range strings.Split(t, ", ") {
			i := strings.LastIndex(x, ": ")
			if i < 0 {
				i = len(x)
			}
			txt = append(txt, []any{strings.ToLower(x[:i]), strings.TrimPrefix(x[i:], ": ")})
		}
		for range 3 {
			if det.String() != t {
				txt = append(txt, []any{t, det.String()})
			}
		}
	}
	m["txt"] = txt
	miss := []string{}
	if err != nil {
		s := err.Error()
		for _, n := range requiredFuncs {
			if regexp.MustCompile(`\b` + n + `\b`).MatchString(s) {
				miss = append(miss, n)
			}
		}
		if os.Getenv("HS_ERRS") != "" {
			m["err"] = s
		}
	}
	m["miss"] = miss
	m["intact"] = r.fsIntact() && w.copiesIntact()
	w.actMu.Lock()
	delete(w.active, a.call)
	w.actMu.Unlock()
	w.emit("ret", m)
	a.call = 0
	r.dirty.Store(err != nil)
}

// callback is the configured (1) or the extra (2) reload callback.
func (w *World) callback(which int) hotswap.ReloadCallback {
	return func(newManager, oldManager *hotswap.PluginManager) error {
		w.gate("cb")
		a := w.self()
		if a == nil {
			a = w.only()
		}
		beh := "ok"
		if a != nil {
			beh = a.spec.Cfg
			if which == 2 {
				beh = a.spec.X
			}
			if beh == "" {
				beh = "ok"
			}
		}
		w.mu.Lock()
		n, o := w.mgrID(newManager), w.mgrID(oldManager)
		w.emitLocked(a, "cb", M{"w": which, "new": n, "old": o, "r": beh})
		w.mu.Unlock()
		switch beh {
		case "err":
			return someError(n+o, "callback")
		case "panic":
			somePanic(n+o, "callback")
		}
		return nil
	}
}

func (r *runner) client(name string) *client {
	cl := r.cls[name]
	if cl != nil {
		return cl
	}
	cl = &client{name: name, jobs: make(chan CallSpec), state: "idle"}
	r.cls[name] = cl
	r.order = append(r.order, name)
	ready := make(chan struct{})
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		cl.goid = goid()
		a := &actor{name: name}
		r.setActor(a)
		defer r.setActor(nil)
		r.ctl.mu.Lock()
		r.ctl.byGoid[cl.goid] = cl
		r.ctl.mu.Unlock()
		close(ready)
		for cs := range cl.jobs {
			r.doCall(a, cs)
			r.ctl.mu.Lock()
			cl.state = "done"
			r.ctl.mu.Unlock()
		}
	}()
	<-ready
	return cl
}

func (r *runner) finish(cl *client) string {
	for {
		s := r.ctl.settle(cl, r.inFlight() <= 1 && !r.timersHeld())
		if s != "gated" {
			return s
		}
		r.ctl.release(cl)
	}
}

func (r *runner) timersHeld() bool {
	r.ctl.mu.Lock()
	defer r.ctl.mu.Unlock()
	return len(r.ctl.waiting) > 0
}

func (r *runner) finishAll() {
	for {
		busy := false
		for _, n := range r.order {
			cl := r.cls[n]
			if s, _ := r.ctl.stateOf(cl); s == "running" || s == "gated" {
				busy = true
				r.finish(cl)
			}
		}
		if !busy {
			return
		}
	}
}

// wire reads the import fields of an instance: 0 nil, -1 as the plugin set it, i the export of instance i, -2 other.
func (in *Inst) wire() [][]any {
	out := [][]any{}
	if !in.imp.IsValid() {
		return out
	}
	for i, x := range in.blob.Imps {
		fv := in.imp.Elem().Field(i)
		if x.K == "unexp" {
			fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
		}
		v := -2
		if !reflect.TypeOf(sentinel).AssignableTo(fv.Type()) {
			if fv.IsZero() {
				v = -1
			} else if o, ok := fv.Interface().(ExpV); ok {
				v = o.id
			}
		} else {
			switch o := fv.Interface().(type) {
			case nil:
				v = 0
			case *Exp:
				switch {
				case o == sentinel:
					v = -1
				case o == nil:
					v = 0
				default:
					v = o.id
				}
			case ExpV:
				v = o.id
			case ExpZ:
				v = -3
			}
		}
		out = append(out, []any{x.F, v})
	}
	return out
}

func (r *runner) snap(pm *hotswap.PluginManager) {
	w := r.World
	if pm == nil {
		return
	}
	pl := []M{}
	for _, p := range pm.Plugins() {
		if p == nil {
			pl = append(pl, M{"i": 0, "n": "", "deps": []string{}, "wire": [][]any{}, "note": "", "attr": "", "sha": false})
			continue
		}
		in := whoami(p)
		m := M{"i": 0, "n": strings.ToLower(p.Name), "wire": [][]any{}, "note": p.Note, "attr": "", "sha": false}
		deps := []string{}
		for _, d := range p.Deps {
			deps = append(deps, strings.ToLower(d))
		}
		m["deps"] = deps
		if in != nil {
			m["i"] = in.id
			m["wire"] = in.wire()
			m["sha"] = p.FileSha1 == sha1.Sum(in.blob.content())
			m["attr"] = fmt.Sprint(p.Name, "|", strings.TrimPrefix(p.File, r.root), "|", p.When.UnixNano(), "|", p.Note)
		}
		pl = append(pl, m)
	}
	find := [][]any{}
	for _, q := range r.queries {
		id := 0
		if p := pm.FindPlugin(q); p != nil {
			id = -1
			if in := whoami(p); in != nil {
				id = in.id
			}
		}
		find = append(find, []any{strings.ToLower(q), id})
	}
	m := w.vaultInfo(&pm.Vault)
	w.mu.Lock()
	vp, ok := w.vaults[&pm.Vault]
	if !ok {
		vp = len(w.vaults) + 1
		w.vaults[&pm.Vault] = vp
	}
	m["vp"] = vp
	m["m"] = w.mgrID(pm)
	m["pl"] = pl
	m["find"] = find
	w.mu.Unlock()
	w.emit("snap", m)
}

// published remembers the managers that Current() has returned.
func (r *runner) snapAll() {
	if r.sc.Mode == "static" {
		if !r.dirty.Load() {
			r.snap(r.current())
		}
		return
	}
	cur := r.current()
	r.snap(cur)
	n := 0
	for i := len(r.pubs) - 1; i >= 0 && n < 2; i-- {
		if r.pubs[i] != cur {
			r.snap(r.pubs[i])
			n++
		}
	}
}

func (r *runner) notePub() {
	cur := r.current()
	if cur == nil {
		return
	}
	for _, p := range r.pubs {
		if p == cur {
			return
		}
	}
	r.pubs = append(r.pubs, cur)
}

func (r *runner) afterCall() {
	r.notePub()
	r.snapAll()
}

func (r *runner) invokeEach(pm *hotswap.PluginManager, fwd bool) {
	w := r.World
	if pm == nil || (w.sc.Mode == "static" && (r.dirty.Load() || pm != r.current())) {
		return
	}
	w.mu.Lock()
	w.nInv++
	k := w.nInv
	m := w.mgrID(pm)
	w.mu.Unlock()
	w.actMu.Lock()
	w.inv[goid()] = k
	w.actMu.Unlock()
	w.emit("invs", M{"k": k, "m": m, "fwd": fwd, "errs": atomic.LoadInt64(&w.errs)})
	pan := false
	func() {
		defer func() {
			if recover() != nil {
				pan = true
			}
		}()
		if fwd {
			pm.InvokeEach("job"+strconv.Itoa(k), "p", k, w)
		} else {
			pm.InvokeEachBackward("job"+strconv.Itoa(k), "p", k, w)
		}
	}()
	w.emit("inve", M{"k": k, "pan": pan, "errs": atomic.LoadInt64(&w.errs)})
}

func (r *runner) settleEvent() {
	r.emit("settle", M{"cnt": r.sw.ReloadCounter(), "errs": atomic.LoadInt64(&r.errs), "heldt": r.timersHeld()})
}

func (r *runner) put(f string, o onDisk, s Step) {
	p := filepath.Join(r.dirPath(r.dirNo), f)
	if old, ok := r.dirs[r.dirNo][f]; ok && (old.kind != "file" || o.kind != "file" || old.sym || o.sym) {
		must(os.RemoveAll(p))
	}
	switch o.kind {
	case "file":
		if o.sym { // a link to a file of another name elsewhere
			r.stored++
			q := filepath.Join(r.root, "store")
			must(os.MkdirAll(q, 0755))
			q = filepath.Join(q, fmt.Sprintf("Other%d.so", r.stored))
			must(os.WriteFile(q, o.data, 0644))
			must(os.Symlink(q, p))
		} else if s.How == "new" {
			q := filepath.Join(r.root, "incoming")
			must(os.WriteFile(q, o.data, 0644))
			must(os.Rename(q, p))
		} else {
			must(os.WriteFile(p, o.data, 0644))
		}
		if s.Mt != 0 {
			at := time.Unix(s.Mt, 0)
			must(os.Chtimes(p, at, at))
		}
	case "dir":
		must(os.Mkdir(p, 0755))
	case "link":
		must(os.Symlink(filepath.Join(r.root, "nowhere"), p))
	}
	r.dirs[r.dirNo][f] = o
	r.emitFS()
}

// silent readers look at the swapper without ever synchronising with anybody (for the race detector).
var silent, _ = strconv.Atoi(os.Getenv("HS_SILENT"))

func look(sw *hotswap.PluginManagerSwapper) (n int) {
	n = int(sw.ReloadCounter())
	if sw.StaticLinkingMode() {
		n++
	}
	pm := sw.Current()
	if pm == nil {
		return n
	}
	for _, p := range pm.Plugins() {
		n += len(p.Name) + len(p.Note) + len(p.Deps) + len(p.File)
		if q := pm.FindPlugin(p.Name); q != nil {
			n += len(q.Name)
		}
	}
	for k := range pm.LiveFuncs {
		n += len(k)
	}
	for k := range pm.LiveTypes {
		n += len(k)
	}
	return n
}

func (r *runner) step(s Step) {
	progress.Add(1)
	switch s.Op {
	case "put":
		if s.B < 0 {
			r.put(s.F, onDisk{"file", []byte("garbage " + strconv.Itoa(s.B)), 0, s.How == "sym"}, s)
		} else {
			r.put(s.F, onDisk{"file", r.blobs[s.B].content(), s.B, s.How == "sym"}, s)
		}
	case "mkdir":
		r.put(s.F, onDisk{"dir", nil, 0, false}, s)
	case "link":
		r.put(s.F, onDisk{"link", nil, 0, false}, s)
	case "rm":
		must(os.RemoveAll(filepath.Join(r.dirPath(r.dirNo), s.F)))
		delete(r.dirs[r.dirNo], s.F)
		r.emitFS()
	case "resetdir":
		r.dirNo = s.N
		p := r.dirPath(s.N)
		if s.N >= 0 && r.dirs[s.N] == nil {
			must(os.MkdirAll(p, 0755))
			r.dirs[s.N] = map[string]onDisk{}
		}
		if s.N == -2 {
			must(os.WriteFile(p, []byte("x"), 0644))
		}
		if s.N == -3 {
			p = ""
		}
		r.dir = p
		r.sw.ResetPluginDir(p)
		r.emitFS()
	case "call":
		cl := r.client(s.Cl)
		if st, _ := r.ctl.stateOf(cl); st == "running" || st == "gated" {
			r.finishAll()
			r.afterCall()
		}
		r.ctl.mu.Lock()
		cl.state = "running"
		r.ctl.mu.Unlock()
		cl.jobs <- s.CallSpec
		st := r.ctl.settle(cl, r.inFlight() <= 1 && !r.timersHeld())
		if st == "done" && r.inFlight() == 0 {
			r.afterCall()
		}
	case "go":
		cl := r.cls[s.Cl]
		if cl == nil {
			return
		}
		for i := 0; i < s.N || i == 0; i++ {
			st, _ := r.ctl.stateOf(cl)
			if st == "running" {
				st = r.ctl.settle(cl, r.inFlight() <= 1 && !r.timersHeld())
			}
			if st != "gated" {
				break
			}
			r.ctl.release(cl)
			r.ctl.settle(cl, r.inFlight() <= 1 && !r.timersHeld())
		}
		r.notePub()
		if st, _ := r.ctl.stateOf(cl); st == "done" && r.inFlight() == 0 {
			r.snapAll()
		}
	case "fin":
		if cl := r.cls[s.Cl]; cl != nil {
			r.finish(cl)
			r.notePub()
			if r.inFlight() == 0 {
				r.snapAll()
			}
		}
	case "finall":
		r.finishAll()
		r.afterCall()
	case "tick":
		if r.mutexBlocked() {
			return
		}
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		synctest.Wait()
		r.settleEvent()
	case "trel":
		r.ctl.releaseTimer()
		if !r.mutexBlocked() {
			synctest.Wait()
		}
	case "read":
		r.emit("read", nil)
	case "snap":
		r.snapAll()
	case "inv":
		pm := r.current()
		r.mu.Lock()
		if s.M != 0 {
			if len(r.pubs) > 0 {
				pm = r.pubs[(s.M-1)%len(r.pubs)]
			}
		}
		r.mu.Unlock()
		r.invokeEach(pm, s.Fwd)
	case "par":
		var wg sync.WaitGroup
		start := make(chan struct{})
		stop := make(chan struct{})
		var rg sync.WaitGroup
		for i := 0; i < s.Readers; i++ {
			rg.Add(1)
			go func(i int) {
				defer rg.Done()
				r.setActor(&actor{name: fmt.Sprintf("r%d", i)})
				defer r.setActor(nil)
				<-start
				var last *hotswap.PluginManager
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					if pm := r.current(); pm != last {
						last = pm
						r.emit("read", nil)
						if n%2 == 0 && pm != nil && r.sc.Mode != "static" {
							r.invokeEach(pm, n%4 == 0)
						}
					}
					runtime.Gosched()
				}
			}(i)
		}
		for i := 0; i < silent; i++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				<-start
				for {
					select {
					case <-stop:
						return
					default:
					}
					look(r.sw)
					runtime.Gosched()
				}
			}()
		}
		for i, l := range s.Par {
			wg.Add(1)
			go func(i int, l []CallSpec) {
				defer wg.Done()
				a := &actor{name: fmt.Sprintf("p%d", i)}
				r.setActor(a)
				defer r.setActor(nil)
				<-start
				for _, cs := range l {
					r.doCall(a, cs)
				}
			}(i, l)
		}
		close(start)
		wg.Wait()
		close(stop)
		rg.Wait()
		r.afterCall()
	default:
		panic("HARNESS: unknown step " + s.Op)
	}
}

// mutexBlocked tells whether some client waits in a way that keeps the virtual clock from moving.
func (r *runner) mutexBlocked() bool {
	r.ctl.mu.Lock()
	defer r.ctl.mu.Unlock()
	for _, cl := range r.cls {
		if cl.state == "running" {
			return true
		}
	}
	return false
}

func runScenario(t *testing.T, sc *Scenario, base string, cur *os.File) []json.RawMessage {
	plugin.VerifReset()
	root := filepath.Join(base, fmt.Sprintf("s%d", time.Now().UnixNano()))
	must(os.MkdirAll(root, 0755))
	defer os.RemoveAll(root)
	openedByPath = map[string]*opened{}
	w := &World{
		sc: sc, t0: time.Now(), log: cur, mgrs: map[*hotswap.PluginManager]int{}, blobs: map[int]*Blob{},
		paths: map[string]int{}, first: map[string]int{}, byBlob: map[int]string{}, actors: map[int64]*actor{},
		inv: map[int64]int{}, vaults: vaultMap{}, active: map[int]*actor{}, done: map[string]int{},
	}
	for i := range sc.Blobs {
		b := &sc.Blobs[i]
		w.blobs[b.ID] = b
	}
	w.ctl = &controller{on: sc.Opts.Gated, timers: sc.Opts.GateTimers, byGoid: map[int64]*client{}}
	r := &runner{World: w, root: root, dirs: map[int]map[string]onDisk{}, cls: map[string]*client{}}
	w.queries = queries(sc)
	must(os.MkdirAll(r.dirPath(0), 0755))
	r.dirs[0] = map[string]onDisk{}
	w.dir = r.dirPath(0)

	opts := []hotswap.Option{hotswap.WithLogger(logger{n: &w.errs})}
	if sc.Opts.Delay != nil {
		opts = append(opts, hotswap.WithFreeDelay(time.Duration(*sc.Opts.Delay)*time.Millisecond))
	}
	if len(sc.Opts.Wl) > 0 {
		opts = append(opts, hotswap.WithWhitelist(sc.Opts.Wl...))
	}
	if sc.Opts.Cb {
		opts = append(opts, hotswap.WithReloadCallback(w.callback(1)))
	}
	if sc.Opts.Ext {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.nExt++
			return &extObj{w.nExt}
		}))
	}
	if sc.Mode == "static" {
		m := map[string]*hotswap.StaticPlugin{}
		for _, s := range sc.Statics {
			o := &opened{w: w, blob: w.blobs[s.B], static: true}
			if staticReal != nil {
				m[s.K] = staticReal(s, o)
				continue
			}
			m[s.K] = &hotswap.StaticPlugin{Name: s.N, PluginFuncs: o.staticFuncs()}
		}
		opts = append(opts, hotswap.WithStaticPlugins(m))
	}
	w.sw = hotswap.NewPluginManagerSwapper(w.dir, opts...)
	plugin.VerifOpen = w.open
	if setupReal != nil {
		setupReal(w)
	}
	rootActor := &actor{name: "root"}
	w.setActor(rootActor)

	for _, s := range sc.Steps {
		r.step(s)
	}
	r.finishAll()
	r.afterCall()
	// let everything expire
	r.ctl.mu.Lock()
	r.ctl.on = false
	r.ctl.mu.Unlock()
	for r.ctl.releaseTimer() {
	}
	delay := int64(300000)
	if sc.Opts.Delay != nil {
		delay = *sc.Opts.Delay
		if delay < 15000 {
			delay = 15000
		}
	}
	if delay < 3600000 {
		time.Sleep(time.Duration(delay+1500) * time.Millisecond)
		synctest.Wait()
		r.settleEvent()
		r.invokeEach(r.current(), true)
		r.snapAll()
	}
	for _, c := range w.copies {
		_ = c.f.Close()
	}
	for _, n := range r.order {
		close(r.cls[n].jobs)
	}
	r.wg.Wait()
	w.emit("end", M{"cnt": w.sw.ReloadCounter()})
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.evs
}

func queries(sc *Scenario) []string {
	set := map[string]bool{}
	for _, b := range sc.Blobs {
		if b.N == "" {
			continue
		}
		set[strings.ToLower(b.N)] = true
		set[strings.ToUpper(b.N)] = true
		set[b.N] = true
		set[b.N+"x"] = true
		set[strings.ToLower(b.N[:len(b.N)-1])] = true
		set[b.N+".so"] = true
		set["x/"+b.N] = true
		set["./"+b.N+".so"] = true
		set[" "+b.N] = true
	}
	var a []string
	for k := range set {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}

func TestRun(t *testing.T) {
	in, out := os.Getenv("HS_SCEN"), os.Getenv("HS_OUT")
	if in == "" {
		t.Skip("HS_SCEN is not set")
	}
	from, _ := strconv.Atoi(os.Getenv("HS_FROM"))
	f, err := os.Open(in)
	must(err)
	defer f.Close()
	of, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	must(err)
	ob := bufio.NewWriterSize(of, 1<<20)
	base := os.Getenv("HS_TMP")
	cur, err := os.OpenFile(out+".cur", os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	must(err)
	limit := 12 * time.Second
	if s := os.Getenv("HS_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	var running atomic.Bool
	go func() {
		last, since := progress.Load(), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last || !running.Load() {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				_ = os.WriteFile(out+".stacks", buf, 0644)
				fmt.Fprintf(cur, `{"e":"hung","in":%q,"g":"root","c":0,"cur":-1,"t":-1}`+"\n",
					map[bool]string{true: "current", false: "call"}[inCurrent.Load() > 0])
				_ = cur.Sync()
				os.Exit(3)
			}
		}
	}()
	sn := bufio.NewScanner(f)
	sn.Buffer(make([]byte, 1<<20), 1<<26)
	for n := 0; sn.Scan(); n++ {
		if n < from {
			continue
		}
		if n > from && setupReal != nil {
			break // real plugins cannot be unloaded
		}
		var sc Scenario
		must(json.Unmarshal(sn.Bytes(), &sc))
		must(cur.Truncate(0))
		_, err := cur.Seek(0, 0)
		must(err)
		fmt.Fprintf(cur, `{"n":%d,"id":%q}`+"\n", n, sc.ID)
		var evs []json.RawMessage
		running.Store(true)
		synctest.Test(t, func(t *testing.T) {
			evs = runScenario(t, &sc, base, cur)
		})
		running.Store(false)
		if t.Failed() {
			t.FailNow()
		}
		line, err := json.Marshal(M{"id": sc.ID, "n": n, "hdr": sc.Hdr, "ev": evs})
		must(err)
		_, _ = ob.Write(append(line, '\n'))
		must(ob.Flush())
	}
	must(sn.Err())
	must(of.Close())
	_ = os.Remove(out + ".cur")
}
