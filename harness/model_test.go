package harness

import (
	"encoding/json"
)

// Imp is one field of the struct returned by Import().
type Imp struct {
	F string `json:"f"` // field name
	D string `json:"d"` // key (lower-case name) of the plugin it names
	K string `json:"k"` // any, iface: assignable; ptr, val: if the export is one; bad, int, conv: not assignable; skip: tagged "-"; skipbad; unexp; anon; anonskip
}

// Blob describes the content of one plugin file: how the plugin behaves.
type Blob struct {
	ID    int               `json:"id"`
	N     string            `json:"n"`
	Rel   bool              `json:"rel"`
	Exp   string            `json:"exp"`  // obj, val, zero, nil, tnil, tnilm, tnilf
	Impk  string            `json:"impk"` // nil, tnil, struct, nonptr, ptrint
	Imps  []Imp             `json:"imps"`
	Lf    []string          `json:"lf"`
	Lt    []string          `json:"lt"`
	Lfk   string            `json:"lfk"` // ok, nil, panic
	Ltk   string            `json:"ltk"`
	Miss  []string          `json:"miss"`
	Mist  []string          `json:"mist"`
	Mistk string            `json:"mistk"` // sig, var, ptrsig
	Fvar  []string          `json:"fvar"`  // given as function variables (valid)
	Fault map[string]string `json:"fault"` // stage -> ok, err, panic; "err!2": the first two times only
	Open  string            `json:"open"`  // ok, err, panic; "err!2"
	Pool  int               `json:"pool"`  // a real plugin: its number in the pool
	Shape string            `json:"shape"` // what the file looks like: "", const, front, mid, end
}

type Static struct {
	K string `json:"k"` // map key
	N string `json:"n"` // Name
	B int    `json:"b"`
}

type Opts struct {
	Delay      *int64   `json:"delay"` // ms; nil: default
	Wl         []string `json:"wl"`
	Cb         bool     `json:"cb"`
	Ext        bool     `json:"ext"`
	Gated      bool     `json:"gated"`
	GateTimers bool     `json:"gateTimers"`
	Once       bool     `json:"once"` // each content can be opened from one path only, as with real Go plugins
}

type CallSpec struct {
	Op  string `json:"k"`   // load, reload, reloadx
	Cfg string `json:"cfg"` // what the configured callback does: ok, err, panic
	X   string `json:"x"`   // what the extra callback does
}

type Step struct {
	Op  string `json:"op"`
	F   string `json:"f"`
	B   int    `json:"b"`
	Cl  string `json:"cl"`
	N   int    `json:"n"`
	Ms  int64  `json:"ms"`
	M   int    `json:"m"`
	How string `json:"how"` // how a file is written: over (itself), new (renamed into place), sym (a link to a file elsewhere)
	Mt  int64  `json:"mt"`  // its time of modification (s, 0: as it comes)
	Fwd bool   `json:"fwd"`
	CallSpec
	Par     [][]CallSpec `json:"par"`
	Readers int          `json:"readers"`
}

type Scenario struct {
	ID      string          `json:"id"`
	Mode    string          `json:"mode"` // dyn, static
	Opts    Opts            `json:"opts"`
	Statics []Static        `json:"statics"`
	Blobs   []Blob          `json:"blobs"`
	Steps   []Step          `json:"steps"`
	Hdr     json.RawMessage `json:"hdr"` // passed through to the trace
}

var requiredFuncs = []string{
	"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable",
	"HotswapLiveFuncs", "HotswapLiveTypes",
}
