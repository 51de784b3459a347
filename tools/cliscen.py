"""Scenarios for the command line tool."""
import itertools, os, random, shutil, time
from cli import F, Raw, Plugin, World, base_plugin, REQUIRED, sub as _sub


class Scn:
    def __init__(self, id, fn, static=False, tags=()):
        self.id, self.fn, self.static, self.tags = id, fn, static, set(tags)

    @property
    def alone(self):
        """Depends on time: not to be run while others are."""
        return getattr(self.fn, "alone", False)

    def run(self, w):
        self.fn(w)


ALL = []


def scn(*tags, static=False):
    def d(fn):
        ALL.append(Scn(fn.__name__, fn, static, tags))
        return fn
    return d


def one(w, files=(), name="foo", build=True, req=REQUIRED, split=False, pkg=None, **kw):
    p = Plugin(name, pkg=pkg, static=w.static)
    w.source(p, base_plugin(p, req, split) + list(files))
    if build:
        w.dyn(p, **kw)
        w.load()
    return p


def S(path, *decls, **kw):
    return F(path, decls=[("anchor", "Anchor")] * (not kw.pop("noanchor", False)) + list(decls), **kw)


fn, st, gr, ns = "func", "struct", "group", "nonstruct"

# ---------------------------------------------------------------------------------------------------- C21


@scn("C21")
def live_everywhere(w):
    one(w, [S("live.go", (fn, "live_Root"), (st, "live_RootT"), ("method", "live_Method"), ("var", "live_Var"), ("const", "live_Const"),
              ("local", "live_Local"), (gr, "live_Grouped"), pkg="foo"),
            S("a/a.go", (fn, "live_A"), (fn, "Live_A"), (fn, "LIVE_A"), (st, "lIvE_T"), (fn, "alive_x"), (fn, "live"), (fn, "liveX"), (fn, "xlive_")),
            S("a/b/b.go", (st, "live_OnlyType")), S("a/b/b2.go", (fn, "live_second"), noanchor=True),
            S("a/b/c/d/e.go", (fn, "live_deep")),
            S("notlive/n.go", (fn, "other"), (st, "Other"), (ns, "Plain"), ("method", "live_A")),
            S("a/a_test.go", (fn, "live_Test"), (ns, "live_TestT"), noanchor=True),
            S("t/only_test.go", (fn, "live_OnlyTest")),
            S("testdata/x/x.go", (fn, "live_Testdata")), S("_hid/h.go", (fn, "live_Hidden")), S(".dot/h.go", (fn, "live_Dot")),
            S("a/_skip.go", (fn, "live_Skip"), pkg="a"), S("a/.skip.go", (fn, "live_Skip2"), pkg="a"),
            S("a/os_windows.go", (fn, "live_Windows"), cond=("off", ""), noanchor=True), S("a/ign.go", (fn, "live_Off"), cond=("off", ""), noanchor=True),
            S("b/b.go", (fn, "b_live_"), (fn, "live_"), (st, "LIVE_")),
            ])


KINDS = [S("live.go", ("alias", "live_RootAlias"), ("empty", "live_RootEmpty"), ("embed", "Live_RootEmb"), ("funcsig", "live_Root"), ("funcsig", "live_Root1"), pkg="foo"),
         S("a/a.go", ("alias", "live_Alias"), ("empty", "live_Empty"), ("embed", "live_Emb"), *[("funcsig", "live_S" + "s" * n) for n in range(4)]),
         S("internal/x.go", (fn, "live_Internal"), (st, "live_InternalT")), S("internal/z/y.go", ("empty", "live_Int2")), S("internal/z/w/y.go", ("funcsig", "live_Int3")),
         S("gen/g.go", (fn, "live_Generated"), (st, "live_GeneratedT"), top="// Code generated by a tool. DO NOT EDIT.\n"),
         S("doc/d.go", (fn, "live_Doc"), top="// Package doc is documented.\n//\n// Deprecated: no.\n"),
         S("cmd/c.go", (fn, "live_Cmd")), S("vend/v.go", (st, "live_V")), S("main_/m.go", (fn, "live_M")), S("foo/foo.go", (fn, "live_Foo"), (st, "live_FooT"))]


@scn("C21")
def live_kinds(w):
    one(w, KINDS)


@scn("C21", "C22", static=True)
def static_kinds(w):
    ps = sp(w, ["foo", "bar"])
    w.source(ps[0], base_plugin(ps[0]) + KINDS)
    w.sta(ps[0])
    w.sta(ps[1])
    w.drive()


@scn("C21")
def live_prefixes(w):
    p = one(w, build=False, files=[
        S("x.go", (fn, "HotStart"), (fn, "hotstop"), (st, "HOTType"), (fn, "live_no"), (fn, "xHot"), pkg="foo"),
        S("s/x.go", (fn, "Éclair"), (fn, "éclat"), (st, "ÉCOLE"), (fn, "eclair"), (fn, "H"), (fn, "h"), (st, "Ho"), (fn, "OnX"), (st, "onY")),
    ])
    for pre in ("Hot", "h", "É", "é", "On", "ON", "live_NO", "nothing_", "HOTTYPE"):
        w.dyn(p, prefix=pre)
    w.load()


@scn("C21")
def live_duplicates(w):
    p = Plugin("foo")
    w.plugins["foo"] = p
    variants = [
        [S("a/a.go", (fn, "live_X")), S("b/b.go", (fn, "live_X"))],
        [S("a/a.go", (fn, "live_X")), S("b/b.go", (st, "live_X"))],
        [S("a/a.go", (st, "live_X")), S("b/b.go", (fn, "live_X"))],
        [S("a/a.go", (st, "live_X")), S("b/c/d/b.go", (gr, "live_X"))],
        [S("r.go", (fn, "live_X"), pkg="foo"), S("b/b.go", (fn, "live_X"))],
        [S("r.go", (st, "live_X"), pkg="foo"), S("b/b.go", (st, "live_Y")), S("c/b.go", (st, "live_X"))],
        [S("a/a.go", (fn, "live_X")), S("b/b.go", (fn, "live_x")), S("c/b.go", (fn, "Live_X"))],           # different names
        [S("a/a.go", (fn, "live_X")), S("b/b.go", ("method", "live_X"), ("var", "live_X"))],                # not live
        [S("a/a.go", (fn, "live_X")), S("b/b.go", (fn, "live_Z")), S("b/b_test.go", (fn, "live_X"), noanchor=True)],
        [S("a/a.go", (fn, "live_X")), S("b/b.go", (fn, "live_Z")), S("b/off.go", (fn, "live_X"), cond=("off", ""), noanchor=True)],
        [S("a/a.go", (fn, "live_X")), S("testdata/b.go", (fn, "live_X")), S("_b/b.go", (fn, "live_X"))],
        [S("a/l.go", (fn, "live_X"), noanchor=True), S("a/w_windows.go", (fn, "live_X"), cond=("off", ""))],
    ]
    for v in variants:
        w.source(p, base_plugin(p) + v)
        w.dyn(p)
    w.load()


@scn("C21")
def live_types(w):
    p = Plugin("foo")
    w.plugins["foo"] = p
    variants = [[S("a/a.go", (ns, "live_" + "T" * n))] for n in range(1, 7)]
    variants += [
        [S("r.go", (ns, "Live_T"), pkg="foo")],
        [S("a/a.go", (st, "live_S"), (ns, "T_live_"), (ns, "liv"))],
        [S("a/a.go", (st, "live_S")), S("b/b.go", (st, "live_S2"), (gr, "LIVE_S3")), S("b/b_test.go", (ns, "live_TT"), noanchor=True)],
        [S("a/a.go", (st, "live_S"), ("local", "live_L")), S("b/off.go", (ns, "live_TT"), cond=("off", "")), S("b/on.go", noanchor=True)],
        [S("a/b/c/a.go", (st, "live_S"), (ns, "live_N"))],
        [S("t/t.go", (st, "live_OnlyStruct"))],
    ]
    for v in variants:
        w.source(p, base_plugin(p) + v)
        w.dyn(p)
    w.load()


@scn("C21", "C26")
def build_tags(w):
    fs = [S("a/a.go", (fn, "live_A")), S("a/on.go", (fn, "live_On"), cond=("+", "extra"), noanchor=True),
          S("a/off.go", (fn, "live_Off"), cond=("-", "extra"), noanchor=True),
          S("b/on.go", (fn, "live_B"), cond=("+", "extra")), S("b/t.go", (ns, "live_N"), cond=("+", "bad"), noanchor=True), S("b/b.go", noanchor=True)]
    p = one(w, fs)
    w.dyn(p, tags=["extra"])
    w.dyn(p, tags=["bad"])
    w.dyn(p, tags=["unrelated"])
    w.load()


@scn("C26")
def required_constrained(w):
    """Required functions declared in files the compiler does not see."""
    p = Plugin("foo")
    w.source(p, base_plugin(p, [r for r in REQUIRED if r != "Export"]) + [F("win.go", "foo", decls=[("req", "Export")], cond=("off", ""))])
    w.dyn(p)
    w.source(p, base_plugin(p, [r for r in REQUIRED if r != "Export"]) + [F("_ign.go", "foo", decls=[("req", "Export")])])
    w.dyn(p)
    w.source(p, base_plugin(p, [r for r in REQUIRED if r != "Export"]) + [F("tag.go", "foo", decls=[("req", "Export")], cond=("+", "extra"))])
    w.dyn(p)
    w.dyn(p, tags=["extra"])
    w.load()


# ---------------------------------------------------------------------------------------------------- C23

ANY = [dict(k="all", s="")]


def pat(k, s):
    return dict(k=k, s=s)


TREE = [
    Raw("data.txt", "root data\n"), Raw("README.md", "readme"), Raw("noext", "x"), Raw("sub/data.txt", "sub data"), Raw("sub/deep/er/conf.json", "{}"),
    Raw("sub/conf.yaml", "a: b"), Raw("sub/x.go.txt", "package x"), Raw("sub/xgo", "package x"), Raw("assets/logo.png", "\0\1\2"),
    Raw(".env", "E=1"), Raw("testdata/in.txt", "in"), Raw("sub/Makefile", "all:"), Raw("sub/data_test.txt", "t"), Raw("txt/only.md", "m"),
    F("sub/sub.go", decls=[("anchor", "Anchor")]), F("sub/sub_test.go", "sub", decls=[(fn, "helper")]), F("sub/deep/deep.go", decls=[("anchor", "Anchor")]),
    F("sub/ext_test.go", "sub_test", decls=[(fn, "ext")]), F("sub/test.go", "sub", decls=[(fn, "notATest")]), F("sub/x_tests.go", "sub", decls=[(fn, "notATest2")]),
    F("testdata/prog/main.go", "main", decls=[(fn, "prog")]), F("_old/old.go", "old", decls=[(fn, "old")]), F(".hid/hid.go", "hid", decls=[(fn, "hid")]),
    F("sub/_ignored.go", "sub", decls=[(fn, "ign")]), F("sub/w_windows.go", "sub", decls=[(fn, "win")], cond=("off", "")),
    F("gen/off.go", "gen", decls=[(fn, "off")], cond=("off", "")), F("gen/on.go", "gen", decls=[("anchor", "Anchor")]),
    F("sub/txt.go", "sub", decls=[(fn, "txt")]),
]


@scn("C23")
def selection(w):
    p = one(w, TREE, split=True)
    for inc, exc in [
        (ANY, []), ([], ANY), ([pat("suffix", ".txt")], []), ([pat("suffix", ".txt")], [pat("prefix", "data")]), (ANY, [pat("suffix", ".md")]),
        ([pat("exact", "data.txt")], []), ([pat("sub", "o")], [pat("exact", "noext"), pat("suffix", "son")]),
        ([pat("suffix", ".json"), pat("prefix", ".")], []), (ANY, ANY), ([pat("sub", "sub")], []), ([pat("suffix", ".go")], []), (ANY, [pat("suffix", ".go")]),
        ([pat("sub", "_test")], []), ([pat("prefix", "deep")], []), ([pat("suffix", "go")], []),
    ]:
        w.dyn(p, inc=inc, exc=exc, gobuild=False)
    w.dyn(p, inc=[pat("suffix", ".txt")], exc=[pat("sub", "_test")])
    w.dyn(p, inc=ANY, leave=True)
    w.load()


@scn("C23")
def embedding(w):
    p = Plugin("foo")
    w.source(p, base_plugin(p) + [
        F("emb.go", "foo", extra='import _ "embed"\n\n//go:embed conf/a.txt\nvar a string\n'),
        F("sub/emb.go", extra='import "embed"\n\n//go:embed data\nvar FS embed.FS\n'),
        Raw("conf/a.txt", "A"), Raw("sub/data/x.bin", "\0\xff"), Raw("sub/data/y.txt", "Y")])
    w.dyn(p, inc=[pat("suffix", ".txt"), pat("suffix", ".bin")])
    w.dyn(p, inc=ANY, exc=[pat("exact", "nothing")])
    w.load()


DECEIVING = '''
const tpl = `
package bar

import "@OWN@/sub"
package   baz
`

const own, ownSub, ownRaw = "@OWN@", "@OWN@/sub", `@OWN@/x`

/*
package qux
import "@OWN@"
*/

// package quux "@OWN@"
var r, q = '"', '\\''
'''


@scn("C23", "C24")
def contents(w):
    """Text that looks like a package clause or an import path."""
    one(w, [
        F("text.go", "foo", imps=[("@OWN@/sub", "_", '"')], extra=DECEIVING),
        F("doc.go", "foo", top="/*\npackage foo is documented here.\n\npackage bar too, \"@OWN@/sub\"\n*/", extra="// package foo\n"),
        F("crlf.go", "foo", extra="// one\r\n// two\r\nvar crlf = `a\r\nb`\r\n"),
        F("sub/text.go", "sub", imps=[("@OWN@/sub/x", "_", "`")], extra=DECEIVING),
        F("sub/x/x.go", "x", extra=DECEIVING),
    ])


@scn("C23", "C24")
def unusual_clauses(w):
    class T(F):
        def __init__(self, path, txt, **kw):
            super().__init__(path, **kw)
            self.txt = txt

        def text(self, plugin):
            return self.txt
    one(w, [
        T("a1.go", "package foo; import _ \"@OWN@/sub\"; var a1 = 1\n", pkg="foo"),
        T("a2.go", "// c\n  package /* name */ foo // tail\nimport (\n\t_ \"@OWN@/sub\"; _ `@OWN@/sub/x`\n\t. \"@OWN@/sub/y\" // \"@OWN@/sub\"\n)\nvar _ = Y\n", pkg="foo"),
        T("a3.go", "\ufeffpackage foo\n\nvar a3 = 1\n", pkg="foo"),
        T("a4.go", "package\tfoo//x\nimport(_\"@OWN@/sub\")\nimport()\nimport _\"os\"\n", pkg="foo"),
        T("a5.go", "package\nfoo\n\nimport s \"@OWN@/sub\"\n\nvar a5 = s.Anchor\n", pkg="foo"),
        S("sub/sub.go"), S("sub/x/x.go"), F("sub/y/y.go", extra="var Y = 1\n"),
        T("sub/package.go", "package sub; import \"@OWN@/sub/x\"\nvar _ = x.Anchor; var pkg = `\npackage main`\n", pkg="sub"),
    ])


@scn("C23")
def odd_contents(w):
    r = random.Random(7)
    big = bytes(r.randrange(256) for _ in range(70001))
    p = one(w, build=False, files=[
        Raw("empty.txt", b""), Raw("sub/empty.dat", b""), Raw("newline.txt", b"\n"), Raw("nonl.txt", b"no newline at the end"),
        Raw("crlf.txt", b"a\r\nb\r\n"), Raw("nul.bin", b"\0\0\0"), Raw("utf16.txt", "package x".encode("utf-16")), Raw("latin.txt", b"\xe9\xff\xfe"),
        Raw("big.bin", big), Raw("bigger.bin", big * 40), Raw("sixtyfour.bin", big[:65536]), Raw("four.bin", big[:4096]), Raw("thirtytwo.bin", big[:32768]),
        Raw("looks.txt", "package foo\n\nimport \"@OWN@/sub\"\n"), Raw("sub/looks.tmpl", "package foo\n\nimport \"@OWN@\"\n"),
        S("sub/sub.go"), F("sub/big.go", extra="// " + "x" * 300000 + "\nvar big = 1\n" + "// line\n" * 20000 + "var Last = 2"),
        F("sub/nonl.go", extra="var nonl = 1 //"), F("root_nonl.go", "foo", extra="/* tail */"),
        Raw("testdata/empty.go", b""), Raw("testdata/broken.go", b"package x\nfunc {"), Raw("testdata/tpl.go", b"package {{.Name}}\n\nimport {{.X}}\n"),
        Raw("_tpl/t.go", b"// nothing"), Raw("testdata/bin.go", big[:5000]),
        Raw("with space.txt", "s"), Raw("sub dir/-dash.txt", "d"), Raw("sub dir/%d {{.}} 'q'.txt", "p"), Raw("é/ü.txt", "u"), Raw("sub/日本.txt", "j"),
        Raw("UPPER.TXT", "U"), Raw("sub/CODE.GO", "package nothing"), Raw("sub/X_TEST.GO", "x"), Raw("dir.go/in.txt", "in"), Raw("dir_test.go/in.txt", "in"),
        F("dir_test.go/in.go", "dirtest"), Raw("a.txt.bak", "x"), Raw("..data/x.txt", "x"), Raw("deep/" * 25 + "x.txt", "deep"), Raw("sub/.go", b"package hid\n"),
        Raw("link.txt", link="looks.txt"), Raw("sub/linked.bin", link="../big.bin"), Raw("sub/hotswap.live.go.txt", "mine"), Raw("sub/myhotswap.main.go", "package sub\n"),
    ])
    w.dyn(p, inc=ANY, gobuild=False)
    w.dyn(p, inc=[pat("suffix", ".txt")], gobuild=False)
    w.dyn(p, inc=[pat("suffix", ".GO"), pat("suffix", ".bin")], exc=[pat("prefix", "X")])
    w.dyn(p, inc=ANY, exc=[pat("sub", " "), pat("prefix", "empty")], leave=True)
    w.dyn(p)
    w.load()


@scn("C23")
def many_files(w):
    p = one(w, build=False, files=[Raw(f"d{i % 37}/e{i % 11}/f{i}.txt", f"{i}\n" * (i % 50)) for i in range(1500)] + [F(f"d{i}/g.go", f"d{i}", decls=[("anchor", "Anchor")]) for i in range(37)])
    w.dyn(p, inc=ANY, gobuild=False)
    w.dyn(p, inc=[pat("suffix", "7.txt")])
    w.load()


# ---------------------------------------------------------------------------------------------------- C24


@scn("C24")
def imports(w):
    p = Plugin("foo")
    near = ["foox", "foo-bar", "foo.v2", "fo", "Foo2"]
    for n in near:
        w.write(f"plug/{n}/n.go", "package n\n\nvar Anchor int\n")
        w.write(f"plug/{n}/sub/n.go", "package sub\n\nvar Anchor int\n")
    w.write("plug/n.go", "package plug\n\nvar Anchor int\n")
    w.write("other/plug/foo/n.go", "package foo\n\nvar Anchor int\n")
    w.write("other/plug/foo/sub/n.go", "package sub\n\nvar Anchor int\n")
    imps = [("@MOD@/plug/" + n, f"n{i}", '"`'[i % 2]) for i, n in enumerate(near)] + [("@MOD@/plug/" + n + "/sub", f"m{i}", '"`'[i % 2]) for i, n in enumerate(near)]
    imps += [("@MOD@/plug", "", '"'), ("@MOD@/other/plug/foo", "ofoo", '"'), ("@MOD@/other/plug/foo/sub", "_", "`"), ("os", "_", '"'), ("path/filepath", "_", "`")]
    mine = [("@OWN@/sub", "s1", '"'), ("@OWN@/sub", "s2", "`"), ("@OWN@/sub/foo", "_", '"'), ("@OWN@/foo", ".", "`"), ("@OWN@/sub/deep/er", "", '"'),
            ("@OWN@/internal/x", "ix", '"'), ("@OWN@/s-u.b", "sub3", "`")]
    w.source(p, base_plugin(p) + [
        F("i1.go", "foo", imps=imps), F("i2.go", "foo", imps=mine, extra="var _ = FooAnchor"),
        F("sub/sub.go", imps=imps[:6] + [("@OWN@/sub/deep/er", "", "`")], decls=[("anchor", "Anchor"), (fn, "live_sub")]),
        S("sub/foo/f.go", (st, "live_T")), F("foo/f.go", extra="var FooAnchor int\n"), S("sub/deep/er/er.go", (fn, "live_er")),
        S("internal/x/x.go"), S("s-u.b/x.go", pkg="sub3"),
        F("foo/x_test.go", "foo", imps=[("@OWN@/sub", "_", '"')]),
    ])
    w.dyn(p, gobuild=False)
    w.dyn(p, relative=False)
    w.dyn(p, cwd=os.path.join(w.mod, p.rel()))
    w.load()


STATE = "package sub\n\nvar N int\n"


@scn("C24")
def versions(w):
    """Several versions of one plugin in one process, from different times, commits and sources."""
    p = Plugin("foo")

    def src(extra):
        fs = base_plugin(p)
        fs[0].imps = [("@OWN@/sub", "", '"'), ("@OWN@/sub/state", "", "`")]
        fs[0].extra = 'func invoke(name string) interface{} {\n\tif name != "inc" {\n\t\treturn nil\n\t}\n\tcount++\n\tif m := sub.Inc(); m != count {\n\t\treturn -m\n\t}\n\treturn count\n}\n\nvar count int\n\nvar _ = state.Anchor\n'
        return fs + [F("sub/sub.go", imps=[("@OWN@/sub/state", "", '"')], extra="func Inc() int { state.N++; return state.N }\n", decls=[("anchor", "Anchor"), (fn, "live_Same")]),
                     F("sub/state/s.go", extra="var N int\n", decls=[("anchor", "Anchor"), (st, "live_" + extra)])]
    w.autocommit = False
    w.source(p, src("A"))
    w.dyn(p)
    w.commit()
    w.dyn(p)           # another commit
    time.sleep(1.1)
    w.dyn(p)           # another time
    time.sleep(1.1)
    w.source(p, src("B"))
    w.dyn(p)           # other sources
    w.commit()
    w.source(p, src("C"))
    w.dyn(p)
    w.load(side=[1, 2, 3, 4, 5, 1, 1, 3, 5, 5, 5, 2])


@scn("C24")
def clock_of_a_month(w):
    """Builds of one commit at times that look alike when only a part of them is written down."""
    w.autocommit = False
    p = one(w, build=False)
    q = Plugin("fo", "plug")
    w.source(q, base_plugin(q))
    t = 1705712523      # 2024-01-20 01:02:03 UTC
    for d in (0, 1, 60, 3600, 12 * 3600, 24 * 3600, 2 * 24 * 3600, 7 * 24 * 3600, 10 * 24 * 3600, 12 * 24 * 3600, 20 * 24 * 3600, 27 * 24 * 3600):
        w.dyn(p, gobuild=False, clock=t + d)
    w.dyn(q, gobuild=False, clock=t)
    w.commit()
    w.dyn(p, gobuild=False, clock=t)


@scn("C24")
def clock_set_back(w):
    """The hour that comes twice when daylight saving time ends."""
    w.autocommit = False
    w.env["TZ"] = "America/New_York"
    p = one(w, build=False)
    t = 1730611800      # 2024-11-03 01:30:00 EDT, an hour before 01:30:00 EST
    for d in (0, 3600, 7200, 24 * 3600):
        w.dyn(p, gobuild=False, clock=t + d)


@scn("C24")
def names_in_time(w):
    """Builds of one commit at different times, whatever became of the earlier ones."""
    p, q = Plugin("foo"), Plugin("bar")
    w.autocommit = False
    w.source(q, base_plugin(q))
    w.source(p, base_plugin(p) + [F("bad.go", "foo", broken=True)])
    w.dyn(p, fault="compile error")
    time.sleep(1.1)
    w.source(p, base_plugin(p))
    for kw in (dict(gobuild=False), dict(), dict(leave=True), dict(outdir=w.dout + "/x"), dict(gobuild=False, verbose=True), dict(outdir=w.dout + "/x"), dict(gobuild=False)):
        if "outdir" in kw:
            w.dyn(q)
        else:
            w.dyn(p, **kw)
        time.sleep(1.1)


MOMENTS = ["git.1", "git.2", "go-list.1", "go-list.2", "go-build.1", "late.go-build.1"]


def overlapped(seed, no):
    def f(w):
        """Builds of the same and of other plugins while a build stands still."""
        r = random.Random("over/" + seed)
        names = r.sample(["foo", "foo2", "foo-x", "Foo", "oo", "bar"], 3)
        w.autocommit = False
        ps = []
        for n in names:
            p = Plugin(n, pkg="foo")
            fs = base_plugin(p)
            fs[0].imps = [("@OWN@/sub", "", '"')]
            fs[0].extra = 'func invoke(name string) interface{} {\n\tif name != "inc" {\n\t\treturn nil\n\t}\n\treturn sub.Inc()\n}\n'
            w.source(p, fs + [F("sub/sub.go", extra="var N int\n\nfunc Inc() int { N++; return N }\n", decls=[("anchor", "Anchor"), (fn, "live_Same"), (st, f"live_{n.replace('-', '_')}")])])
            ps.append(p)
        bad = dict(fault="build", fail="go-build")

        def inner():
            for i in range(r.choice([1, 1, 2])):
                if i:
                    time.sleep(1.1)
                if r.random() < 0.3:
                    w.commit()
                q = ps[0] if r.random() < 0.7 else r.choice(ps[1:])
                w2 = w.beside()
                w2.dyn(q, **r.choice([dict(), dict(), dict(), dict(leave=True), dict(gobuild=False), bad, dict(relative=False)]))
        for n in range(2):
            w.dyn(ps[0], pause=MOMENTS[(no + n * 3) % 6], plan=[1.1, inner, "resume"], **r.choice([dict(), dict(), dict(leave=True), dict(relative=False)]))
            time.sleep(1.1)
        made = [i + 1 for i, b in enumerate(w.builds) if "so" in b]
        w.load(side=[r.choice(made) for _ in range(8)] if len({tuple(w.builds[i - 1]["tmp"]) for i in made}) == len(made) else [])
    f.__name__ = "overlapped"
    return f


@scn("C24")
def names_of_commits(w):
    """Builds from different commits of the same second in the same second."""
    from cli import World
    date = "2026-01-01T00:00:00Z"
    ws = [World(f"{w.id}-{i}", path=w.path, date=date) for i in range(4)]
    try:
        p = Plugin("foo")
        w.source(p, base_plugin(p))
        for i, x in enumerate(ws):
            x.autocommit = False
            x.source(Plugin("foo"), base_plugin(p))
            x.commit(i + 1)
        from concurrent.futures import ThreadPoolExecutor
        for _ in range(2):
            time.sleep(1.05 - time.time() % 1)
            with ThreadPoolExecutor(4) as ex:
                for e in ex.map(lambda x: x.dyn(x.plugins["foo"], gobuild=False), ws):
                    w.builds.append(e)
                    w.ev.append(e)
            time.sleep(1.1)
    finally:
        for x in ws:
            x.close()


@scn("C24")
def names_of_plugins(w):
    """Builds of different plugins from one commit in the same second."""
    from cli import World
    date = "2026-01-01T00:00:00Z"
    names = ["foundation1", "foundation2", "a-foundation1", "Foundation1", "foundation1-x", "foundation-with-a-very-long-name-1", "foundation-with-a-very-long-name-2", "f"]
    ws = [World(f"{w.id}-{i}", path=w.path, date=date) for i in range(len(names))]
    try:
        for n in names:
            w.source(Plugin(n, pkg="foo"), base_plugin(Plugin(n, pkg="foo")))
        for x in ws:
            x.autocommit = False
            for n in names:
                x.source(Plugin(n, pkg="foo"), base_plugin(Plugin(n, pkg="foo")))
            x.commit(1)
        from concurrent.futures import ThreadPoolExecutor
        for _ in range(3):
            time.sleep(1.05 - time.time() % 1)
            with ThreadPoolExecutor(len(ws)) as ex:
                for e in ex.map(lambda i: ws[i].dyn(ws[i].plugins[names[i]], gobuild=False), range(len(ws))):
                    w.builds.append(e)
                    w.ev.append(e)
    finally:
        for x in ws:
            x.close()


names_of_plugins.alone = True


@scn("C23", "C24", "C25")
def left_overs(w):
    """What a build leaves behind is there when the same plugin is built again in the same second."""
    p = Plugin("foo")
    w.autocommit = False
    files = [S("sub/s.go", (fn, "live_S")), Raw("d/data.txt", "d")]
    inc = dict(inc=[dict(k="suffix", s=".txt")])
    for n in range(6):
        w.source(p, base_plugin(p) + files + [S("sub/gone.go", (fn, "live_Gone"), noanchor=True), S("away/x.go", (fn, "live_Away")), Raw("d/gone.txt", "g")])
        time.sleep(1.02 - time.time() % 1)
        a = w.dyn(p, gobuild=False, stay=True, **inc)
        w.source(p, base_plugin(p) + files)
        b = w.dyn(p, gobuild=False, stay=n > 2, **inc)
        if a["tmp"] == b["tmp"]:
            break


left_overs.alone = True


# ---------------------------------------------------------------------------------------------------- C25

GOOD = [S("a/a.go", (fn, "live_A")), S("a/b/b.go", (st, "live_T")), S("c/c.go"), Raw("x.txt", "x")]


def old(w, p):
    """A plugin file that is already there, and other files."""
    w.dyn(p)


@scn("C25")
def failing_sources(w):
    p = Plugin("foo")
    w.outfiles({"other.so": "not really", "notes.txt": "n"})
    w.source(p, base_plugin(p) + GOOD)
    w.dyn(p)
    for fault, files in [
        ("compile error", base_plugin(p) + GOOD + [F("bad.go", "foo", broken=True)]),
        ("compile error in a sub-package", base_plugin(p) + GOOD + [F("a/bad.go", "a", broken=True, imps=[])]),
        ("compile error in the root", base_plugin(p) + GOOD + [F("bad.go", "foo", extra="func f() { return 1 }")]),
        ("syntax error", base_plugin(p) + GOOD + [F("a/bad.go", "a", extra="func {")]),
        ("unknown import", base_plugin(p) + GOOD + [F("a/bad.go", "a", imps=[("@MOD@/nowhere", "_", '"')])]),
        ("two packages", base_plugin(p) + GOOD + [F("a/bad.go", "zz"), F("bad.go", "foo", imps=[("@OWN@/a", "_", '"')])]),
        ("import cycle", base_plugin(p) + GOOD + [F("a/i.go", "a", imps=[("@OWN@/c", "_", '"')]), F("c/i.go", "c", imps=[("@OWN@/a", "_", '"')])]),
        ("dangling link", base_plugin(p) + GOOD + [Raw("z/gone.go", link="/nonexistent/gone.go")]),
        ("many dangling links", base_plugin(p) + GOOD + [Raw(f"z/gone{i}.go", link="/nonexistent/gone.go") for i in range(300)]),
        ("duplicate live name", base_plugin(p) + GOOD + [S("d/d.go", (fn, "live_A"))]),
        ("missing functions", base_plugin(p, REQUIRED[:4]) + GOOD),
        ("no go files", [Raw("x.txt", "x")]),
    ]:
        w.source(p, files)
        w.dyn(p, fault=fault)
    w.source(p, base_plugin(p) + GOOD)
    w.dyn(p, fault="go list fails", fail="go-list")
    w.dyn(p, fault="go build fails", fail="go-build")
    w.dyn(p, fault="go build fails while it writes", fail="torn.go-build")
    q = Plugin("bar")
    w.source(q, base_plugin(q))
    w.dyn(q, fault="go build fails while it writes", fail="torn.go-build", leave=True)
    w.dyn(p, fault="git fails", fail="git")
    w.dyn(p, fault="bad include", extra=["--include", "("])
    w.dyn(p, fault="bad exclude", extra=["--exclude", "*"])
    w.dyn(p, fault="empty prefix", extra=["--livePrefix", " "])
    w.dyn(p, fault="clean without static", extra=["--clean"])
    w.dyn(p, fault="bad flag", extra=["--nosuchflag"])
    w.dyn(p, fault="output is a file", outdir=os.path.join(w.dout, "notes.txt"))
    w.dyn(p, fault="go build fails, temps left", fail="go-build", leave=True)
    w.dyn(p, fault="compile error, verbose", fail="go-build", verbose=True)
    w.dyn(p)
    w.load()


@scn("C25")
def races_of_copying(w):
    p = Plugin("foo")
    for n in range(6):
        w.source(p, base_plugin(p) + [Raw(f"z{k}/gone{i}.go", link="/nonexistent/gone.go") for i in range(40) for k in range(6)])
        w.dyn(p, fault="many dangling links")


@scn("C25")
def endings(w):
    p = one(w, GOOD)
    w.dyn(p, leave=True)
    w.dyn(p, gobuild=False)
    w.dyn(p, gobuild=False, leave=True)
    w.dyn(p, verbose=True)
    w.dyn(p, leave=True, verbose=True, inc=ANY)
    shutil.rmtree(w.dout)
    w.ev.append(dict(e="out", files=[]))
    w.dyn(p)
    w.load()


def outside(w):
    """A directory outside of any module is refused."""
    p = Plugin("foo")
    os.remove(os.path.join(w.mod, "go.mod"))
    w.source(p, base_plugin(p))
    w.dyn(p, fault="no module")


outside_module = scn("C25")(outside)
outside_module.__name__ = "outside"


def signals(tool, sig, group, after):
    def f(w):
        p = Plugin("foo")
        w.outfiles({"notes.txt": "n"})
        w.source(p, base_plugin(p) + GOOD)
        w.dyn(p)
        w.dyn(p, sig=sig, pause=tool, group=group, die=tool if after == "die" else None)
        w.load()
        w.source(p, base_plugin(p) + [S("c/c.go")])     # only the root has something to register
        w.dyn(p, sig=sig, pause=tool, group=group, die=tool if after == "die" else None)
        w.source(p, base_plugin(p) + GOOD)
        w.dyn(p, sig=sig, pause=tool, group=group, die=tool if after == "die" else None, leave=True)
        w.load()
    return f


for _t in ("git.1", "git.2", "go-list.1", "go-list.2", "go-build.1"):
    for _s in ("INT", "TERM"):
        for _g in (False, True):
            for _a in ("go on", "die"):
                if _g and _a == "die":
                    continue
                ALL.append(Scn(f"signal-{_t}-{_s}-{'group' if _g else 'one'}-{_a.replace(' ', '')}", signals(_t, _s, _g, _a), False, ["C25"]))

def while_copying(sig):
    """The signal arrives while files are copied: one of them is a named pipe that is not written to before."""
    def f(w):
        p = Plugin("foo")
        w.outfiles({"notes.txt": "n"})
        w.source(p, base_plugin(p) + GOOD + [Raw(f"data/f{i}.txt", "x" * i) for i in range(100)])
        w.dyn(p, inc=ANY)
        for kw in (dict(), dict(leave=True), dict(gobuild=False)):
            w.dyn(p, sig=sig, fifo="a/b/pipe.txt", inc=ANY, **kw)
        w.dyn(p, inc=ANY)
        w.load()
    return f


for _s in ("INT", "TERM"):
    ALL.append(Scn(f"signal-copying-{_s}", while_copying(_s), False, ["C25"]))

# ---------------------------------------------------------------------------------------------------- C26


def subsets(k, n):
    def f(w):
        p = Plugin("foo")
        for i, m in enumerate(itertools.product((0, 1), repeat=7)):
            if i % n != k:
                continue
            have = [r for r, x in zip(REQUIRED, m) if x]
            w.source(p, base_plugin(p, have, split=i % 2 == 0) + [S("sub/s.go")])
            w.dyn(p)
    return f


for _k in range(8):
    ALL.append(Scn(f"required-subsets-{_k}", subsets(_k, 8), False, ["C26"]))


@scn("C26")
def required_elsewhere(w):
    p = Plugin("foo")
    for n, m in enumerate(REQUIRED):
        have = [r for r in REQUIRED if r != m]
        for place in ([F("t_test.go", "foo", decls=[(fn, m)])], [F("t.go", "foo", decls=[("method", m)])], [F("sub/t.go", "sub", decls=[(fn, m)])],
                      [F("t.go", "foo", decls=[("var", m)])], [F("t.go", "foo", decls=[(fn, m.upper()), (fn, m + "2"), (fn, "x" + m)])],
                      [F("t.go", "foo", decls=[(st, m)])], [F("t.go", "foo", extra=f"// func {m}() {{}}\n")])[n % 2::2 if n else 1]:
            w.source(p, base_plugin(p, have) + place)
            w.dyn(p)


@scn("C26")
def accepted_layouts(w):
    """Everything here is a valid plugin."""
    p = Plugin("foo")
    one_each = [F(f"f{i}.go", "foo", decls=[("req", r)]) for i, r in enumerate(REQUIRED)] + [F("h.go", "foo", extra='func invoke(string) interface{} { return nil }\n')]
    for files in (
        one_each,
        base_plugin(p) + [F("x_test.go", "foo", decls=[(fn, "internalTest")])],
        base_plugin(p) + [F("x_test.go", "foo_test", decls=[(fn, "externalTest")])],
        base_plugin(p) + [F("gen.go", "main", top="//go:build ignore\n", cond=("on", "")), ],
        base_plugin(p) + [F("doc.go", "foo"), F("sub/doc.go", "sub"), F("sub/x_test.go", "sub_test", decls=[(fn, "Ext")])],
        base_plugin(p) + [S("foo/foo.go"), S("sub/main.go", pkg="notsub")],
        base_plugin(p) + [F("m.go", "foo", decls=[("method", "Export"), ("method", "OnLoad")])],
    ):
        for f in files:
            if f.name == "gen.go":
                f.cond = ("off", "")
                f.top = ""
        w.source(p, files)
        w.dyn(p)
    w.load()


@scn("C26", "C24", "C23")
def names(w):
    """Directory and package names."""
    for name, pkg, where in (("bar", "other", "plug"), ("Bar", "bar", "plug"), ("b-a.r", "bar", "plug"), ("b_a_r", "main", "plug"), ("deep", "deep", "a/b/c/plug"),
                             ("hotswap", "hotswap", "plug"), ("x2", "x2", "x1")):
        p = Plugin(name, where, pkg)
        w.source(p, base_plugin(p) + [S("sub/s.go", (fn, "live_" + pkg)), F("i.go", pkg, imps=[("@OWN@/sub", "_", '"')])])
        w.dyn(p)
    w.load()


# ---------------------------------------------------------------------------------------------------- static linking


def sp(w, names, user=True):
    r = []
    if user:
        w.sfiles({"sp.go": "package sp\n", "notes.txt": "n", "hotswap.staticPluginInit.notes.go.txt": "mine", "my-hotswap.staticPluginInit.go.md": "x",
                  "xhotswap.staticPluginInit.a.go": "package sp\n", "hotswap.staticPlugins.go.bak": "x", "keep/hotswap.staticPluginInit.x.go": "package keep\n"})
    elif user is not None:
        os.makedirs(w.sdir, exist_ok=True)
        w.ev.append(dict(e="sout", files=[]))
    for n in names:
        p = Plugin(n, static=True)
        w.source(p, base_plugin(p) + live(n))
        r.append(p)
    return r


def live(n, x=""):
    n = n.replace("-", "_").replace(".", "_")
    return [S("sub/s.go", (fn, f"live_{n}{x}"), (st, f"live_{n}T{x}")), F("root.go", re_pkg(n), decls=[(fn, f"Live_{n}Root{x}")]), S("plain/p.go"),
            Raw("sub/notes.txt", "hotswap.live.go"), Raw("hotswapbureau/notes.txt", "mine")]


def re_pkg(n):
    import re
    return re.sub(r"\W", "_", n)


@scn("C22", "C21", static=True)
def static_three(w):
    a, b, c = sp(w, ["aa", "bb", "cc"])
    w.sta(a)
    w.drive()
    w.sta(b)
    w.sta(c, verbose=True)
    w.drive()
    w.sta(b)
    w.sta(b, "clean")
    w.drive()
    w.sta(b)
    w.sta(a, "clean", verbose=True)
    w.sta(c, "clean")
    w.drive()
    w.sta(b, "clean")
    w.sta(b, "clean")
    w.sta(a)
    w.drive()


@scn("C22", "C21", static=True)
def static_edits(w):
    a, b = sp(w, ["aa", "bb"], user=False)
    w.sta(a)
    w.sta(b)
    w.source(a, base_plugin(a) + live("aa", "2")[:2])            # renamed
    w.sta(a)
    w.drive()
    w.source(a, base_plugin(a) + [S("elsewhere/x.go", (fn, "live_moved"))])   # another package; the old one is gone
    w.sta(a)
    w.drive()
    w.source(a, base_plugin(a))                                 # nothing live
    w.sta(a)
    w.drive()
    w.source(b, base_plugin(b) + [F("sub/s.go", "renamed", decls=[(fn, "live_other")])])    # package renamed
    w.sta(b)
    w.drive()
    w.source(b, base_plugin(b) + [S("sub/deeper/s.go", (st, "live_other"))])
    w.sta(b)
    w.drive()


@scn("C21", "C22", static=True)
def static_prefix(w):
    a, b = sp(w, ["aa", "bb"])
    w.sta(a, prefix="Live_A")
    w.sta(a, prefix="Live_A")
    w.sta(b, prefix="nothing")
    w.drive()
    w.source(a, base_plugin(a) + [S("sub/s.go", (fn, "Hot1"), (st, "hot2"), (fn, "live_x"))])
    w.sta(a, prefix="hot")
    w.sta(a, prefix="hot")
    w.sta(a, prefix="hotswap")
    w.sta(a, prefix="hotswap")
    w.sta(a, prefix="reg")
    w.drive()


@scn("C21", "C22", static=True)
def static_refused(w):
    a, b = sp(w, ["aa", "bb"])
    w.sta(a)
    w.sta(b)
    w.source(a, base_plugin(a) + [S("x/x.go", (fn, "live_d")), S("y/y.go", (st, "live_d"))])
    w.sta(a)
    w.source(a, base_plugin(a) + [S("x/x.go", (ns, "live_d"))])
    w.sta(a)
    w.source(a, base_plugin(a) + live("aa"))
    w.sta(a, fault="list", fail="go-list")
    w.sta(a, fault="gofmt", fail="gofmt")
    w.sta(a)
    w.drive()


@scn("C26", "C22", static=True)
def static_required(w):
    a, b = sp(w, ["aa", "bb"])
    w.sta(b)
    for i, m in enumerate(REQUIRED):
        have = [r for r in REQUIRED if r != m][: 7 - i]
        w.source(a, base_plugin(a, have) + [F("t_test.go", "aa", decls=[(fn, m)])])
        w.sta(a)
    w.source(a, base_plugin(a, []))
    w.sta(a)
    w.source(a, base_plugin(a, [r for r in REQUIRED if r != "OnFree"]) + [F("win.go", "aa", decls=[("req", "OnFree")], cond=("off", ""), static=True)])
    w.sta(a)
    w.source(a, base_plugin(a) + [F("x_test.go", "aa_test", decls=[(fn, "ext")]), F("gen.go", "main", cond=("off", ""))])
    w.sta(a)
    w.drive()


@scn("C22", static=True)
def static_names(w):
    ps = []
    w.sfiles({"sp_test.go": "package sp_test\n", "sp.go": "package sp\n"})
    for n, pkg, where in (("a", "a", "plug"), ("aa", "aa", "plug"), ("a.a", "a_a", "plug"), ("A-b", "ab", "plug"), ("hs", "hotswap", "plug"), ("other", "different", "x/y"),
                          ("a.go", "ago", "plug")):
        p = Plugin(n, where, pkg, static=True)
        w.source(p, base_plugin(p) + [S("sub/s.go", (fn, "live_x"))])
        ps.append(p)
        w.sta(p, relative=len(ps) % 2 == 0)
    w.drive()
    for p in ps[::2]:
        w.sta(p, "clean")
    w.drive()


@scn("C22", static=True)
def static_test_of_the_registry(w):
    """The output directory has a test of its own and nothing else that the user wrote."""
    w.sfiles({"a_test.go": "package sp_test\n", "z_test.go": "package sp_test\n"})
    a, b = sp(w, ["aa", "bb"], user=None)
    w.sta(a)
    w.sta(b)
    w.drive()
    w.sta(a)
    w.drive()


@scn("C22", static=True)
def static_test_added_later(w):
    a, b = sp(w, ["aa", "bb"], user=False)
    w.sta(a)
    w.sfiles({"a_test.go": "package sp_test\n", "b_test.go": "package sp\n"})
    w.sta(b)
    w.sta(a)
    w.drive()


@scn("C22", "C25", static=True)
def static_then_dynamic(w):
    """A plugin that was generated for static linking is also built dynamically."""
    a, b = sp(w, ["aa", "bb"])
    w.sta(a)
    w.sta(b)
    w.dyn(a, gobuild=False)
    w.dyn(a, inc=ANY)
    w.sta(a, "clean")
    w.dyn(b)
    w.load()
    w.sta(a)
    w.drive()


def random_static(seed):
    def f(w):
        r = random.Random(seed)
        names = r.sample(["a", "b", "aB", "a.b", "b-a", "Abc"], r.randint(2, 4))
        ps = sp(w, names, user=r.random() < .7)
        built = {}
        for n in range(r.randint(6, 10)):
            p = r.choice(ps)
            x = r.random()
            if x < .3:
                nm = re_pkg(p.name)
                fs = base_plugin(p)
                for k in range(r.randint(0, 3)):
                    d = r.choice(["sub", "sub/x", "y"])
                    if any("/".join(f.dir) == d for f in fs):
                        continue
                    fs.append(S(d + "/s.go", *[(r.choice([fn, st, gr, "var", "method"]), f"{r.choice(['live_', 'Live_', 'x_'])}{nm}{k}{j}") for j in range(r.randint(0, 3))]))
                w.source(p, fs)
                built.pop(p.name, None)
                if x < .05:
                    continue
                w.sta(p)
                built[p.name] = 1
            elif x < .75:
                w.sta(p, prefix=r.choice(["live_", "live_", "x_"]), relative=r.random() < .5, verbose=r.random() < .3)
            else:
                w.sta(p, "clean")
        for p in ps:       # whatever was edited but not built
            if w_state(w, p) == "stale":
                w.sta(p)
        w.drive()
    return f


def w_state(w, p):
    s = "none"
    for e in w.ev:
        if e.get("p") == p.name:
            if e["e"] == "src":
                s = "stale" if s in ("built", "stale") else s
            elif e["e"] == "sta":
                s = "none" if e["op"] == "clean" else "built"
    return s


# ---------------------------------------------------------------------------------------------------- random dynamic builds


def random_dyn(seed):
    def f(w):
        r = random.Random(seed)
        name = r.choice(["foo", "f", "Foo", "fo-o", "f.oo"])
        p = Plugin(name, r.choice(["plug", "plug", "x/y"]))
        near = [p.where + "/" + name + x for x in ("x", "-1", ".v2")]
        for n in near:
            w.write(n + "/n.go", "package near\n\nvar Anchor int\n")
            w.write(n + "/sub/n.go", "package sub\n\nvar Anchor int\n")
        outs = ["@MOD@/" + n for n in near] + ["@MOD@/" + n + "/sub" for n in near] + ["os", "strings"]
        prefix = r.choice(["live_", "live_", "Hot", "x", "É"])
        seq = [0]

        def ident():
            seq[0] += 1
            pre = r.choice([prefix, prefix.upper(), prefix.lower(), prefix.title(), "other", "no" + prefix, prefix[:-1] + "Q" if len(prefix) > 1 else "q"])
            return pre + (f"N{seq[0]}" if r.random() < .97 else "N1")
        trouble = r.random() < .25
        dirs = r.sample(["sub", "sub/a", "sub/b", "b", "b/sub", "internal/i", "cmd-x", "testdata/t", "_u", "c.d/e"], r.randint(1, 6))
        okdirs = []
        files = base_plugin(p, REQUIRED if not trouble or r.random() < .6 else r.sample(REQUIRED, r.randint(0, 6)), split=r.random() < .5)
        for d in dirs + [""]:
            pkg = (d.split("/")[-1].replace("-", "_").replace(".", "_") or p.pkg) if r.random() < .8 or not d else "zz"
            for k in range(r.randint(1, 3)):
                decls = [("anchor", "Anchor")] if k == 0 and d else []
                for _ in range(r.randint(0, 3)):
                    kind = r.choice([fn, fn, st, gr, "method", "var", "const", "local"] + ([ns] if trouble else []))
                    decls.append((kind, ident()))
                names_ = [n for _, n in decls]
                if len(set(names_)) < len(names_):
                    decls = decls[:1]
                imps = []
                for i in range(r.randint(0, 3)):
                    imps.append((r.choice(outs), r.choice(["_", "_"]), r.choice('""`')))
                for od in okdirs:
                    if r.random() < .3 and "internal" not in od:
                        imps.append(("@OWN@/" + od, r.choice(["_", f"al{len(imps)}"]), r.choice('""`')))
                suffix = r.choice(["", "", "", "_test", "_windows"])
                cond = ("off", "") if suffix == "_windows" else r.choice([("on", "")] * 6 + [("off", ""), ("+", "extra"), ("-", "extra")])
                if k == 0:
                    cond, suffix = ("on", ""), ""
                top = r.choice(["", "", "// package x\n", "/*\npackage y\n*/\n"])
                files.append(F((d + "/" if d else "") + f"f{k}{suffix}.go", pkg, imps, decls, cond, top, extra=r.choice(["", DECEIVING.replace("tpl", f"tpl{k}").replace("own,", f"own{k},")
                             .replace("ownSub", f"ownSub{k}").replace("ownRaw", f"ownRaw{k}").replace("var r, q", f"var r{k}, q{k}")]) if d else ""))
            if d and not d.startswith(("testdata", "_")):
                okdirs.append(d)
        for k in range(r.randint(0, 5)):
            files.append(Raw(r.choice(dirs + ["res", "."]).replace(".", "top") + "/" + r.choice(["a.txt", "b.json", "c_test.txt", "data", "x.go.tmpl"]) + (str(k) if r.random() < .3 else ""), f"{k}"))
        seen = set()
        files = [f for f in files if not (f.path() in seen or seen.add(f.path()))]
        # names declared twice in one package do not compile
        bad = set()
        for f in files:
            if isinstance(f, F):
                f.decls = [(k, n) for k, n in f.decls if not ((tuple(f.dir), n) in bad or bad.add((tuple(f.dir), n)))]
        w.source(p, files)
        pats = [pat("suffix", ".txt"), pat("sub", "a"), pat("prefix", "b"), pat("all", ""), pat("exact", "data"), pat("suffix", ".go")]
        for _ in range(2):
            w.dyn(p, prefix=prefix, tags=r.choice([[], [], ["extra"], ["zzz"]]), inc=r.sample(pats, r.choice([0, 0, 1, 2])), exc=r.sample(pats, r.choice([0, 0, 1])),
                  leave=r.random() < .2, gobuild=r.random() < .7, relative=r.random() < .5, verbose=r.random() < .2)
        w.load()
    return f


NRAND = dict(C21=(30, 6), C22=(0, 40), C23=(30, 4), C24=(30, 4), C25=(12, 4), C26=(15, 6))


def scenarios(prop, seed, tier):
    k = 10 if tier == "thorough" else 1
    nd, ns_ = NRAND[prop]
    out = [s for s in ALL if prop in s.tags]
    if k > 1:
        out = list(ALL)
    out += [Scn(f"random-{prop}-{seed}-{i}", random_dyn(f"{prop}-{seed}-{i}"), False, [prop]) for i in range(nd * k)]
    if prop in ("C24", "C25"):
        out += [Scn(f"over-{seed}-{i}", overlapped(f"{seed}-{i}", i), False, [prop]) for i in range((10 if prop == "C24" else 5) * k)]
    out += [Scn(f"rstatic-{prop}-{seed}-{i}", random_static(f"{prop}-{seed}-{i}"), True, [prop]) for i in range(ns_ * k)]
    return out
