"""Planted bugs in the command line tool."""
BD, HU = "cli/hotswap/cmd/build.go", "internal/hutils/hutils.go"
SEEDS = {}


def seed(id, property, needs, breaks, edits, body):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, kit="seedkit_cli",
                     files={"demo.sh": '#!/bin/bash\n. "$(dirname "$(readlink -f "$0")")/kit.sh"\n' + body.strip() + "\n"})


seed("c21-same-package-name", "C21", "two sub-packages of one plugin that have the same package name, both with live functions",
     "live functions are collected by package name instead of by directory: of two packages with the same name one loses its registrations",
     [(BD, "		dir := filepath.Dir(pkg.GoFiles[0])\n", "		dir := filepath.Dir(pkg.GoFiles[0])\n		if other, ok := packageDirs[pkg.Name]; ok {\n			dir = other\n		}\n		packageDirs[pkg.Name] = dir\n"),
      (BD, "	livePackages := make(map[string]*packages.Package)\n", "	livePackages := make(map[string]*packages.Package)\n	packageDirs := make(map[string]string)\n")],
     """
plugin plug/foo
mkdir -p plug/foo/a/util plug/foo/b/util
printf 'package util\\n\\nfunc live_A() {}\\n' > plug/foo/a/util/u.go
printf 'package util\\n\\nfunc live_B() {}\\n' > plug/foo/b/util/u.go
$hotswap build plug/foo out || fail "the build failed"
$hotswap build --goBuild=false plug/foo out > /dev/null || fail "the build failed"
for f in a/util b/util; do
  ls plug/foo-*/$f/hotswap.live.go || fail "nothing registers the live function of $f"
done
""")

seed("c21-func-and-type-of-one-name", "C21", "a live function in one package and a live type of the same name in another",
     "live functions and live types are checked for duplicates separately",
     [(BD, "						if _, ok := liveNames[typeName]; ok {\n", "						if _, ok := liveNames[\"type \"+typeName]; ok {\n"),
      (BD, "						liveNames[typeName] = struct{}{}\n", "						liveNames[\"type \"+typeName] = struct{}{}\n")],
     """
plugin plug/foo
mkdir -p plug/foo/a plug/foo/b
printf 'package a\\n\\nfunc live_X() {}\\n' > plug/foo/a/a.go
printf 'package b\\n\\ntype live_X struct{}\\n' > plug/foo/b/b.go
$hotswap build plug/foo out && fail "the duplicate was accepted"
exit 0
""")

seed("c22-init-file-by-package-name", "C22", "two static plugins whose directories differ but whose package names are the same",
     "the init file of a static plugin is named after its package: plugins with equal package names overwrite each other's",
     [(BD, "	fileName := fmt.Sprintf(hotswapStaticPluginInitFile, tplArgs.PluginName)\n", "	fileName := fmt.Sprintf(hotswapStaticPluginInitFile, tplArgs.PluginPkgName)\n")],
     """
static
splugin plug/one plugin
splugin plug/two plugin
$hotswap build --staticLinking plug/one sp || fail "one"
$hotswap build --staticLinking plug/two sp || fail "two"
n=$(ls sp | grep -c staticPluginInit)
[ "$n" = 2 ] || fail "$n init files instead of 2"
""")

seed("c22-clean-touches-nested", "C22", "a static plugin is cleaned whose directory name is the beginning of another's",
     "cleaning a plugin also removes the init files of plugins whose names start with its name",
     [(BD, "	pluginName := filepath.Base(args.pluginDir)\n", "	pluginName := filepath.Base(filepath.Clean(args.pluginDir))\n	if args.cleanOnly {\n		// variants of the plugin, e.g. those made with a different prefix\n		variants, _ := filepath.Glob(filepath.Join(args.outputDir, strings.TrimSuffix(fmt.Sprintf(hotswapStaticPluginInitFile, pluginName), \".go\")+\"*.go\"))\n		for _, f := range variants {\n			_ = os.Remove(f)\n		}\n	}\n")],
     """
static
splugin plug/foo
splugin plug/foobar
$hotswap build --staticLinking plug/foo sp || fail "foo"
$hotswap build --staticLinking plug/foobar sp || fail "foobar"
$hotswap build --staticLinking --clean plug/foo sp || fail "clean"
ls sp/hotswap.staticPluginInit.foobar.go || fail "the init file of foobar is gone"
""")

seed("c23-include-sees-the-path", "C23", "--include or --exclude with a pattern that is anchored, or that matches the name of a directory",
     "the include and exclude patterns are applied to the relative path instead of the base name",
     [(BD, "		case rexMatch(filepath.Base(rel)):\n", "		case rexMatch(rel):\n")],
     """
plugin plug/foo
mkdir -p plug/foo/data
echo x > plug/foo/data/a.txt
$hotswap build --goBuild=false --include '^a' plug/foo out > /dev/null || fail "the build failed"
ls plug/foo-*/data/a.txt || fail "a.txt was not taken"
""")

seed("c23-empty-files-dropped", "C23", "an empty file that is to be included",
     "empty files are not copied",
     [(BD, "				data9 := data1\n", "				if len(data1) == 0 {\n					continue\n				}\n				data9 := data1\n")],
     """
plugin plug/foo
: > plug/foo/empty.txt
sed -i 's/^package foo/package foo\\n\\nimport _ "embed"\\n\\n\\/\\/go:embed empty.txt\\nvar empty string\\n/' plug/foo/plugin.go
$hotswap build --include 'txt$' plug/foo out || fail "the embedded file is missing"
""")

seed("c24-commit-by-time", "C24", "builds in the same second from two commits that were made in the same second",
     "the temporary package is named after the time of the commit only, so builds from different commits can share packages",
     [(BD, "	return fmt.Sprintf(\"%s-%s\", t, output1[:8])\n", "	return fmt.Sprintf(\"%s-%02d\", t, len(output1))\n")],
     """
plugin plug/foo
cd .. && cp -a m m2
for d in m m2; do
  (cd $d && git add -A && GIT_COMMITTER_DATE="2026-01-01T00:00:00Z" git commit -q -m "$d" && mkdir out)
done
for i in 1 2 3 4 5; do
  sleep 0.$((10#$(date +%N) < 500000000 ? 1 : 6))
  (cd m && $hotswap build --goBuild=false plug/foo out > ../o1) &
  (cd m2 && $hotswap build --goBuild=false plug/foo out > ../o2)
  wait
  a=$(basename "$(tail -1 o1)"); b=$(basename "$(tail -1 o2)")
  echo "$a $b"
  [ -n "$a" ] || fail "no temporary package"
  [ "$a" = "$b" ] && fail "two commits, one package path"
done
exit 0
""")

seed("c25-output-removed-first", "C25", "a build over an existing plugin file fails in the compiler",
     "the plugin file that is to be replaced is removed before the compiler runs, so a failing build destroys it",
     [(BD, "	goBuild.Env = append(os.Environ(), \"GO111MODULE=on\")\n", "	goBuild.Env = append(os.Environ(), \"GO111MODULE=on\")\n	_ = os.Remove(outputFile)\n")],
     """
plugin plug/foo
$hotswap build plug/foo out || fail "the build failed"
sum=$(sha1sum < out/foo.so)
echo 'var x int = ""' >> plug/foo/plugin.go
$hotswap build plug/foo out && fail "the build succeeded"
[ "$(sha1sum < out/foo.so)" = "$sum" ] || fail "the plugin file was damaged"
""")

seed("c25-sigterm-not-handled", "C25", "SIGTERM while the build runs an external tool",
     "SIGTERM is no longer intercepted: it kills the build, which leaves its temporary package behind",
     [(BD, "	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM}\n", "	sigs := []os.Signal{os.Interrupt, syscall.SIGHUP}\n")],
     """
plugin plug/foo
mkdir bin out
printf '#!/bin/sh\\n[ "$1" = build ] && : > %s/started && sleep 2\\nexec %s "$@"\\n' "$work" "$(command -v go)" > bin/go
chmod +x bin/go
PATH=$PWD/bin:$PATH $hotswap build plug/foo out & pid=$!
for i in $(seq 300); do [ -e "$work/started" ] && break; sleep 0.1; done
kill -TERM $pid; wait $pid && fail "the build succeeded"
sleep 2.5
ls -d plug/foo-* && fail "the temporary package is still there"
exit 0
""")

seed("c25-copy-error-crash", "C25", "a file that is to be copied cannot be read",
     "an unreadable file makes a worker goroutine panic: the program crashes and leaves its temporary package behind",
     [(BD, "				data1, err := ioutil.ReadFile(abs)\n				if err != nil {\n					reportErr(err)\n					return\n				}\n", "				data1, err := ioutil.ReadFile(abs)\n				if err != nil {\n					panic(fmt.Errorf(\"failed to read %s: %w\", rel, err))\n				}\n")],
     """
plugin plug/foo
mkdir -p plug/foo/sub
ln -s /nonexistent plug/foo/sub/gone.go
$hotswap build plug/foo out && fail "the build succeeded"
ls -d plug/foo-* && fail "the temporary package is still there"
exit 0
""")

seed("c26-methods-count", "C26", "a required function is missing while some type has a method of that name",
     "methods are taken for the required functions",
     [(BD, "				if !ok || funcDecl.Recv != nil {\n					continue\n				}\n				funcName := funcDecl.Name.Name\n				if _, ok := pluginFuncMap", "				if !ok {\n					continue\n				}\n				funcName := funcDecl.Name.Name\n				if _, ok := pluginFuncMap")],
     """
plugin plug/foo
sed -i 's/^func OnFree() .*/type t int\\n\\nfunc (t) OnFree() {}/' plug/foo/plugin.go
$hotswap build plug/foo out && fail "a plugin without OnFree was built"
exit 0
""")

seed("c26-not-all-named", "C26", "more than one required function is missing",
     "only the first missing function is named",
     [(BD, "		panic(\"missing fundamental plugin functions: \" + hutils.Join(missing...))\n", "		panic(\"missing fundamental plugin functions: \" + hutils.Join(missing[0]))\n")],
     """
plugin plug/foo
sed -i '/^func OnFree()/d; /^func Export()/d' plug/foo/plugin.go
$hotswap build plug/foo out 2> err && fail "the plugin was built"
grep -q OnFree err && grep -q Export err || fail "not every missing function is named: $(cat err)"
""")

seed("c23-test-anywhere", "C23", "a source file whose name contains _test but does not end in _test.go",
     "every file with _test in its name is taken for a test",
     [(BD, "		case strings.HasSuffix(path, \"_test.go\"):\n", "		case strings.Contains(filepath.Base(path), \"_test\"):\n")],
     """
plugin plug/foo
printf 'package foo\\n\\nfunc helper() int { return 1 }\\n' > plug/foo/load_tests.go
echo 'var _ = helper()' >> plug/foo/plugin.go
$hotswap build plug/foo out || fail "load_tests.go is missing"
""")

seed("c23-left-overs-stay", "C23", "two builds in one second with --leaveTemps or --goBuild=false, a source file being removed in between",
     "a temporary package of the same name is not removed first: files that have been deleted since are compiled again",
     [(BD, "			if err := os.RemoveAll(bc.tmpDir); err != nil {\n", "			if err := os.Remove(filepath.Join(bc.tmpDir, hotswapMainFile)); err != nil && !os.IsNotExist(err) {\n")],
     """
plugin plug/foo
mkdir -p plug/foo/sub
for i in $(seq 20); do
  printf 'package sub\\n' > plug/foo/sub/s.go
  printf 'package sub\\n' > plug/foo/sub/gone.go
  while [ $((10#$(date +%N))) -gt 300000000 ]; do sleep 0.05; done
  a=$($hotswap build --goBuild=false plug/foo out | tail -1) || fail "the build failed"
  rm plug/foo/sub/gone.go
  b=$($hotswap build --goBuild=false plug/foo out | tail -1) || fail "the build failed"
  if [ "$a" = "$b" ]; then
    [ -e "$b/sub/gone.go" ] && fail "gone.go is compiled"
    exit 0
  fi
done
exit 0
""")

seed("c24-beginning-of-name", "C24", "builds of two plugins in the same second whose names begin alike",
     "the temporary package is named after the first eight characters of the plugin's name",
     [(BD, "		bc.tmpDirName = fmt.Sprintf(format, filepath.Base(bc.pluginDir), commitInfo, now)\n", "		bc.tmpDirName = fmt.Sprintf(format, fmt.Sprintf(\"%.8s\", filepath.Base(bc.pluginDir)), commitInfo, now)\n")],
     """
plugin plug/foundation1
plugin plug/foundation2
for i in $(seq 20); do
  while [ $((10#$(date +%N))) -gt 300000000 ]; do sleep 0.05; done
  $hotswap build --goBuild=false plug/foundation1 out > o1 & p1=$!
  sleep 0.1
  $hotswap build --goBuild=false plug/foundation2 out > o2 & p2=$!
  wait $p1; r1=$?; wait $p2; r2=$?
  [ $r1 = 0 ] && [ $r2 = 0 ] || fail "two builds disturb each other"
  [ "$(tail -1 o1)" = "$(tail -1 o2)" ] && fail "two plugins, one package path"
done
exit 0
""")

seed("c25-verbose-keeps-temps", "C25", "a build with -v that fails",
     "a verbose build that fails keeps its temporary package",
     [(BD, "	if !bc.leaveTemps {\n		_ = os.RemoveAll(bc.tmpDir)\n", "	if !bc.leaveTemps && (!bc.verbose || timing.total > 0) {\n		_ = os.RemoveAll(bc.tmpDir)\n")],
     """
plugin plug/foo
echo 'var x int = ""' >> plug/foo/plugin.go
$hotswap build -v plug/foo out > /dev/null && fail "the build succeeded"
ls -d plug/foo-* && fail "the temporary package is still there"
exit 0
""")

seed("c21-live-types-first-of-group", "C21", "several live types that are declared in one group",
     "only the first type of a group of declarations is looked at",
     [(BD, "					for _, spec := range genDecl.Specs {\n						typeSpec", "					for i, spec := range genDecl.Specs {\n						if genDecl.Lparen.IsValid() && i > 0 && genDecl.Doc == nil {\n							break\n						}\n						typeSpec")],
     """
plugin plug/foo
printf 'package foo\\n\\ntype (\\n\\tlive_A struct{}\\n\\tlive_B struct{}\\n)\\n' > plug/foo/t.go
d=$($hotswap build --goBuild=false plug/foo out | tail -1) || fail "the build failed"
grep -q live_B "$d/hotswap.live.go" || fail "live_B is not registered"
""")

seed("c22-stale-live-of-emptied-package", "C22", "a sub-package of a static plugin that has no live declarations any more",
     "generated files of sub-packages are removed only where new ones are written",
     [(BD, "		if _, ok := hotswapFiles[filepath.Base(path)]; !ok {\n			return nil\n		}\n		files = append(files, path)\n",
       "		if _, ok := hotswapFiles[filepath.Base(path)]; !ok {\n			return nil\n		}\n		if filepath.Base(path) == hotswapLiveFile && !args.cleanOnly && filepath.Dir(path) != args.pluginDir {\n			return nil\n		}\n		files = append(files, path)\n")],
     """
static
splugin plug/foo
mkdir -p plug/foo/a
printf 'package a\\n\\nvar X int\\n\\nfunc live_A() {}\\n' > plug/foo/a/a.go
$hotswap build --staticLinking plug/foo sp || fail "the build failed"
ls plug/foo/a/hotswap.live.go || fail "nothing is generated"
printf 'package a\\n\\nvar X int\\n' > plug/foo/a/a.go
$hotswap build --staticLinking plug/foo sp || fail "the second build failed"
ls plug/foo/a/hotswap.live.go && fail "a stale file is still there"
exit 0
""")

seed("c24-older-temps-removed", "C24", "a build of a plugin starts while another build of it is running",
     "temporary packages that earlier builds of the plugin seem to have left behind are removed, those of builds still running included",
     [(BD, "		if err := hutils.FindDirectory(bc.tmpDir, \"\"); err == nil {\n			if err := os.RemoveAll(bc.tmpDir); err != nil {\n				panic(err)\n			}\n		}\n",
       "		// builds that were killed leave their packages behind\n		stale, _ := filepath.Glob(filepath.Join(filepath.Dir(bc.pluginDir), filepath.Base(bc.pluginDir)+\"-[0-9]*-\"+bc.tmpDirName[len(bc.tmpDirName)-8:][:2]+\"*\"))\n		for _, dir := range stale {\n			if err := os.RemoveAll(dir); err != nil {\n				panic(err)\n			}\n		}\n")],
     """
plugin plug/foo
mkdir shim
real=$(command -v go)
cat > shim/go <<EOF
#!/bin/sh
if [ "\\$1" = build ]; then : > $PWD/started; sleep 6; fi
exec $real "\\$@"
EOF
chmod +x shim/go
(PATH=$PWD/shim:$PATH; $hotswap build plug/foo out; echo $? > first) &
for i in $(seq 300); do [ -e started ] && break; sleep 0.1; done
[ -e started ] || fail "the compiler did not start"
sleep 1.1
mkdir out2
$hotswap build plug/foo out2 || fail "the second build failed"
wait
[ "$(cat first)" = 0 ] || fail "the first build was disturbed"
""")
