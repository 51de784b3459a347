From 840dca9883e3466f97b1245a8c4d5f721193f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 01/20] fix: load plugins whose file names contain upper-case
 letters

infoMap is keyed by the lower-case name, but loadPlugins looked the file up by
its name as it is, so loading such a plugin always ended in a nil dereference.
---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From ca286e69a3f2e6ac546c28996e8125ffccb8713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 02/20] fix: wire import fields whose names start with a
 non-ASCII upper-case letter

---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..f660cfa 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -260,7 +259,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if !field.IsExported() {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From b62004d4d5d3c46c704cc324de58744f17fdcd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 03/20] fix: accept a whitelist that names the same plugin more
 than once

---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From 7d8e6b825695d26b32c24ad52c201bf1b278da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 04/20] fix: reject static plugins whose names differ only in
 case

---
 staticPlugin.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..4f6d4d0 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -66,6 +66,15 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 	sort.Strings(a)
 
+	names := make(map[string]string)
+	for _, name := range a {
+		k := name2key(staticPlugins[name].Name)
+		if another, ok := names[k]; ok {
+			return fmt.Errorf("duplicate name detected: %s. plugins: %s, %s", k, another, name)
+		}
+		names[k] = name
+	}
+
 	pm.when = time.Now()
 	for _, name := range a {
 		curPlugin = staticPlugins[name]
-- 
2.43.0


From 7804200ee590fafaeb304edcabf7d97f0010d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 05/20] fix: Plugin.Lookup of a static plugin dereferences nil

---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..8223e11 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return ErrNotExist
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 1bc5394d31c59dff2b5b9c9588d71b3b9a36e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 06/20] fix: static linking removes only the init file of the
 plugin it works on

---
 cli/hotswap/cmd/build.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..9c3fa0f 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -402,7 +402,7 @@ func (bc *buildCmdT) genStaticPlugin() {
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
 	str2 := strings.ReplaceAll(str1, "%s", ".+?")
-	rexName := regexp.MustCompile(str2)
+	rexName := regexp.MustCompile("^" + str2 + "$")
 
 	var a []string
 	_ = filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
@@ -464,16 +464,17 @@ func removeStaticFiles(args completePluginArgs) {
 	}
 
 	pluginName := filepath.Base(args.pluginDir)
-	allInitFiles := findPluginInitFiles(args)
-	for _, f := range allInitFiles {
-		if err := os.Remove(f); err != nil {
-			panic(err)
-		}
+	pluginInitFile := filepath.Join(args.outputDir, fmt.Sprintf(hotswapStaticPluginInitFile, pluginName))
+	var removedInitFiles []string
+	if err := os.Remove(pluginInitFile); err == nil {
+		removedInitFiles = append(removedInitFiles, pluginInitFile)
+	} else if !os.IsNotExist(err) {
+		panic(err)
 	}
 
 	pluginVarDefFile := filepath.Join(args.outputDir, hotswapStaticPluginsFile)
 	var pluginVarDefFileWantRemoved bool
-	if len(allInitFiles) == 0 {
+	if len(findPluginInitFiles(args)) == 0 {
 		if _, err := os.Stat(pluginVarDefFile); err == nil {
 			pluginVarDefFileWantRemoved = true
 		}
@@ -489,11 +490,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(removedInitFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range removedInitFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From 3d5aeaf75dd5955f8cd67f01cde99b5f447b19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 07/20] fix: look for live functions and types in the files
 that the build flags select

---
 cli/hotswap/cmd/build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 9c3fa0f..c99ae40 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1013,6 +1013,7 @@ func completePlugin(args completePluginArgs) {
 
 	var cfg packages.Config
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.BuildFlags = g.BuildFlags
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From d8606bc2c83f91939e3f097eff314e8838437b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 08/20] fix: static linking must not scan the files it
 generated before

---
 cli/hotswap/cmd/build.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index c99ae40..6a57a7e 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1011,6 +1011,11 @@ func completePlugin(args completePluginArgs) {
 		panic(err)
 	}
 
+	// What an earlier run has generated must not be taken for source code.
+	if args.clean {
+		removeStaticFiles(args)
+	}
+
 	var cfg packages.Config
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	cfg.BuildFlags = g.BuildFlags
@@ -1096,10 +1101,6 @@ func completePlugin(args completePluginArgs) {
 		panic(fmt.Errorf("%d errors occurred", numErrs))
 	}
 
-	if args.clean {
-		removeStaticFiles(args)
-	}
-
 	if args.verbose {
 		fmt.Println()
 		fmt.Println("Live Functions:")
-- 
2.43.0


From a4bd74a3824563cf9b8a290cafcdf2a37be0ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 09/20] fix: determine the package name from the files that
 belong to the package

---
 internal/hutils/hutils.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..6fb7162 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -39,8 +40,19 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		return "", "", err
 	}
 
+	// Test files, files excluded by build constraints and generated files may have other package names.
+	filter := func(info os.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") || strings.HasPrefix(info.Name(), "hotswap.") {
+			return false
+		}
+		match, err := build.Default.MatchFile(dir, info.Name())
+		return match || err != nil
+	}
 	fset := token.NewFileSet()
-	pkgs, err := parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+	pkgs, err := parser.ParseDir(fset, dir, filter, parser.PackageClauseOnly)
+	if err == nil && len(pkgs) == 0 {
+		pkgs, err = parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+	}
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From c173de68bfbc1954225b75359f7fad56125ef0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 10/20] fix: endless loop when there is no go.mod

---
 internal/hutils/hutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 6fb7162..84c3fd9 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -88,8 +88,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	for absDir != "" {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				break
+			}
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			absDir = parent
 			continue
 		}
 
-- 
2.43.0


From f5a69d7065baba5e30788a4fa1510f04f9ffbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 11/20] fix: look for the required functions in the files that
 are compiled

---
 cli/hotswap/cmd/build.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 6a57a7e..e1d9971 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -5,7 +5,6 @@ import (
 	_ "embed"
 	"fmt"
 	"go/ast"
-	"go/parser"
 	"go/token"
 	"io/fs"
 	"io/ioutil"
@@ -529,15 +528,21 @@ func parseRequiredPluginFuncs(pluginDir, pluginPkgName string) []pluginFunc {
 		delete(pluginFuncMap, "HotswapLiveTypes")
 	}
 
-	var fset token.FileSet
-	pkgs, err := parser.ParseDir(&fset, pluginDir, func(info os.FileInfo) bool {
-		return !strings.HasSuffix(info.Name(), "_test.go")
-	}, 0)
+	var cfg packages.Config
+	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.Dir = pluginDir
+	cfg.BuildFlags = g.BuildFlags
+	pkgs, err := packages.Load(&cfg, ".")
 	if err != nil {
 		panic(err)
 	}
 	for _, pkg := range pkgs {
-		for _, file := range pkg.Files {
+		for _, err := range pkg.Errors {
+			if err.Kind == packages.ParseError {
+				panic(err)
+			}
+		}
+		for _, file := range pkg.Syntax {
 			for _, decl := range file.Decls {
 				funcDecl, ok := decl.(*ast.FuncDecl)
 				if !ok || funcDecl.Recv != nil {
-- 
2.43.0


From d2e038e4a33a87871dd348e7f4942bcf3b28e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 12/20] fix: rewrite the package clause and the imports only,
 not other text that looks like them

---
 cli/hotswap/cmd/build.go | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index e1d9971..ccaa209 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	_ "embed"
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"io/fs"
 	"io/ioutil"
@@ -768,25 +769,36 @@ func (bc *buildCmdT) collectFiles() []string {
 }
 
 func (bc *buildCmdT) copyFiles(files []string) {
-	rexPkg := regexp.MustCompile(`(?m)^package\s+\S+`)
-	oldImportPath1 := []byte(`"` + bc.pluginPkgPath + `"`)
-	newImportPath1 := []byte(`"` + bc.tmpPkgPath + `"`)
-	oldImportPath2 := []byte(`"` + bc.pluginPkgPath + `/`)
-	newImportPath2 := []byte(`"` + bc.tmpPkgPath + `/`)
-	oldImportPath3 := []byte("`" + bc.pluginPkgPath + "`")
-	newImportPath3 := []byte("`" + bc.tmpPkgPath + "`")
-	oldImportPath4 := []byte("`" + bc.pluginPkgPath + "/")
-	newImportPath4 := []byte("`" + bc.tmpPkgPath + "/")
-
-	replaceCode := func(rel string, data1 []byte) []byte {
+	replaceCode := func(rel string, data []byte) []byte {
+		fset := token.NewFileSet()
+		file, err := parser.ParseFile(fset, rel, data, parser.ImportsOnly)
+		if err != nil {
+			return data // the go command reports it
+		}
+
+		var buf bytes.Buffer
+		var last int
+		replace := func(node ast.Node, str string) {
+			f := fset.File(node.Pos())
+			_, _ = buf.Write(data[last:f.Offset(node.Pos())])
+			_, _ = buf.WriteString(str)
+			last = f.Offset(node.End())
+		}
 		if filepath.Dir(rel) == "." {
-			data1 = rexPkg.ReplaceAll(data1, []byte("package main"))
+			replace(file.Name, "main")
+		}
+		for _, spec := range file.Imports {
+			importPath, err := strconv.Unquote(spec.Path.Value)
+			if err != nil {
+				continue
+			}
+			if importPath == bc.pluginPkgPath || strings.HasPrefix(importPath, bc.pluginPkgPath+"/") {
+				quote := spec.Path.Value[:1]
+				replace(spec.Path, quote+bc.tmpPkgPath+importPath[len(bc.pluginPkgPath):]+quote)
+			}
 		}
-		data2 := bytes.ReplaceAll(data1, oldImportPath1, newImportPath1)
-		data3 := bytes.ReplaceAll(data2, oldImportPath2, newImportPath2)
-		data4 := bytes.ReplaceAll(data3, oldImportPath3, newImportPath3)
-		data5 := bytes.ReplaceAll(data4, oldImportPath4, newImportPath4)
-		return data5
+		_, _ = buf.Write(data[last:])
+		return buf.Bytes()
 	}
 
 	pending := make(chan string, len(files))
-- 
2.43.0


From 674c036692ab7cb0e1bf6155544862ca53208f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 13/20] fix: two files that cannot be copied close the abort
 channel twice

---
 cli/hotswap/cmd/build.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index ccaa209..c01256d 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -809,13 +809,12 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
+		abortOnce.Do(func() {
 			close(abort)
-		}
+		})
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From d1d8ab0367a00420f3d00b318f14b0f7f2e3f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 14/20] fix: stop the build and clean up after SIGINT and
 SIGTERM alike

---
 cli/hotswap/cmd/build.go | 47 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index c01256d..1f1d427 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -266,28 +266,27 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 	chSignal := make(chan os.Signal, 1)
 	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM}
 	signal.Notify(chSignal, sigs...)
+	finished := make(chan struct{})
 	done := make(chan struct{})
 	go func() {
 		defer close(done)
 		select {
 		case x := <-chSignal:
 			signal.Reset(sigs...)
+			close(interruptProgram)
 			if x == syscall.SIGINT {
-				close(interruptProgram)
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
 				}()
 			}
-			bc.removeTmpDir()
+		case <-finished:
 		}
 	}()
 	defer func() {
-		select {
-		case chSignal <- syscall.SIGQUIT:
-		default:
-		}
+		close(finished)
 		<-done
+		bc.removeTmpDir()
 	}()
 
 	var outputFile string
@@ -359,6 +358,14 @@ func (bc *buildCmdT) removeTmpDir() {
 	}
 }
 
+func panicIfInterrupted() {
+	select {
+	case <-interruptProgram:
+		panic("interrupted")
+	default:
+	}
+}
+
 func (bc *buildCmdT) commitInfo() string {
 	cmd1 := exec.Command("git", "log", "-1", "--format=%H", "HEAD")
 	cmd1.Dir = bc.pluginDir
@@ -710,7 +717,21 @@ func (bc *buildCmdT) buildPlugin() string {
 	goBuild.Stdout = os.Stdout
 	goBuild.Stderr = os.Stderr
 	goBuild.Env = append(os.Environ(), "GO111MODULE=on")
-	if err := goBuild.Run(); err != nil {
+	panicIfInterrupted()
+	if err := goBuild.Start(); err != nil {
+		panic(err)
+	}
+	built := make(chan struct{})
+	go func() {
+		select {
+		case <-interruptProgram:
+			_ = goBuild.Process.Signal(os.Interrupt)
+		case <-built:
+		}
+	}()
+	err := goBuild.Wait()
+	close(built)
+	if err != nil {
 		panic(err)
 	}
 
@@ -1058,11 +1079,7 @@ func completePlugin(args completePluginArgs) {
 		if len(pkg.GoFiles) == 0 {
 			continue
 		}
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			for _, decl := range synt.Decls {
@@ -1151,11 +1168,7 @@ func completePlugin(args completePluginArgs) {
 	genHotswapMain(args, livePackages, &generated)
 
 	for k, pkg := range livePackages {
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
 	}
 
-- 
2.43.0


From 160e3c9b7abcf021d3093fc38c34b63f8c655272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 15/20] fix: cleaning static linking files keeps what the user
 has in hotswapbureau

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 1f1d427..fe80669 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -466,7 +466,7 @@ func removeStaticFiles(args completePluginArgs) {
 	if args.cleanOnly {
 		bureauDir := filepath.Join(args.pluginDir, hotswapBureauPackageName)
 		if err := hutils.FindDirectory(bureauDir, ""); err == nil {
-			_ = os.RemoveAll(bureauDir)
+			_ = os.Remove(bureauDir) // it stays if there are other files in it
 		}
 	}
 
-- 
2.43.0


From 3e30ff9993868d3062743e37fcba2291d0a2b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 16/20] fix: the check for cyclic dependencies takes
 exponential time when plugins share dependencies

---
 pluginManager.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index f660cfa..90fb461 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -289,11 +289,12 @@ func (pm *PluginManager) initDeps() error {
 		}
 	}
 
+	acyclic := make(map[*Plugin]struct{}, len(pm.pluginMap))
 	for _, p := range pm.pluginMap {
 		if len(p.Deps) == 0 {
 			continue
 		}
-		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}))
+		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}), acyclic)
 		if len(cyclicDeps) != 0 {
 			var names []string
 			for _, p := range cyclicDeps {
@@ -317,7 +318,13 @@ func (pm *PluginManager) initDeps() error {
 	return nil
 }
 
-func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]struct{}) []*Plugin {
+func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited, acyclic map[*Plugin]struct{}) []*Plugin {
+	// A plugin below which no cycle was found need not be visited again. Otherwise, the number of visits grows
+	// exponentially with the number of plugins.
+	if _, ok := acyclic[p]; ok {
+		return nil
+	}
+
 	me := [1]*Plugin{p}
 	if _, ok := visited[p]; ok {
 		return me[:]
@@ -330,12 +337,13 @@ func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]st
 
 	for _, depName := range p.Deps {
 		dep := pm.pluginMap[name2key(depName)]
-		ret := pm.checkCyclicDependency(dep, visited)
+		ret := pm.checkCyclicDependency(dep, visited, acyclic)
 		if len(ret) > 0 {
 			return append(me[:], ret...)
 		}
 	}
 
+	acyclic[p] = struct{}{}
 	return nil
 }
 
-- 
2.43.0


From a8e948d6c68e0f80ac17656f7502c044da5f08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 17/20] fix: a private copy that may be in use is written again

---
 pluginManager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pluginManager.go b/pluginManager.go
index 90fb461..15e1699 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -1,6 +1,7 @@
 package hotswap
 
 import (
+	"bytes"
 	"crypto/sha1"
 	"errors"
 	"fmt"
@@ -166,6 +167,10 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 
 	sum := xxHash32.Checksum(info.fileSha1[:], 0)
 	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%#8x%s", info.name, sum, hutils.FileNameExt))
+	if data, err := ioutil.ReadFile(dst); err == nil && bytes.Equal(data, info.fileData) {
+		// The copy may already be mapped into the process. Writing it again would pull the rug from under it.
+		return dst, nil
+	}
 	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
 }
 
-- 
2.43.0


From 36d3842cc449e62a7adffc405de45e33224d39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 18/20] fix: an interrupted or failed go build damages or
 replaces the plugin of an earlier build

---
 cli/hotswap/cmd/build.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index fe80669..3727c50 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -687,12 +687,13 @@ func (bc *buildCmdT) buildPlugin() string {
 
 	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
 	outputFile := filepath.Join(bc.outputDir, outputFileName)
+	buildingFile := filepath.Join(bc.outputDir, bc.tmpDirName+".building")
 
 	var args []string
 	args = append(args, "build")
 	args = append(args, "-trimpath")
 	args = append(args, "-buildmode=plugin")
-	args = append(args, "-o", outputFile)
+	args = append(args, "-o", buildingFile)
 	args = append(args, g.BuildFlags...)
 	if bc.verbose {
 		fmt.Println()
@@ -718,6 +719,9 @@ func (bc *buildCmdT) buildPlugin() string {
 	goBuild.Stderr = os.Stderr
 	goBuild.Env = append(os.Environ(), "GO111MODULE=on")
 	panicIfInterrupted()
+	defer func() {
+		_ = os.Remove(buildingFile)
+	}()
 	if err := goBuild.Start(); err != nil {
 		panic(err)
 	}
@@ -734,6 +738,10 @@ func (bc *buildCmdT) buildPlugin() string {
 	if err != nil {
 		panic(err)
 	}
+	// The go command produces nothing when it is told so, e.g. by the flag -n.
+	if err := os.Rename(buildingFile, outputFile); err != nil && !os.IsNotExist(err) {
+		panic(err)
+	}
 
 	return outputFile
 }
-- 
2.43.0


From 61cac914e1092f0f197e85fb3d4de51911f04600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 19/20] fix: static linking fails, or does not compile, in an
 output directory with no other user file than an external test

---
 internal/hutils/hutils.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 84c3fd9..9f3f94d 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/ast"
 	"go/build"
 	"go/parser"
 	"go/token"
@@ -52,6 +53,7 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	pkgs, err := parser.ParseDir(fset, dir, filter, parser.PackageClauseOnly)
 	if err == nil && len(pkgs) == 0 {
 		pkgs, err = parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+		mergeExternalTests(pkgs)
 	}
 	if err != nil {
 		return "", "", err
@@ -123,6 +125,25 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	return "", "", errors.New("cannot find go.mod")
 }
 
+// mergeExternalTests takes the package foo_test for the package foo if all its files are test files.
+func mergeExternalTests(pkgs map[string]*ast.Package) {
+	for name, pkg := range pkgs {
+		base := strings.TrimSuffix(name, "_test")
+		external := base != name && base != ""
+		for file := range pkg.Files {
+			external = external && strings.HasSuffix(file, "_test.go")
+		}
+		if !external {
+			continue
+		}
+		delete(pkgs, name)
+		if _, ok := pkgs[base]; !ok {
+			pkg.Name = base
+			pkgs[base] = pkg
+		}
+	}
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0


From 4b6f66a4116af901c1d3a307a15410ed62675fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:12 +0000
Subject: [PATCH 20/20] fix: builds an hour apart share a package when the
 clocks are set back

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 3727c50..c01402f 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -227,7 +227,7 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		panic(fmt.Errorf("failed to determine the package path. err: %v", err))
 	}
 
-	now := time.Now().Format("02150405")
+	now := time.Now().UTC().Format("02150405")
 	commitInfo := bc.commitInfo()
 	if !bc.staticLinking {
 		const format = "%s-%s-%s"
-- 
2.43.0

