# Helpers for demonstrations with the command line tool. Everything happens in a scratch module.
repo=$(pwd)
hotswap=$repo/cli/hotswap/hotswap
export HOME=${HOME:-/root} GIT_CONFIG_GLOBAL=/dev/null GIT_AUTHOR_NAME=d GIT_AUTHOR_EMAIL=d@d GIT_COMMITTER_NAME=d GIT_COMMITTER_EMAIL=d@d
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on
cd "$repo" && go build -o "${TMPDIR:-/tmp}/hotswap-demo-$$" ./cli/hotswap || exit 2
hotswap=${TMPDIR:-/tmp}/hotswap-demo-$$
work=$(mktemp -d)
trap 'rm -rf "$work" "$hotswap"' EXIT
mkdir "$work/m" && cd "$work/m" || exit 2
printf 'module example.com/m\n\ngo 1.18\n' > go.mod
git init -q . && git commit -q --allow-empty -m 1 || exit 2

# plugin DIR [PACKAGE]: a plugin with the required functions
plugin() {
  mkdir -p "$1"
  cat > "$1/plugin.go" <<EOF
package ${2:-$(basename "$1")}

func OnLoad(data interface{}) error { return nil }
func OnInit(v interface{}) error    { return nil }
func OnFree()                       {}
func Export() interface{}           { return nil }
func Import() interface{}           { return nil }
func Reloadable() bool              { return true }
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return nil, nil
}
EOF
}
splugin() { # the same for static linking
  plugin "$@"
  sed -i 's/OnInit(v interface{})/OnInit(v *vault.Vault)/; s/^\(package .*\)/\1\n\nimport "github.com\/edwingeng\/hotswap\/vault"/' "$1/plugin.go"
}
static() { # makes the module able to compile the result of static linking
  sed "s#^module .*#module example.com/m#" "$repo/go.mod" > go.mod
  printf 'require github.com/edwingeng/hotswap v0.0.0\nreplace github.com/edwingeng/hotswap => %s\n' "$repo" >> go.mod
  cp "$repo/go.sum" go.sum
  mkdir -p sp && echo "package sp" > sp/sp.go
}
fail() { echo "DEMO: $*"; exit 1; }
