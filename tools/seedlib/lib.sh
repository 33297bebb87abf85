# Helpers of the demonstrations: everything happens in a scratch directory.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
build_plugin() {
  mkdir -p "$T/bin"
  (cd "$REPO" && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$T/bin/protoc-gen-validate" .)
}
# run_go: generate Go for x.proto and run main.go against it
run_go() {
  build_plugin
  (cd "$REPO" && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$T/bin/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go)
  mkdir -p "$T/m/x"
  cp "$HERE/"*.proto "$T/m/x/"
  (cd "$T/m" && PATH="$T/bin:$PATH" protoc -I. -I"$REPO" --go_out=. --go_opt=paths=source_relative --validate_out=lang=go,paths=source_relative:. x/*.proto)
  v=$(sed -n 's/^\tgoogle.golang.org\/protobuf \(v[^ ]*\).*/\1/p' "$REPO/go.mod")
  printf 'module vgen\n\ngo 1.25\n\nrequire (\n\tgithub.com/envoyproxy/protoc-gen-validate v0.0.0\n\tgoogle.golang.org/protobuf %s\n)\n\nreplace github.com/envoyproxy/protoc-gen-validate => %s\n' "$v" "$REPO" >"$T/m/go.mod"
  cp "$REPO/go.sum" "$T/m/go.sum"
  cp "$HERE/main.go" "$T/m/main.go"
  (cd "$T/m" && go mod tidy >/dev/null 2>&1 || true)
  (cd "$T/m" && GOFLAGS=-mod=mod timeout 200 go run "$@" .)
}
# plugin LANG PARAMS FILE...: run the plugin through protoc into $T/out
plugin() {
  mkdir -p "$T/out"
  lang=$1 params=$2; shift 2
  PATH="$T/bin:$PATH" protoc -I"$HERE" -I"$REPO" --validate_out="lang=$lang$params:$T/out" "$@"
}
# run_cc: generate C++ for x.proto and run main.cc against it
run_cc() {
  build_plugin
  cp "$HERE/x.proto" "$T/"
  (cd "$T" && PATH="$T/bin:$PATH" protoc -I. -I"$REPO" --cpp_out=. --validate_out=lang=cc:. x.proto)
  (cd "$T" && protoc -I"$REPO" --cpp_out=. validate/validate.proto)
  (cd "$T" && g++ -std=c++14 -O0 -g -w "$@" -I. -I"$REPO" "$HERE/main.cc" x.pb.cc x.pb.validate.cc validate/validate.pb.cc -o prog -lprotobuf -lre2 -lpthread)
  timeout 120 "$T/prog"
}
