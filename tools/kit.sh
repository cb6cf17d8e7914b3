# Sourced by demo.sh: builds the plugin of the current directory and what it
# generates, in a scratch directory that is removed at the end.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0 GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
export GOCACHE=$T/gocache
[ -d /opt/vp/gocache ] && cp -a /opt/vp/gocache "$GOCACHE"
go build -o "$T/protoc-gen-validate" . || exit 3
go build -o "$T/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go || exit 3

# go_demo PROTO...: generates the protos (go_package demo/...) and runs main.go
go_demo() {
  mkdir -p "$T/go"
  for p in "$@"; do
    protoc -I "$here" -I "$repo" --plugin="$T/protoc-gen-go" --plugin="$T/protoc-gen-validate" \
      --go_out=module=demo:"$T/go" --validate_out=lang=go,module=demo:"$T/go" "$p" || exit 1
  done
  cp "$here/main.go" "$T/go/"
  cp "$repo/go.sum" "$T/go/go.sum"
  cat > "$T/go/go.mod" <<M
module demo
go 1.23
require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)
replace github.com/envoyproxy/protoc-gen-validate => $repo
M
  (cd "$T/go" && GOFLAGS=-mod=mod go build -o "$T/demo" .) || exit 1
  "$T/demo"
}

# cc_demo PROTO...: the same with main.cc
cc_demo() {
  mkdir -p "$T/cc"
  protoc -I "$repo" --cpp_out="$T/cc" validate/validate.proto || exit 3
  for p in "$@"; do
    protoc -I "$here" -I "$repo" --plugin="$T/protoc-gen-validate" --cpp_out="$T/cc" --validate_out=lang=cc:"$T/cc" "$p" || exit 1
  done
  cp "$here/main.cc" "$T/cc/"
  (cd "$T/cc" && g++ -std=c++14 -w -I . -I "$repo" *.cc validate/*.cc -o "$T/demo" -lprotobuf -lre2 -lpthread) || exit 1
  "$T/demo"
}

# generates PROTO...: whether the plugin accepts them
generates() {
  mkdir -p "$T/out"
  protoc -I "$here" -I "$repo" --plugin="$T/protoc-gen-validate" --validate_out="${PARAM:-lang=go}:$T/out" "$@" 2> "$T/err"
}

# java_demo PROTO...: the same with Main.java; only the runtime classes that the
# generated code refers to are compiled (there is no re2j here)
java_demo() {
  local jar; jar=$(ls -d /opt/veriftools/apalache-*/lib/apalache.jar) || exit 3
  mkdir -p "$T/java" "$T/jout"
  protoc -I "$repo" --java_out="$T/java" validate/validate.proto || exit 3
  for p in "$@"; do
    protoc -I "$here" -I "$repo" --plugin="$T/protoc-gen-validate" --java_out="$T/java" --validate_out=lang=java:"$T/java" "$p" || exit 1
  done
  javac -nowarn -proc:none -encoding UTF-8 -d "$T/jout" -cp "$jar" -sourcepath "$T/java:$repo/java/pgv-java-stub/src/main/java:$repo/java/pgv-java-grpc/src/main/java" "$here/Main.java" $(find "$T/java" -name '*Validator.java') 2> "$T/jerr" || { cat "$T/jerr"; exit 1; }
  java -cp "$T/jout:$jar" Main
}

# py_demo PROTO...: main.py, with the stand-ins of py/ for what Python lacks here
py_demo() {
  protoc -I "$here" -I "$repo" --include_imports --descriptor_set_out="$T/d.bin" "$@" || exit 1
  PYTHONPATH=$here/py python3 -B "$here/main.py" "$repo" "$T/d.bin" "$here" "$@"
}
