# Shared by the demonstrations: a scratch module with a generated parser.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOFLAGS="-mod=mod -trimpath -buildvcs=false"
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
(cd /repo && GOFLAGS="-mod=readonly -trimpath -buildvcs=false" go build -o "$t/gogll" .) || exit 2
mkdir "$t/w"
cd "$t/w" || exit 2
cat >go.mod <<E
module w

go 1.21

require github.com/goccmack/goutil v1.2.3
E
cp /repo/go.sum .
# gen OPTIONS: runs the tool on g.md
gen() { cp "$here/g.md" . && timeout 60 "$t/gogll" "$@" g.md; }
# run: builds and runs main.go against the generated packages
run() { cp "$here/main.go" . && timeout 120 go run . "$@"; }
# inrepo DIR: runs the Go test beside the demo inside a copy of the repository
inrepo() {
	mkdir "$t/r" && tar -C /repo --exclude=./.git -cf - . | tar -C "$t/r" -xf - &&
	cp "$here/demo_test.go" "$t/r/$1/zz_demo_test.go" &&
	(cd "$t/r/$1" && GOFLAGS="-mod=readonly -trimpath -buildvcs=false" timeout 200 go test -vet=off -count=1 -run 'TestDemo' .)
}
