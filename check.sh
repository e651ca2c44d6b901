#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
#        check.sh --replay FILE
# Builds the monitors (and the template tool, where it is needed) from /repo's working tree and runs them.
# Exit 0: the property held on everything observed; 1 with a VIOLATION line: it did not; anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off GOENV=off
unset GOOS GOARCH GOEXPERIMENT GODEBUG GORACE GOMAXPROCS GOGC GOMEMLIMIT
repo=/repo
seed=${VERIF_SEED:-1}
tier=${2:-${VERIF_TIER:-quick}}
id=$1
replay=
if [ "$1" = --replay ]; then
	replay=$(realpath "$2") || exit 3
	id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$replay") || exit 3
	arch=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("goarch", ""))' "$replay") || exit 3
	if [ "$arch" = 386 ]; then
		export GOARCH=386 CGO_ENABLED=0
	fi
fi

work=$(mktemp -d "${TMPDIR:-/tmp}/check-XXXXXX") || exit 3
chmod 755 "$work"
child=
cleanup() {
	[ -n "$child" ] && kill "$child" 2>/dev/null
	chmod -R u+w "$work" 2>/dev/null
	rm -rf "$work"
}
trap cleanup EXIT
trap 'exit 3' INT TERM
if [ -z "$GOCACHE" ]; then
	export GOCACHE=/root/.cache/go-build
	mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE="$work/gocache"
fi
export TMPDIR="$work" # all scratch directories go there

t0=$(date +%s.%N)
cp -r "$here/harness" "$work/harness" || exit 3
flags=()
race=
case $id in
C23 | C24) race=1; flags+=(-race) ;;
C35) # counts the executed blocks of the library; the monitors' own package has to be instrumented, too
	flags+=(-cover -covermode=atomic -coverpkg=verif/harness,github.com/infobloxopen/go-trees/...)
	mkdir "$work/cov" && export GOCOVERDIR="$work/cov" || exit 3
	;;
esac

# build TREE OUTPUT builds the monitors against a tree.
build() {
	(cd "$work/harness" && go mod edit -replace "github.com/infobloxopen/go-trees=$1" && go build -mod=mod "${flags[@]}" -o "$2" .) >"$work/build.log" 2>&1
}

violation() { # message
	local path="$here/replays/$id-build-0.json"
	mkdir -p "$here/replays" "$here/evidence"
	python3 - "$path" "$here/evidence/$id.json" "$id" "$seed" "$tier" "$1" "$work/build.log" "$t0" <<'P'
import json, sys, time
path, ev, pid, seed, tier, msg, log, t0 = sys.argv[1:]
text = open(log, errors="replace").read()[-6000:]
json.dump({"property": pid, "section": "build", "case": 0, "seed": int(seed), "tier": tier, "kind": "generation", "message": msg, "stack": text,
           "how_to_replay": "bash /verif/check.sh " + pid}, open(path, "w"), indent=1)
json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "assumptions": [], "violations": 1, "wall_s": time.time() - float(t0),
           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the generated packages did not build; nothing else was observed", "samples": [msg]}}, open(ev, "w"), indent=1)
P
	echo "$id: $1"
	tail -n 20 "$work/build.log"
	echo "VIOLATION property=$id replay=$path"
	exit 1
}

if ! build "$repo" "$work/vmon"; then
	echo "$id: the monitors do not build against $repo:"
	cat "$work/build.log"
	exit 3
fi
args=(-seed "$seed" -out "$here")
[ -n "$race" ] && args+=(-race)
case $id in
C29 | C30 | C31 | C37)
	if ! (cd "$repo" && go build -mod=readonly -o "$work/etc" ./etc) >"$work/build.log" 2>&1; then
		echo "$id: the template tool does not build:"
		cat "$work/build.log"
		exit 3
	fi
	chmod 755 "$work/etc"
	args+=(-etc "$work/etc")
	;;
esac
if [ "$id" = C31 ]; then
	# Generate all typed packages anew in a copy of the tree and judge these.
	mkdir "$work/src" && (cd "$repo" && tar cf - --exclude=./.git .) | (cd "$work/src" && tar xf -) || exit 3
	cd "$work/src/uintX" || exit 3
	for bits in 8 16 32 64; do
		for kind in iptree strtree domaintree; do
			rm -rf "$work/src/uintX/$kind$bits"
		done
	done
	: >"$work/build.log"
	for bits in 8 16 32 64; do
		for kind in iptree strtree domaintree; do
			if ! timeout 120 "$work/etc" -s "uint$bits" -d uintX.yaml -t "./$kind{{.bits}}" >>"$work/build.log" 2>&1; then
				violation "the template tool fails to generate $kind$bits"
			fi
			if [ ! -d "$work/src/uintX/$kind$bits" ]; then
				violation "the template tool does not generate $kind$bits"
			fi
		done
	done
	cd "$work" || exit 3
	if ! build "$work/src" "$work/vmon"; then
		violation "the generated packages do not build with the API of the packages in the repository"
	fi
	if ! (cd "$work/src" && go test -mod=readonly -vet=off -count=1 -run '^$' ./uintX/...) >"$work/build.log" 2>&1; then
		violation "the generated packages do not build with their tests"
	fi
	args+=(-src "$work/src")
fi
args+=(-buildsecs "$(python3 -c "import time; print(round(time.time() - $t0, 2))")")
cd "$here" || exit 3
if [ -n "$replay" ]; then
	"$work/vmon" "${args[@]}" -replay "$replay" &
else
	"$work/vmon" "${args[@]}" -prop "$id" -tier "$tier" &
fi
child=$!
wait "$child"
code=$?
child=
if [ $code = 0 ] && [ -z "$replay" ] && [ "$tier" = thorough ]; then
	case $id in
	C23 | C24 | C29 | C30 | C31 | C35 | C37) ;;
	*) # the quick cases once more where an int has 32 bits
		export GOARCH=386 CGO_ENABLED=0
		if build "$repo" "$work/vmon386" && "$work/vmon386" -prop C16 -section none -out "$work/none" >/dev/null 2>&1; then
			"$work/vmon386" -seed "$seed" -out "$here" -aux -prop "$id" -tier quick &
			child=$!
			wait "$child"
			code=$?
			child=
		else
			echo "$id: 32-bit programs cannot be built or run here; the 32-bit part is left out"
		fi
		;;
	esac
fi
exit $code
