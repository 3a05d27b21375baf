# Sourced by the scripts in bin: toolchain, scratch directory, builds.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export REPO=${REPO:-/repo}
umask 022

mkscratch() {
	VERIF_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
	export VERIF_SCRATCH
	mkdir -p "$VERIF_SCRATCH/bin"
	trap 'chmod -R u+rwX "$VERIF_SCRATCH" 2>/dev/null; rm -rf "$VERIF_SCRATCH"' EXIT
}

# The harness packages are overlaid into the module as internal/zzverif/...
make_overlay() {
	local out=$VERIF_SCRATCH/overlay.json first=1 f rel
	{
		echo '{"Replace":{'
		while IFS= read -r f; do
			rel=${f#"$VERIF_ROOT"/harness/}
			[ $first = 1 ] || echo ','
			first=0
			printf '"%s/internal/zzverif/%s":"%s"' "$REPO" "$rel" "$f"
		done < <(find "$VERIF_ROOT/harness" -type f \( -name '*.go' -o -name '*.s' \) | sort)
		echo '}}'
	} >"$out"
	OVERLAY=$out
}

build_bab() {
	(cd "$REPO" && go build -o "$VERIF_SCRATCH/bin/bab" .) || { echo "bab does not build"; return 1; }
	export VERIF_BAB=$VERIF_SCRATCH/bin/bab
}

build_main() {
	make_overlay
	(cd "$REPO" && go build -overlay "$OVERLAY" -o "$VERIF_SCRATCH/bin/$1" "./internal/zzverif/$1") || { echo "harness $1 does not build"; return 1; }
}

build_test() {
	make_overlay
	(cd "$REPO" && go test -c -vet=off -overlay "$OVERLAY" -o "$VERIF_SCRATCH/bin/$1.test" "./internal/zzverif/$1") || { echo "harness $1 does not build"; return 1; }
}

# A test binary whose copy of the runner has scheduling gates.
build_sched() {
	make_overlay
	mkdir -p "$VERIF_SCRATCH/instr"
	(cd "$REPO" && go build -overlay "$OVERLAY" -o "$VERIF_SCRATCH/bin/instrument" ./internal/zzverif/instrument &&
		timeout 120 "$VERIF_SCRATCH/bin/instrument" "$OVERLAY" "$VERIF_SCRATCH/instr" ./internal/runner) || return 1
	(cd "$REPO" && go test -c -vet=off -overlay "$OVERLAY" -o "$VERIF_SCRATCH/bin/$1.test" "./internal/zzverif/$1") || return 1
}

run_check() {
	cd "$VERIF_SCRATCH" || exit 3
	"$@"
	local rc=$?
	cd /
	exit $rc
}
