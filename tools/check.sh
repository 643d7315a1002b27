#!/bin/bash
# check.sh PROPERTY [extra arguments of the harness, e.g. -runs N]
# Rebuilds the simulation of /repo's working tree and decides one property.
# Exit: 0 held, 1 violated, 2 the check itself could not be carried out.
set -u
prop=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case "$seed" in ''|*[!0-9]*) seed=1;; esac
[ "${1:-}" = thorough ] && { tier=thorough; shift; }
[ "${1:-}" = quick ] && { tier=quick; shift; }
start=$(date +%s.%N)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
bin=$scratch/harness
"$here/tools/build.sh" "$prop" "$scratch/w" "$bin" >"$scratch/build.log" 2>&1 || {
	cat "$scratch/build.log" >&2
	echo "check.sh: the simulation of $repo could not be built" >&2
	exit 2
}
rm -rf "$scratch/w"
limit=300s
[ "$tier" = thorough ] && limit=700s
wall0=$(echo "$(date +%s.%N) - $start" | bc 2>/dev/null || echo 0)
"$bin" run -prop "$prop" -seed "$seed" -tier "$tier" -wall0 "${wall0:-0}" -limit $limit \
	-known "$here/known_findings.json" -replays "$here/replays" \
	-evidence "$here/evidence/$prop.json" "$@"
rc=$?
exit $rc
