#!/bin/bash
# mutant.sh PATCH|none ID... : runs the quick checks of these properties against a scratch copy of /repo with the patch applied.
# Prints one line per check: caught / quiet / no answer.  MUT_SEED, VERIF_BUDGET as usual.  The copy is removed afterwards.
P=$1; shift; [ "$P" = none ] || P=$(readlink -f "$P")
D=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/repo" "$D/v/build" "$D/v/evidence"; cp -a /repo/src /repo/third_party "$D/repo/" 2>/dev/null; cp -a /repo/fing "$D/repo/" 2>/dev/null; cp -a /verif/build/obj /verif/build/gen "$D/v/build/" 2>/dev/null; cp /verif/known-findings "$D/v/"
[ "$P" = none ] || (cd "$D/repo" && patch -p1 -s --no-backup-if-mismatch < "$P") || { echo "patch does not apply"; exit 2; }
SIM_OUT="$D/v/build" bash /verif/sim/build.sh "$D/repo" > "$D/log" 2>&1 || { tail -5 "$D/log"; echo "does not build"; exit 2; }
for id in "$@"; do
	t0=$(date +%s.%N); "$D/v/build/drv" check "$id" --tier quick --seed "${MUT_SEED:-1}" --root "$D/v" ${VERIF_BUDGET:+--budget $VERIF_BUDGET} > "$D/out" 2>&1; rc=$?
	s=$(echo "$(date +%s.%N) - $t0" | bc | cut -c1-5)
	case $rc in 0) echo "$id quiet ($s s)";; 1) echo "$id CAUGHT ($s s): $(grep "^$id:" "$D/out" | head -1 | cut -c1-200)"; [ -n "$KEEP" ] && cp "$D/v/build/replays/$id.replay" "/tmp/$id.replay";; *) echo "$id no answer ($rc)"; tail -3 "$D/out";; esac
done
