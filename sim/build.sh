#!/bin/bash
# Builds the simulated interpreter from the repository's working tree, and the driver.  Incremental by content.
# usage: build.sh [REPO] ; output in $SIM_OUT (default /verif/build)
set -e
REPO=${1:-${REPO:-/repo}}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${SIM_OUT:-$HERE/../build}
mkdir -p "$OUT/obj" "$OUT/gen"
export CCACHE_DISABLE=1 LC_ALL=C.UTF-8
FLAGS="-std=c++2a -O1 -fno-tree-fre -fno-tree-dominator-opts -g1 -fno-omit-frame-pointer -fsanitize=thread -fno-builtin-printf -fno-gnu-unique -w"
INC="-I$REPO/src/include -I$REPO/src/fingerprint/include -I$REPO/src/util/include"
exec 9>"$OUT/lock"; flock 9
# the headers' digest: any change rebuilds everything
HD=$( { echo "$FLAGS"; g++ --version; find "$REPO/src" -name '*.h' -o -name '*.hpp' | sort | xargs sha256sum; } | sha256sum | cut -c1-16)
JOBS=()
OBJS=()
cmds="$OUT/cmds"; : > "$cmds"
nolong=1; [ -f "$REPO/third_party/bigint/src/bigint.cpp" ] && nolong=0
for f in $(find "$REPO/src" -name '*.cpp' | sort); do
	b=$(basename "$f" .cpp)
	src=$f; extra=
	if [ $nolong = 1 ]; then
		[ "$b" = FingerprintLONG ] && continue
		if [ "$b" = FingerprintStrategy ]; then
			{ echo '#line 1 "src/FingerprintStrategy.cpp"'; sed 's/^.*FingerprintLONG.*$//' "$f"; } > "$OUT/gen/FingerprintStrategy.cpp.new"
			cmp -s "$OUT/gen/FingerprintStrategy.cpp.new" "$OUT/gen/FingerprintStrategy.cpp" || cp "$OUT/gen/FingerprintStrategy.cpp.new" "$OUT/gen/FingerprintStrategy.cpp"
			src="$OUT/gen/FingerprintStrategy.cpp"
		fi
	else
		extra="-I$REPO/third_party"
	fi
	[ "$b" = Funge ] && extra="$extra -Dmain=funge_main_cpp"
	d=$(sha256sum < "$src" | cut -c1-16)
	o="$OUT/obj/$b-$HD-$d.o"
	OBJS+=("$o")
	[ -f "$o" ] || { rm -f "$OUT/obj/$b"-*.o; echo "g++ $FLAGS $extra $INC -c $src -o $o.tmp && mv $o.tmp $o" >> "$cmds"; }
done
if [ $nolong = 0 ]; then
	f=$REPO/third_party/bigint/src/bigint.cpp; o="$OUT/obj/bigint-$HD.o"; OBJS+=("$o"); [ -f "$o" ] || echo "g++ $FLAGS -I$REPO/third_party -c $f -o $o.tmp && mv $o.tmp $o" >> "$cmds"
fi
RD=$(cat "$HERE/rt.cpp" "$HERE/shm.h" "$HERE/build.sh" | sha256sum | cut -c1-16)
RT="$OUT/obj/_rt-$RD.o"
[ -f "$RT" ] || echo "g++ -std=c++20 -O2 -g1 -fno-omit-frame-pointer -fno-exceptions -fno-builtin -Wall -Wno-misleading-indentation -Wno-maybe-uninitialized -Wno-nonnull-compare -Wno-unused-function -U_FORTIFY_SOURCE -c $HERE/rt.cpp -o $RT.tmp && mv $RT.tmp $RT" >> "$cmds"
DFILES=$(ls "$HERE"/driver/*.cpp 2>/dev/null || true)
DH=$(cat "$HERE"/driver/*.h "$HERE/shm.h" 2>/dev/null | sha256sum | cut -c1-16)
DOBJ=()
for f in $DFILES; do
	b=$(basename "$f" .cpp); d=$(sha256sum < "$f" | cut -c1-16); o="$OUT/obj/_d_$b-$DH-$d.o"; DOBJ+=("$o")
	[ -f "$o" ] || { rm -f "$OUT/obj/_d_$b"-*.o; echo "g++ -std=c++20 -O1 -g1 -Wall -Wno-misleading-indentation -I$HERE -c $f -o $o.tmp && mv $o.tmp $o" >> "$cmds"; }
done
if [ -s "$cmds" ]; then
	xargs -P 8 -d '\n' -I{} bash -c '{}' < "$cmds" || { echo "build failed" >&2; exit 2; }
fi
ST=$(printf '%s\n' "${OBJS[@]}" "$RT" | sha256sum | cut -c1-16)
if [ "$(cat "$OUT/sim.stamp" 2>/dev/null)" != "$ST" ] || [ ! -x "$OUT/sim" ]; then
	g++ -o "$OUT/sim.tmp" "${OBJS[@]}" "$RT" -rdynamic -pthread -ldl -Wl,-z,now && mv "$OUT/sim.tmp" "$OUT/sim" && echo "$ST" > "$OUT/sim.stamp"
fi
if [ ${#DOBJ[@]} -gt 0 ]; then
	ST=$(printf '%s\n' "${DOBJ[@]}" | sha256sum | cut -c1-16)
	if [ "$(cat "$OUT/drv.stamp" 2>/dev/null)" != "$ST" ] || [ ! -x "$OUT/drv" ]; then
		g++ -o "$OUT/drv.tmp" "${DOBJ[@]}" -pthread && mv "$OUT/drv.tmp" "$OUT/drv" && echo "$ST" > "$OUT/drv.stamp"
	fi
fi
