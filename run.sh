#!/bin/bash
# usage: run.sh ID            decide one property (VERIF_TIER=quick|thorough)
#        run.sh --replay FILE replay a recorded violation
#        run.sh --build       build only
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/.build"
B="$V/.build"
harness() { # overlay, binary, flags
	GOMODCACHE="$B/modcache" GOFLAGS=-mod=readonly go build $3 -overlay "$1" -o "$2" ./zz_verifmc
}
build() (
	flock 9
	cd /repo || exit 2
	case "$1" in
	C22)
		python3 "$V/tools/mkoverlay.py" --sched && harness "$B/overlay_sched.json" "$B/mc_sched" &&
			harness "$B/overlay_sched.json" "$B/mc_race" -race || exit 2
		;;
	C23)
		python3 "$V/tools/mkoverlay.py" && harness "$B/overlay.json" "$B/mc" &&
			GOFLAGS=-mod=readonly go build -overlay "$B/overlay_http.json" -o "$B/tool" ./cmd || exit 2
		;;
	*)
		python3 "$V/tools/mkoverlay.py" && harness "$B/overlay.json" "$B/mc" || exit 2
		;;
	esac
) 9>"$B/lock"
bin="$B/mc"
case "$1" in
--build)
	for i in C22 C23; do build $i || exit 2; done
	exit 0
	;;
--replay)
	id="$(basename "$2" | cut -d- -f1)"
	build "$id" || exit 2
	[ "$id" = C22 ] && bin="$B/mc_sched"
	exec "$bin" -verif "$V" -replay "$2"
	;;
*)
	build "$1" || exit 2
	[ "$1" = C22 ] && bin="$B/mc_sched"
	exec "$bin" -verif "$V" -check "$1" "${@:2}"
	;;
esac
