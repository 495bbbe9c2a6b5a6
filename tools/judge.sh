#!/bin/bash
# judge.sh PATCH CHECK...: runs quick checks of the committed simulator in a scratch copy against a patched copy of the
# repository, $J.
J=${J:-/tmp/j}
root=$(dirname "$(dirname "$(readlink -f "$0")")")
patch=$(readlink -f "$1"); shift
mkdir -p $J/v
[ -d $J/repo ] || cp -a /repo $J/repo
cd $J/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply "$patch" || exit 3
mkdir -p $J/v/sim && cp -a "$root/sim/src" "$root/sim/Cargo.lock" $J/v/sim/ && cp "$root/known_findings.txt" $J/v/
sed "s#\"/repo\"#\"$J/repo\"#" "$root/sim/Cargo.toml" >$J/v/sim/Cargo.toml
cd $J/v && (cd sim && cargo build --release --offline 2>&1 | grep -E "^error" ) && exit 3
cp "$root/sim/builds.sh" $J/v/sim/
for c in "$@"; do
    if [ $c = C20 ]; then bash sim/builds.sh 2>&1 | grep -E "^error" && exit 3; fi
    out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./sim/target/release/rgbsim check $c quick 2>&1); rc=$?
    echo "$(basename "$(dirname "$patch")") $c rc=$rc $(echo "$out" | grep -E "VIOLATION|^  |quick:" | head -2 | tr '\n' ' ' | cut -c1-330)"
    [ -n "$NOTES" ] && echo "$out" | grep note: | cut -c1-300
done
