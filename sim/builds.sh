#!/bin/bash
# Builds the simulator with other sets of features and other profiles (see BUILDS in driver.rs), next to the release build.
cd "$(dirname "$0")" || exit 2
pids=()
while read -r features profile; do
    cargo build --profile "$profile" --no-default-features --features "$features" --target-dir "target/$features" \
        --offline --locked </dev/null &
    pids+=($!)
done <<END
common shipped
least small
other checked
END
res=0
for p in "${pids[@]}"; do
    wait "$p" || res=1
done
exit $res
