#!/bin/bash
# Run the whole upstream test suite of akasa-core (it does not build in /repo because mqtt-proto
# is a git dependency) against the mqtt-proto stand-in, in a scratch copy under /tmp.
set -e
D=/tmp/up
mkdir -p $D
rsync -a --delete --exclude target --exclude .git /repo/ $D/ 2>/dev/null || { find $D -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +; (cd /repo && tar cf - --exclude=target --exclude=.git .) | (cd $D && tar xf -); }
sed -i 's#members = .*#members = ["akasa-core"]#; s#^mqtt-proto = { git.*#mqtt-proto = { path = "/verif/mqtt-proto" }#' $D/Cargo.toml
cd $D && cargo test --offline -p akasa-core --all-features 2>&1 | grep -E "^test result|FAILED|failed|^error|panicked" | head -40
