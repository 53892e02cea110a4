# Build functions shared by setup.sh and check.sh. Sourced with cwd /verif.
V="$(pwd)"
. "$V/env.sh"
REPO="${NEXO_REPO:-/repo}"
mkdir -p "$V/target" "$V/evidence" "$V/replays"
build_chaos() {
  if [ ! -e "$V/target/libchaos.so" ] || [ "$V/chaos/chaos.c" -nt "$V/target/libchaos.so" ]; then
    gcc -O2 -Wall -shared -fPIC -o "$V/target/libchaos.so.$$" "$V/chaos/chaos.c" -ldl -lpthread && mv "$V/target/libchaos.so.$$" "$V/target/libchaos.so"
  fi
}
build_mon() {
  (cd "$V/mon" && cargo build --release --offline --locked --target-dir "$V/target/mon" -q)
}
# Always rebuilt from the current working tree of /repo: sources are copied so that cargo sees their content, not their mtime.
build_server() {
  local src="$V/target/src"
  mkdir -p "$src"
  python3 "$V/tools/sync.py" "$REPO" "$src"
  mkdir -p "$src/dashboard/dist"
  (cd "$src" && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --bin nexo --offline --locked --target-dir "$V/target/server" -q 2>"$V/target/server-build.log") || { cat "$V/target/server-build.log" >&2; return 1; }
}
