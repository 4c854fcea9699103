#!/bin/bash
# tools/seedtest.sh SCRATCH ID...: in the scratch copy of /repo, confirm each planted bug:
# builds, passes the stable tests, demo fails with it and passes without it.
S=$1; shift
[ -d "$S" ] || cp -a /repo "$S"
SD=/verif/seeded
export HOME=/root CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TARGET_DIR=$S/target
unset RUSTFLAGS RUSTDOCFLAGS RUST_BACKTRACE
STABLE=1.86.0; NIGHTLY=nightly-2025-04-15
cd "$S" || exit 2
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD
for id in "$@"; do
  git checkout -q -- .
  if [ -z "$NOCLEAN" ]; then
    bash $SD/$id/demo.sh > /tmp/seed-$id.clean.log 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/seed-$id.clean.log; continue; }
  fi
  git apply $SD/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  bad=
  if [ -z "$NOTEST" ]; then
  L=$S/target/vp-logs; rm -rf "$L"; mkdir -p "$L"
  ( RUSTUP_TOOLCHAIN=$STABLE cargo test --workspace --all-targets --no-run --offline &&
    RUSTUP_TOOLCHAIN=$NIGHTLY cargo test --workspace --all-targets --all-features --no-run --offline ) > /tmp/seed-$id.build.log 2>&1 || { echo "$id: DOES NOT BUILD"; grep -E '^error' -A8 /tmp/seed-$id.build.log | head -30; git checkout -q -- .; continue; }
  run() { RUSTUP_TOOLCHAIN=$1 timeout 200 cargo test --workspace --no-fail-fast --offline "${@:3}" -- --test-threads 8 > "$L/$2.log" 2>&1; }
  run $STABLE stable --all-targets; run $STABLE stable-doc --doc; run $NIGHTLY nightly --all-features --all-targets; run $NIGHTLY nightly-doc --all-features --doc
  python3 /opt/vp/results.py /tmp/seed-$id.json "cargo:$L/*.log" >/dev/null 2>&1
  bad=$(python3 - $id <<'P'
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
r=json.load(open(f"/tmp/seed-{sys.argv[1]}.json"))
p=r.get("passed") or [k for k,v in r.items() if v in("pass","passed",True)]
m=sorted(set(b)-set(p))
print(" ".join(m[:8]))
P
)
  fi
  bash $SD/$id/demo.sh > /tmp/seed-$id.demo.log 2>&1 && d="DEMO PASSES WITH PATCH" || d="ok"
  grep -q "error: could not compile\|error\[E" /tmp/seed-$id.demo.log && d="$d (demo compile error)"
  echo "$id: demo=$d tests=${bad:-ok}"
  git checkout -q -- .
done
