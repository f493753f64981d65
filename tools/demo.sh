#!/bin/bash
# builds the offline part of /repo's crate in a scratch folder and runs demo.rs against it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$d"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" TZ=UTC PATH="/root/.cargo/bin:$PATH" RUSTFLAGS="-Awarnings"
python3 - "$d" <<'P' || exit 3
import os, re, sys
d, repo = sys.argv[1], os.getcwd()
out = ["src/model", "src/tools/dap.rs", "src/buoy_station.rs", "src/data/gfs_wave_grib_point_data_record.rs",
       "src/data/latest_obs_data_record.rs", "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs"]
for base, _, names in os.walk(os.path.join(repo, "src")):
    for n in names:
        p = os.path.join(base, n)
        rel = os.path.relpath(p, repo)
        t = open(p).read()
        if n in ("mod.rs", "lib.rs"):
            def keep(m):
                s = os.path.join(os.path.dirname(rel), m.group(2))
                return "\n" if s in out or s + ".rs" in out else m.group(0)
            t = re.sub(r"^[ \t]*(pub[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, t, flags=re.M)
        os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
        open(os.path.join(d, rel), "w").write(t)
t = open(os.path.join(repo, "Cargo.toml")).read()
t = re.sub(r"^(gribberish|readap)\s*=.*\n", "", t, flags=re.M)
t = re.sub(r"^\[dev-dependencies\].*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
open(os.path.join(d, "Cargo.toml"), "w").write(t)
open(os.path.join(d, "Cargo.lock"), "w").write(open(os.path.join(repo, "Cargo.lock")).read())
P
mkdir -p "$d/examples" && cp "$here/demo.rs" "$d/examples/demo.rs"
cd "$d" && cargo build --offline -q --example demo && exec_rc=0 || exit 3
timeout 120 "$d/target/debug/examples/demo"
