#!/bin/bash
# Generates thin crates (under /verif/build/gen) whose modules are /repo's own source files.
# Nothing of /repo is copied: every module is reached through #[path].
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
G=${GEN:-$V/build/gen}
mkdir -p "$G" "$G/ecc/src/zkcuda" "$G/std/src"
put() { # file: write stdin only if different
  local t; t=$(mktemp "$G/.XXXXXX"); cat > "$t"
  if cmp -s "$t" "$1"; then rm -f "$t"; else mkdir -p "$(dirname "$1")"; mv "$t" "$1"; fi
}
# rewrite "mod x;" of file $1 (whose submodules live in dir $2) to absolute paths, dropping those matching $3
paths() {
  local drop="${3:-^$}"
  while IFS= read -r line || [ -n "$line" ]; do
    if [[ "$line" =~ ^[[:space:]]*(pub(\([a-z]+\))?[[:space:]]+)?mod[[:space:]]+(r#)?([A-Za-z0-9_]+)\;[[:space:]]*$ ]]; then
      local m="${BASH_REMATCH[4]}"
      if [[ "$m" =~ $drop ]]; then echo "// dropped: $line"; continue; fi
      local p="$2/$m.rs"; [ -f "$p" ] || p="$2/$m/mod.rs"
      if [[ "$p" == "$2/$m.rs" && -d "$2/$m" ]]; then
        # x.rs with children in x/: its own "mod" lines need rewriting too
        local q="$G/mods${p//\//_}"
        paths "$p" "$2/$m" "$drop" | put "$q"; p="$q"
      fi
      echo "#[path = \"$p\"]"
    fi
    echo "$line"
  done < "$1"
}
S=$R/expander_compiler/src
Z=$S/zkcuda
# proving_system: only the parts that do not need Expander's prover
modfile() { [ -f "$1.rs" ] && echo "$1.rs" || echo "$1/mod.rs"; }
sed -E '/^pub use expander/d' "$(modfile "$Z/proving_system")" > "$G/.ps"
paths "$G/.ps" "$Z/proving_system" '^expander' | put "$G/ecc/src/zkcuda/proving_system.rs"
sed -E '/^#\[cfg\(test\)\]/d' "$(modfile "$Z")" > "$G/.z"
paths "$G/.z" "$Z" '^(tests|proving_system)$' > "$G/.z2"
echo "#[path = \"$G/ecc/src/zkcuda/proving_system.rs\"] pub mod proving_system;" >> "$G/.z2"
put "$G/ecc/src/zkcuda/mod.rs" < "$G/.z2"
paths "$S/lib.rs" "$S" '^zkcuda$' > "$G/.l"
echo "#[path = \"$G/ecc/src/zkcuda/mod.rs\"] pub mod zkcuda;" >> "$G/.l"
put "$G/ecc/src/lib.rs" < "$G/.l"
put "$G/ecc/Cargo.toml" <<T
[package]
name = "expander_compiler"
version = "0.1.0"
edition = "2021"
[lib]
doctest = false
[dependencies]
arith = { path = "$V/stubs/arith" }
babybear = { path = "$V/stubs/babybear" }
crosslayer_prototype = { path = "$V/stubs/crosslayer_prototype" }
expander_circuit = { path = "$V/stubs/expander_circuit" }
gf2 = { path = "$V/stubs/gf2" }
gkr = { path = "$V/stubs/gkr" }
gkr_engine = { path = "$V/stubs/gkr_engine" }
goldilocks = { path = "$V/stubs/goldilocks" }
mersenne31 = { path = "$V/stubs/mersenne31" }
serdes = { path = "$V/stubs/serdes" }
halo2curves = { path = "$V/stubs/halo2curves" }
macros = { path = "$R/expander_compiler/macros" }
ark-std = "0.4.0"
chrono = "0.4.39"
clap = { version = "4.5.30", features = ["derive"] }
ethnum = "1.5.0"
num_cpus = "1.16.0"
once_cell = "1.21.3"
rand = "0.8.5"
rayon = "1.10.0"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
tiny-keccak = { version = "2.0", features = ["keccak"] }
[dev-dependencies]
sha2 = "0.10.8"
T
C=$R/circuit-std-rs/src
paths "$C/lib.rs" "$C" '^(gnark|tests)$' | grep -v '^#\[cfg(test)\]$' > "$G/.c"
# the BLS12-381 gadgets need arkworks, which is not available: their hint functions, which
# utils.rs registers by name, are replaced by ones that refuse
cat >> "$G/.c" <<T
pub mod gnark { pub mod hints {
use expander_compiler::frontend::{Error, M31};
$(sed -nE 's/^pub fn ([a-z0-9_]+)\(inputs: .*/pub fn \1(_: \&[M31], _: \&mut [M31]) -> Result<(), Error> { Err(Error::UserError("no arkworks".into())) }/p' "$C/gnark/hints.rs")
} }
T
put "$G/std/src/lib.rs" < "$G/.c"
put "$G/std/Cargo.toml" <<T
[package]
name = "circuit-std-rs"
version = "0.1.0"
edition = "2021"
[lib]
doctest = false
[dependencies]
expander_compiler = { path = "../ecc" }
arith = { path = "$V/stubs/arith" }
gkr = { path = "$V/stubs/gkr" }
gf2 = { path = "$V/stubs/gf2" }
gkr_hashers = { path = "$V/stubs/gkr_hashers" }
expander_circuit = { path = "$V/stubs/expander_circuit" }
mersenne31 = { path = "$V/stubs/mersenne31" }
halo2curves = { path = "$V/stubs/halo2curves" }
num-bigint = { path = "$V/stubs/num-bigint" }
serdes = { path = "$V/stubs/serdes" }
num-traits = "0.2.19"
rand = "0.8.5"
sha2 = "0.10.8"
ethnum = "1.5.0"
tiny-keccak = { version = "2.0", features = ["keccak"] }
T
