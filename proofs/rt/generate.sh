#!/bin/bash
# generate.sh REPO CRATE TARGET: write CRATE/src/gen.rs, the code that REPO's compiler generates for the corpus.
# The only change to it: the derives of serde's traits are left out. Exit 10: the compiler does not generate code.
set -u
cd "$1" || exit 1
CARGO_TARGET_DIR="$3" cargo build --offline --quiet --bin planus 2>&1 || exit 1
"$3/debug/planus" rust --format false -o "$2/src/gen.rs" "$2/schemas/corpus.fbs" 2>&1 || exit 10
sed -i -E 's/,?\s*::serde::Serialize,\s*::serde::Deserialize//' "$2/src/gen.rs" || exit 1
! grep -q serde "$2/src/gen.rs" || exit 1
