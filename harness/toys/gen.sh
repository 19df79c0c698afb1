#!/bin/bash
# gen.sh <repo>: makes ./gen, a library crate of the toys binary's own sources (main.rs' module list made public).
# Files are only replaced when they differ, so that an unchanged tree is not rebuilt.
repo="$1"; here="$(cd "$(dirname "$0")" && pwd)"
exec 8>"$here/../../.gen.lock"; flock 8
t="$(mktemp -d)"; trap '/bin/rm -rf "$t"' EXIT
mkdir -p "$t/src" "$here/gen"
cp -r "$repo"/toys/src/. "$t/src/" || exit 1
[ -f "$t/src/main.rs" ] && { sed -nE 's/^(pub(\([a-z]+\))? )?mod ([a-z_0-9]+);.*/pub mod \3;/p' "$t/src/main.rs" >> "$t/src/lib.rs"; /bin/rm -f "$t/src/main.rs"; }
{ printf '[package]\nname = "toys-under-test"\nversion = "0.1.0"\nedition = "2021"\n[lib]\n'
  sed -n '/^\[dependencies\]/,/^\[dev-dependencies\]/p' "$repo/toys/Cargo.toml" | grep -v '^\[dev-dependencies\]' | sed "s#path *= *\"\.\./#path = \"$repo/#"
} > "$t/Cargo.toml"
echo "pub use oni_comb_parser_rs as parser_crate;" >> "$t/src/lib.rs"
cd "$t" && find . -type f | while read -r f; do
  mkdir -p "$here/gen/$(dirname "$f")"
  cmp -s "$f" "$here/gen/$f" || cp "$f" "$here/gen/$f"
done
cd "$here/gen" && find . -type f -not -name Cargo.lock | while read -r f; do [ -f "$t/$f" ] || /bin/rm -f "$here/gen/$f"; done
exit 0
