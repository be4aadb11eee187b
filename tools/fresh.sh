# Sourced by the checks. Cargo trusts modification times; when the contents of /repo's sources differ from
# those of the last build, drop the fingerprints of the lapex crates so that they are rebuilt.
mkdir -p target
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
  for d in target/debug/.fingerprint/lapex*; do [ -e "$d" ] && rm -rf "$PWD/$d"; done
  echo "$sum" > target/.repo-sum
fi
