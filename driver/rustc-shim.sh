#!/bin/bash
# Stands in for rustc: the `posy` crate goes through the fact-dumping driver, every other crate
# through the real compiler (shown to build scripts as a stable compiler).
T=${SA_SYSROOT:?}
R=$T/bin/rustc
isposy=0; prev=
for a in "$@"; do
  case "$a" in -vV|-V|--version) "$R" "$@" | sed 's/-nightly//'; exit;; esac
  [ "$prev" = --crate-name ] && [ "$a" = posy ] && isposy=1
  prev=$a
done
if [ $isposy = 1 ]; then export LD_LIBRARY_PATH=$T/lib; exec "$SA_DRIVER" "$@"; fi
exec "$R" "$@"
