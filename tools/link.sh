#!/bin/bash
# the linker of the harness build: links, and keeps what is needed to link again with an object made from the marked IR
if [ -n "$VH_LINK_DIR" ] && [[ "$*" == *native.o* ]]; then
  mkdir -p "$VH_LINK_DIR"; : > "$VH_LINK_DIR/args"; k=0
  for a in "$@"; do
    case "$a" in
      @*) echo "response file" >&2; exit 1;;
      *.rcgu.o) echo "@OBJ@" >> "$VH_LINK_DIR/args";;
      */rustc??????/*) if [ -f "$a" ]; then k=$((k+1)); cp "$a" "$VH_LINK_DIR/$k-$(basename "$a")"; echo "$VH_LINK_DIR/$k-$(basename "$a")" >> "$VH_LINK_DIR/args"; else echo "$a" >> "$VH_LINK_DIR/args"; fi;;
      *) echo "$a" >> "$VH_LINK_DIR/args";;
    esac
  done
fi
exec cc "$@"
