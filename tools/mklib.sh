#!/bin/bash
# developer helper: mklib.sh ID ENTRY INPUTS PLATFORM INLINES: a demonstration that loads the saved input through the library
i=$1; d=/verif/seeded/$i; rm -rf /tmp/vhfs; mkdir -p /tmp/vhfs; rm -f $d/in*
VH_INPUTS=$3 VH_SAVE=/tmp/vhfs/in VH_TIER=0 /verif/build/ir/vh $2 2>/dev/null; mv /tmp/vhfs/in* $d/; rm -rf /tmp/vhfs
cat > $d/demo.rs <<R
use dump_syms::{object_info::ObjectInfo, platform::Platform};
fn main() {
    let mut a = std::env::args().skip(1); let buf = std::fs::read(a.next().unwrap()).unwrap();
    let mut out = vec![]; ObjectInfo::from_elf(&buf, "lib.so", Platform::$4, None, $5).unwrap().dump(&mut out).unwrap();
    match a.next() { Some(e) => assert_eq!(String::from_utf8_lossy(&out), String::from_utf8_lossy(&std::fs::read(e).unwrap())), None => print!("{}", String::from_utf8_lossy(&out)) }
}
R
cat > $d/demo.sh <<'R'
#!/bin/bash
# compiles demo.rs against the library built in this directory and compares its dump of the input with what a correct dump_syms gives
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d)
rustc --edition 2021 -C debuginfo=0 --extern dump_syms=target/debug/libdump_syms.rlib -L dependency=target/debug/deps -o "$W/demo" "$D/demo.rs" || { rm -rf "$W"; exit 99; }
cd "$W" && timeout 60 ./demo "$D/in0" "$D/expected.sym"; rc=$?
cd / && rm -rf "$W"; exit $rc
R
cd /repo && rustc --edition 2021 --extern dump_syms=target/debug/libdump_syms.rlib -L dependency=target/debug/deps -o /tmp/mklib $d/demo.rs && /tmp/mklib $d/in0 > $d/expected.sym; cat $d/expected.sym; rm -f /tmp/mklib
