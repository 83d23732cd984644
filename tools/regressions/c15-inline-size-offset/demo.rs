mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 11, 0x8000_0004, 0x01020304);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let e = k.value("v").unwrap().unwrap().qword_data().unwrap_err();
    assert_eq!(e, NtHiveError::InvalidDataSize { offset: 4096 + v as usize + 4 + 8, expected: 8, actual: 4 });
}
