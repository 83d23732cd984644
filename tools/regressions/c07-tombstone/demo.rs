mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 4, 0x8000_0004, 7);
    h.d[v as usize + 4 + 16] |= 2;
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.value("V").unwrap().unwrap().dword_data().unwrap(), 7);
}
