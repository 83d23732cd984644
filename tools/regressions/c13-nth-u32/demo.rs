mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, &[1]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v, v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let mut i = k.values().unwrap().unwrap();
    assert!(i.nth(1 << 32).is_none());
}
