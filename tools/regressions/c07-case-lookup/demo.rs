mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let v1 = h.value_cell(&[0xe4], 3, &[1]);
    let v2 = h.value_cell(&[0xc4], 3, &[2]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v1, v2]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let first = k.values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(k.value("\u{c4}").unwrap().unwrap() == first);
}
