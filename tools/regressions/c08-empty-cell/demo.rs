mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let c = h.cell(&[0; 8]);
    let v = h.value(b"v", true, 3, 0, c);
    h.put32(c as usize, 16);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.data().is_err());
}
