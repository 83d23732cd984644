mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    h.minor = 4;
    let s1 = h.cell(&[7; SEG]);
    let s2 = h.cell(&[8; 12]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 3, SEG as u32 + 3, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.data().unwrap().into_vec().unwrap().len(), SEG + 3);
}
