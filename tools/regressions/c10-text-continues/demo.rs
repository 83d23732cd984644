mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let mut s = vec![0x41, 0, 0, 0];
    s.resize(SEG, 0x42);
    let s1 = h.cell(&s);
    let s2 = h.cell(&[0x43, 0]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 1, SEG as u32 + 2, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.string_data().unwrap(), "A");
}
