mod hb;
use hb::*;
use nt_hive::*;
fn main() {
    let mut h = Hb::new();
    let mut a = vec![b'a', 0].repeat(SEG / 2);
    let n = a.len();
    a[n - 2] = 0;
    let mut c = vec![0, 0, b'x', 0, 0, 0];
    let s1 = h.cell(&a);
    let s2 = h.cell(&c);
    let d = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 7, (SEG + c.len()) as u32, d);
    c.clear();
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    let mut i = v.multi_string_data().unwrap();
    assert_eq!(i.next().unwrap().unwrap().len(), SEG / 2 - 1);
    assert!(i.next().is_none());
}
