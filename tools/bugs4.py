BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c05-long-root", "C05",
    "an index root of more than 32767 leaves",
    "Lookups in it find nothing.",
    [("src/key_node.rs", "        let mut right = index_root_item_ranges.len() as i32 - 1;\n", "        let mut right = (index_root_item_ranges.len() as i16 - 1) as i32;\n")],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    let la = h.list(b"li", &[a]);
    let lb = h.list(b"li", &[b]);
    let mut all = vec![la; 40000];
    all.push(lb);
    let l = h.list(b"ri", &all);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 40001);
    let bytes = h.finish(root);
    let hive = Hive::new(bytes.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.subkey("B").unwrap().unwrap().name().unwrap(), "b");
    assert_eq!(k.subkey("A").unwrap().unwrap().name().unwrap(), "a");
}
''')

bug("c07-tombstone", "C07",
    "a value whose flags have the bit 2",
    "It is not found by its name.",
    [("src/key_value.rs", "        const VALUE_COMP_NAME = 0x0001;\n", "        const VALUE_COMP_NAME = 0x0001;\n        /// The value has been deleted in this layer.\n        const VALUE_TOMBSTONE = 0x0002;\n"),
     ("src/key_value.rs", "    fn validate_signature(&self) -> Result<()> {\n", '''    /// Whether this value only marks a deleted one.
    pub(crate) fn is_tombstone(&self) -> bool {
        KeyValueFlags::from_bits_truncate(self.header().flags.get())
            .contains(KeyValueFlags::VALUE_TOMBSTONE)
    }

    fn validate_signature(&self) -> Result<()> {
'''),
     ("src/key_node.rs", "            if key_value_name == name {\n", "            if key_value_name == name && !key_value.is_tombstone() {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 4, 0x8000_0004, 7);
    h.d[v as usize + 4 + 16] |= 2;
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.value("V").unwrap().unwrap().dword_data().unwrap(), 7);
}
''')

bug("c07-predefined", "C07",
    "a key that has values and the flag KEY_PREDEF_HANDLE",
    "It seems to have no values.",
    [("src/key_node.rs", '''        let key_values_list_offset = header.key_values_list_offset.get();
        if key_values_list_offset == u32::MAX {
''', '''        let key_values_list_offset = header.key_values_list_offset.get();
        let flags = KeyNodeFlags::from_bits_truncate(header.flags.get());
        if key_values_list_offset == u32::MAX || flags.contains(KeyNodeFlags::KEY_PREDEF_HANDLE) {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 4, 0x8000_0004, 7);
    let root = h.key(b"root", true);
    h.d[root as usize + 4 + 2] |= 0x40;
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.values().is_some());
    assert_eq!(k.value("V").unwrap().unwrap().dword_data().unwrap(), 7);
}
''')

bug("c14-skips-links", "C14",
    "a volatile subkey count below a key with the flag KEY_SYM_LINK",
    "It is not cleared.",
    [("src/key_node.rs", '''        header.volatile_subkey_count.set(0);

''', '''        header.volatile_subkey_count.set(0);

        // A link has no subkeys of its own.
        let flags = KeyNodeFlags::from_bits_truncate(header.flags.get());
        if flags.contains(KeyNodeFlags::KEY_SYM_LINK) {
            return Ok(());
        }

''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    h.set_vol(a, 5);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.d[root as usize + 4 + 2] |= 0x10;
    h.set_sub(root, l, 1);
    let mut b = h.finish(root);
    let mut hive = Hive::new(b.as_mut_slice()).unwrap();
    hive.clear_volatile_subkeys().unwrap();
    drop(hive);
    assert_eq!(b[4096 + a as usize + 4 + 24], 0);
}
''')

bug("c04-hides-volatile", "C04",
    "a subkey with the flag KEY_IS_VOLATILE in a list of one leaf",
    "Enumeration leaves it out.",
    [("src/leaf.rs", '''        let leaf_item_range = self.leaf_item_ranges.next()?;
        let key_node = iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
        Some(Ok(key_node))
''', '''        loop {
            let leaf_item_range = self.leaf_item_ranges.next()?;
            let key_node = iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
            // Volatile keys don't exist after a reboot.
            if !key_node.is_volatile() {
                return Some(Ok(key_node));
            }
        }
'''),
     ("src/key_node.rs", '''    /// Returns the class name of this Key Node (if any).
''', '''    pub(crate) fn is_volatile(&self) -> bool {
        let flags = self.item_range.header(self.hive).flags.get();
        KeyNodeFlags::from_bits_truncate(flags).contains(KeyNodeFlags::KEY_IS_VOLATILE)
    }

    /// Returns the class name of this Key Node (if any).
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    h.d[a as usize + 4 + 2] |= 1;
    let l = h.list(b"lf", &[a, b]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let names: Vec<String> = k.subkeys().unwrap().unwrap().map(|x| x.unwrap().name().unwrap().to_string_lossy()).collect();
    assert_eq!(names, ["a", "b"]);
}
''')

bug("c06-depth-limit", "C06",
    "a path of more than 512 components",
    "It is not found.",
    [("src/key_node.rs", '''            if !component.is_empty() {
                key_node_item_range = iter_try!(key_node_item_range.subkey(hive, component)?);
            }
''', '''            if !component.is_empty() {
                // The registry supports at most 512 levels.
                if depth == 512 {
                    return None;
                }
                depth += 1;
                key_node_item_range = iter_try!(key_node_item_range.subkey(hive, component)?);
            }
'''), ("src/key_node.rs", '''        let mut key_node_item_range = self.clone();

''', '''        let mut key_node_item_range = self.clone();
        let mut depth = 0;

''')],
    '''fn main() {
    let mut h = Hb::new();
    let mut at = h.key(b"end", true);
    for _ in 0..600 {
        let l = h.list(b"lf", &[at]);
        at = h.key(b"a", true);
        h.set_sub(at, l, 1);
    }
    let b = h.finish(at);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let p = "a\\\\".repeat(599) + "end";
    assert_eq!(k.subpath(&p).unwrap().unwrap().name().unwrap(), "end");
}
''')

bug("c12-padded-name", "C12",
    "a Latin-1 name that ends with a NUL character",
    "The NUL is cut off.",
    [("src/key_node.rs", '''            Ok(NtHiveNameString::Latin1(key_name_bytes))
''', '''            // Some writers include the terminating NUL.
            let key_name_bytes = key_name_bytes.strip_suffix(&[0]).unwrap_or(key_name_bytes);
            Ok(NtHiveNameString::Latin1(key_name_bytes))
''')],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root\\0", true);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.name().unwrap().len(), 5);
}
''')

bug("c10-long-text", "C10",
    "a text of more than 65376 bytes (four big data segments)",
    "It is cut.",
    [("src/key_value.rs", "            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(iter),\n",
      "            // A string has at most 64 KiB.\n            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(iter.take(4)),\n")],
    '''fn main() {
    let mut h = Hb::new();
    let units = 70000usize;
    let bytes = utf16(&"x".repeat(units));
    let segs: Vec<u32> = bytes.chunks(SEG).map(|c| h.cell(c)).collect();
    let db = h.big(&segs);
    let v = h.value(b"v", true, 1, bytes.len() as u32, db);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.string_data().unwrap().len(), units);
}
''')

bug("c11-first-255", "C11",
    "two names that differ only behind their 255th character",
    "They compare as equal.",
    [("src/string.rs", '''        loop {
            match (this_iter.next(), other_iter.next()) {
''', '''        // Names have at most 255 characters.
        for _ in 0..255 {
            match (this_iter.next(), other_iter.next()) {
'''), ("src/string.rs", '''                    // We made it to the end of both strings, so they must be equal.
                    return Ordering::Equal;
                }
            }
        }
    }
''', '''                    // We made it to the end of both strings, so they must be equal.
                    return Ordering::Equal;
                }
            }
        }

        Ordering::Equal
    }
''')],
    '''fn main() {
    let a = "x".repeat(300);
    let b = "x".repeat(299) + "y";
    assert!(NtHiveNameString::Latin1(a.as_bytes()) < b.as_str());
}
''')
