BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c01-padded-empty-leaf", "C01",
    "looking up a subkey in an index root one of whose leaves has count 0 but a cell with room left",
    "The lookup panics (unwrap of the first item of an empty leaf).",
    [("src/leaf.rs", "        if count == 0 {\n            return Err(NtHiveError::InvalidSizeField {\n                offset: count_field_offset,\n                expected: 1,\n                actual: 0,\n            });\n        }\n",
      "        if subkeys_list.data_range.is_empty() {\n            return Err(NtHiveError::InvalidSizeField {\n                offset: count_field_offset,\n                expected: 1,\n                actual: 0,\n            });\n        }\n")],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l1 = h.list(b"lh", &[a]);
    h.put16(l1 as usize + 4 + 2, 0);
    let r = h.list(b"ri", &[l1]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.subkey("a"), Some(Err(NtHiveError::InvalidSizeField { .. }))));
}
''')

bug("c02-checksum-all-ones", "C02",
    "a base block whose first 127 dwords XOR to 0xFFFFFFFF",
    "The value 0xFFFFFFFF is no longer mapped to 0xFFFFFFFE, so a correct hive is rejected.",
    [("src/hive.rs", "        if calculated_checksum == 0 {\n            calculated_checksum += 1;\n        } else if calculated_checksum == u32::MAX {\n            calculated_checksum -= 1;\n        }\n",
      "        // Neither 0 nor -1 is a valid checksum.\n        if calculated_checksum == 0 || calculated_checksum as u16 as u32 == u32::MAX {\n            calculated_checksum ^= 1;\n        }\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let mut b = h.finish(root);
    let mut x = 0u32;
    for c in b[..508].chunks(4) {
        x ^= u32::from_le_bytes(c.try_into().unwrap());
    }
    b[100..104].copy_from_slice(&(!x).to_le_bytes());
    checksum(&mut b);
    assert_eq!(b[508..512], [0xFE, 0xFF, 0xFF, 0xFF]);
    assert!(Hive::new(b.as_slice()).is_ok());
}
''')

bug("c02-sequence-high-half", "C02",
    "sequence numbers that differ only in their upper 16 bits",
    "Such a hive is accepted.",
    [("src/hive.rs", "        if primary_sequence_number == secondary_sequence_number {\n",
      "        // The numbers may be a few steps apart when the counter has just wrapped.\n        if primary_sequence_number as u16 == secondary_sequence_number as u16 {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let mut b = h.finish(root);
    b[6] = 1;
    checksum(&mut b);
    assert!(matches!(Hive::new(b.as_slice()), Err(NtHiveError::SequenceNumberMismatch { .. })));
}
''')

bug("c03-segment-leaves-cell", "C03",
    "a big data segment whose cell is shorter than its share while enough hive data follows",
    "The slice of the segment extends beyond its cell instead of an error.",
    [("src/big_data.rs", "        let data_range = iter_try!(byte_subrange(&cell_range, bytes_to_return).ok_or_else(|| {\n",
      "        let remaining_range = cell_range.start..self.hive.data.len();\n        let data_range = iter_try!(byte_subrange(&remaining_range, bytes_to_return).ok_or_else(|| {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let s1 = h.cell(&[7; SEG]);
    let s2 = h.cell(&[8; 12]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 3, SEG as u32 + 13, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.data().unwrap().into_vec().is_err());
}
''')

bug("c03-class-name-leaves-cell", "C12",
    "a class name length larger than the cell it refers to, with enough hive data after that cell",
    "The class name then runs into the following cells instead of being an error.",
    [("src/key_node.rs", "        let class_name_range = iter_try!(byte_subrange(\n            &class_name_offset_range,\n            class_name_length\n        )\n",
      "        let class_name_range = iter_try!(byte_subrange(\n            &(class_name_offset_range.start..hive.data.len()),\n            class_name_length\n        )\n")],
    '''fn main() {
    let mut h = Hb::new();
    let c = h.cell(&utf16("ab"));
    let root = h.key(b"root", true);
    h.put32(root as usize + 4 + 48, c);
    h.put16(root as usize + 4 + 74, 6);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.class_name().unwrap().is_err());
}
''')

bug("c04-faulty-item-hides-leaf", "C04",
    "enumerating an index root in which an item that is not the last one of its leaf is unreadable",
    "The rest of that leaf is skipped silently.",
    [("src/index_root.rs", '''            if let Some(leaf_item_ranges) = self.leaf_item_ranges.as_mut() {
                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
''', '''            if let Some(mut leaf_item_ranges) = self.leaf_item_ranges.take() {
                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    self.leaf_item_ranges = Some(leaf_item_ranges);
                    return Some(Ok(key_node));
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    h.d[a as usize + 4] = b'x';
    let l = h.list(b"li", &[a, b]);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let mut it = hive.root_key_node().unwrap().subkeys().unwrap().unwrap();
    assert!(it.next().unwrap().is_err());
    assert_eq!(it.next().unwrap().unwrap().name().unwrap(), "b");
    assert!(it.next().is_none());
}
''')

bug("c05-long-leaf", "C05",
    "a subkey lookup in a leaf with more than 32767 items",
    "16-bit search boundaries turn negative, so nothing is ever found.",
    [("src/key_node.rs", '''        assert!(leaf_item_ranges.len() <= u16::MAX as usize);
        let mut left = 0i32;
        let mut right = leaf_item_ranges.len() as i32 - 1;

        while left <= right {
            // Select the middle Leaf item given the current boundaries and get its name.
            let mid = (left + right) / 2;
''', '''        assert!(leaf_item_ranges.len() <= u16::MAX as usize);
        let mut left = 0i16;
        let mut right = (leaf_item_ranges.len() as i16).wrapping_sub(1);

        while left <= right {
            // Select the middle Leaf item given the current boundaries and get its name.
            let mid = left + (right - left) / 2;
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    let mut offs = vec![a; 20000];
    offs.extend(vec![b; 20000]);
    let l = h.list(b"li", &offs);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 40000);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subkey("b").is_some());
    assert!(k.subkey("c").is_none());
}
''')

bug("c05-fold-order", "C05",
    "names containing a character between the upper- and lowercase letters ('_', '[', '^', ...) next to letters, in registry order",
    "The search direction is taken from the unfolded first code unit, so such keys are missed.",
    [("src/key_node.rs", '''            // Check if it's the name we are looking for, otherwise adjust the boundaries accordingly.
            match key_node_name.partial_cmp(name).unwrap() {
                Ordering::Equal => return Some(Ok(key_node_item_range)),
''', '''            // Check if it's the name we are looking for, otherwise adjust the boundaries accordingly.
            // Most names already differ in their first letter.
            let ordering = match (&key_node_name, name.as_bytes()) {
                (NtHiveNameString::Latin1(bytes), [first, ..])
                    if !bytes.is_empty()
                        && bytes[0].is_ascii()
                        && first.is_ascii()
                        && !bytes[0].eq_ignore_ascii_case(first) =>
                {
                    bytes[0].to_ascii_lowercase().cmp(&first.to_ascii_lowercase())
                }
                _ => key_node_name.partial_cmp(name).unwrap(),
            };
            match ordering {
                Ordering::Equal => return Some(Ok(key_node_item_range)),
''')],
    '''fn main() {
    let mut h = Hb::new();
    let offs: Vec<u32> = ["a", "b", "z", "_x"].iter().map(|n| h.key(n.as_bytes(), true)).collect();
    let l = h.list(b"lh", &offs);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 4);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    for n in ["a", "B", "z", "_X"] {
        assert!(k.subkey(n).is_some(), "{}", n);
    }
}
''')

bug("c06-forward-slash", "C06",
    "a path component that contains a forward slash",
    "The slash separates components as well, so keys with a slash in their name cannot be reached.",
    [("src/key_node.rs", "        for component in path.split('\\\\') {\n", "        for component in path.split(['\\\\', '/']) {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let offs = [h.key(b"a/b", true)];
    let l = h.list(b"lh", &offs);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subpath("\\\\a/b\\\\").is_some());
}
''')

bug("c07-skip-nil-entry", "C07",
    "a value list with an entry 0xFFFFFFFF",
    "The entry is skipped silently, so there are fewer entries than the count says and no error.",
    [("src/key_values_list.rs", """        let key_values_list_item_range = self.key_values_list_item_ranges.next()?;
        let key_value_offset = key_values_list_item_range.key_value_offset(self.hive);
        let cell_range""", """        // Skip deleted entries.
        let hive = self.hive;
        let key_value_offset = self
            .key_values_list_item_ranges
            .by_ref()
            .map(|item_range| item_range.key_value_offset(hive))
            .find(|offset| *offset != u32::MAX)?;
        let cell_range""")],
    """fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, b"abc");
    let root = h.key(b"root", true);
    h.set_values(root, &[v, NIL, v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let mut n = 0;
    for v in hive.root_key_node().unwrap().values().unwrap().unwrap() {
        assert_eq!(v.is_err(), n == 1);
        n += 1;
    }
    assert_eq!(n, 3);
}
""")

bug("c08-short-last-segment", "C08",
    "big data whose last segment's cell is shorter than the rest of the data",
    "The data is truncated silently instead of an error.",
    [("src/big_data.rs", '''        let cell_range = iter_try!(self.hive.cell_range_from_data_offset(segment_offset));
        let data_range = iter_try!(''', '''        let cell_range = iter_try!(self.hive.cell_range_from_data_offset(segment_offset));
        let bytes_to_return = if self.bytes_left == 0 {
            cmp::min(bytes_to_return, cell_range.len())
        } else {
            bytes_to_return
        };
        let data_range = iter_try!(''')],
    '''fn main() {
    let mut h = Hb::new();
    let s1 = h.cell(&[7; SEG]);
    let s2 = h.cell(&[8; 12]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 3, SEG as u32 + 13, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.data().unwrap().into_vec().is_err());
}
''')

bug("c08-inline-mask", "C08",
    "a value stored inline whose size field has the inline bit and a size of 4 or less, in the upper half of the 4 bytes only for sizes below 4",
    "Inline data of fewer than four bytes is taken from the end of the field.",
    [("src/key_value.rs", "            let data_start = self.header_range.start + offset_of!(KeyValueHeader, data_offset);\n            let data_end = data_start + data_size;\n",
      "            let data_end = self.header_range.start + offset_of!(KeyValueHeader, data_type);\n            let data_start = data_end - data_size;\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 3, 0x8000_0002, 0x0403_0201);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.data().unwrap().into_vec().unwrap(), [1, 2]);
}
''')

bug("c09-long-dword", "C09",
    "reading a REG_DWORD whose data is longer than 4 bytes",
    "The surplus bytes are ignored instead of an error.",
    [("src/key_value.rs", '''            // DWORD data must be exactly 4 bytes long.
            if data.len() != mem::size_of::<u32>() {
''', '''            // Only the first 4 bytes of DWORD data are relevant.
            let data = if data.len() > 4 && data[4..].iter().all(|x| *x == 0) {
                &data[..4]
            } else {
                data
            };
            if data.len() != mem::size_of::<u32>() {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 4, &[1, 2, 3, 4, 0]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.dword_data().is_err());
}
''')

bug("c10-odd-byte", "C10",
    "a REG_SZ or REG_EXPAND_SZ value with an odd number of data bytes",
    "The odd last byte becomes a character instead of being ignored.",
    [("src/key_value.rs", '''            let u16_iter = slice_data
                .chunks_exact(2)
                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
''', '''            let u16_iter = slice_data
                .chunks(2)
                .map(|bytes| u16::from_le_bytes([bytes[0], *bytes.get(1).unwrap_or(&0)]));
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 1, b"a\\0b");
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.string_data().unwrap(), "a");
}
''')

bug("c11-latin1-ascii-fold", "C11",
    "comparing for equality two names that are both stored as Latin-1 and differ in the case of a non-ASCII letter",
    "They are unequal although their ordering says equal.",
    [("src/string.rs", '''    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
''', '''    fn eq(&self, other: &Self) -> bool {
        if let (Self::Latin1(this), Self::Latin1(other)) = (self, other) {
            return this.eq_ignore_ascii_case(other);
        }

        self.cmp(other) == Ordering::Equal
''')],
    '''fn main() {
    let _ = NIL;
    let (a, b) = ([0xE4u8], [0xC4u8]);
    let (a, b) = (NtHiveNameString::Latin1(&a), NtHiveNameString::Latin1(&b));
    assert!(a == b);
}
''')

bug("c11-trailing-nul", "C11",
    "comparing a name with the same name followed by a NUL character",
    "They are equal in one argument order and different in the other.",
    [("src/string.rs", "                (Some(_), None) => {\n", "                (Some(0), None) => (),\n                (Some(_), None) => {\n")],
    """fn main() {
    let _ = NIL;
    let a = NtHiveNameString::Latin1(b"ab\0");
    let b = utf16("ab");
    let b = NtHiveNameString::Utf16LE(&b);
    assert!(a > b);
    assert!(b < a);
}
""")

bug("c12-unknown-flag", "C12",
    "a key with a flag bit outside the ten known ones and a compressed name",
    "All flags are dropped, so the Latin-1 name is read as UTF-16.",
    [("src/key_node.rs", "        let flags = KeyNodeFlags::from_bits_truncate(header.flags.get());\n",
      "        let flags = KeyNodeFlags::from_bits(header.flags.get()).unwrap_or(KeyNodeFlags::empty());\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.put16(root as usize + 4 + 2, 0x0420);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.name().unwrap().to_string_lossy(), "root");
}
''')

bug("c13-nth-stops-at-error", "C13",
    "nth over an index root with an unreadable item among the skipped ones",
    "The iterator reports its end although items follow.",
    [("src/subkeys_list.rs", '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        match self {
            Self::IndexRoot(iter) => iter.nth(n),
''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        match self {
            Self::IndexRoot(iter) => {
                for _ in 0..n {
                    iter.next()?.ok()?;
                }
                iter.next()
            }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    h.d[a as usize + 4] = b'x';
    let l = h.list(b"li", &[a, b]);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let mut it = hive.root_key_node().unwrap().subkeys().unwrap().unwrap();
    assert!(it.nth(1).unwrap().is_ok());
}
''')

bug("c14-stale-count", "C14",
    "clearing a hive in which a key's subkey_count field is 0 although it has a subkeys list",
    "The keys below it keep their volatile counts.",
    [("src/key_node.rs", '''        header.volatile_subkey_count.set(0);

        if let Some(subkeys) = self.subkeys_mut() {
''', '''        header.volatile_subkey_count.set(0);
        if header.subkey_count.get() == 0 {
            return Ok(());
        }

        if let Some(subkeys) = self.subkeys_mut() {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    h.set_vol(a, 7);
    let l = h.list(b"li", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 0);
    let mut b = h.finish(root);
    Hive::new(b.as_mut_slice()).unwrap().clear_volatile_subkeys().unwrap();
    let p = 4096 + a as usize + 4 + 24;
    assert_eq!(b[p..p + 4], [0; 4]);
}
''')

bug("c15-segment-list-offset", "C15",
    "a big data segment list that is too short for the segment count",
    "The error points at the value's size field instead of the segment count.",
    [("src/big_data.rs", "                offset: hive.offset_of_field(&header.segment_count),\n",
      "                offset: data_size_field_offset,\n")],
    '''fn main() {
    let mut h = Hb::new();
    let s1 = h.cell(&[7; SEG]);
    let big = h.big(&[s1, s1]);
    h.put16(big as usize + 4 + 2, 9);
    let v = h.value(b"v", true, 3, SEG as u32 + 13, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    match v.data() {
        Err(NtHiveError::InvalidSizeField { offset, .. }) => assert_eq!(offset, 4096 + big as usize + 4 + 2),
        _ => panic!(),
    }
}
''')

bug("c16-native-endian", "C16",
    "a big-endian machine and a REG_MULTI_SZ value",
    "The code units are read in native byte order.",
    [("src/key_value.rs", "        u16::from_le_bytes(two_bytes.try_into().unwrap())\n    }\n",
      "        u16::from_ne_bytes(two_bytes.try_into().unwrap())\n    }\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 7, &utf16("ab\\0c\\0\\0"));
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    let l: Vec<String> = v.multi_string_data().unwrap().map(|x| x.unwrap()).collect();
    assert_eq!(l, ["ab", "c"]);
}
''', miri="s390x-unknown-linux-gnu")

bug("c17-equal-across-hives", "C17",
    "comparing values at the same place of two different hives",
    "Values of different hives compare equal.",
    [("src/key_value.rs", '''        ptr::eq(self.hive, other.hive)
            && self.header_range == other.header_range
''', '''        ptr::eq(&self.hive.data[..0], &other.hive.data[..0])
            && self.header_range == other.header_range
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, b"abc");
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let h1 = Hive::new(b.as_slice()).unwrap();
    let h2 = Hive::new(b.as_slice()).unwrap();
    let v1 = h1.root_key_node().unwrap().value("v").unwrap().unwrap();
    let v2 = h2.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v1 == v1.clone());
    assert!(v1 != v2);
}
''')
