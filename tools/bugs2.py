BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c16-value-count-overflow", "C16",
    "a 32-bit target and a value count whose quadruple exceeds 32 bits",
    "The size of the list wraps, so a list with a billion values is taken for a short one (or the program panics).",
    [("src/key_values_list.rs", "        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());\n",
      "        let byte_count = (count as usize).wrapping_mul(mem::size_of::<KeyValuesListItem>());\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, &[1]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    h.put32(root as usize + 4 + 36, 0x4000_0001);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.values(), Some(Err(NtHiveError::InvalidSizeField { .. }))));
}
''', miri="i686-unknown-linux-gnu")

bug("c03-cell-of-four-mod-eight", "C03",
    "a cell whose size is a multiple of 4 but not of 8",
    "It is accepted.",
    [("src/hive.rs", "        if cell_size % expected_alignment != 0 {\n",
      "        if cell_size % (expected_alignment / 2) != 0 {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.cell(&[0; 64]);
    h.put32(root as usize, -84i32 as u32);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    assert!(matches!(hive.root_key_node(), Err(NtHiveError::InvalidSizeFieldAlignment { .. })));
}
''')

bug("c01-min-cell", "C01",
    "a cell with the size field 0x80000000 (whose absolute value does not fit an i32)",
    "Reading it panics.",
    [("src/hive.rs", "        let cell_size = cell_size.unsigned_abs() as usize;\n",
      "        let cell_size = -cell_size as usize;\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.put32(root as usize, 0x8000_0000);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    assert!(matches!(hive.root_key_node(), Err(NtHiveError::InvalidSizeField { .. })));
}
''')

bug("c07-count-16", "C07",
    "a key with at least 65536 values",
    "Only the count modulo 65536 is enumerated.",
    [("src/key_node.rs", "        let count = header.key_values_count.get();\n",
      "        let count = header.key_values_count.get() as u16 as u32;\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, &[1]);
    let root = h.key(b"root", true);
    h.set_values(root, &vec![v; 65537]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.values().unwrap().unwrap().count(), 65537);
}
''')

bug("c13-nth-u32", "C13",
    "skipping at least 2^32 values",
    "nth(2^32) yields the first value.",
    [("src/key_values_list.rs", '''        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
        self.key_values_list_item_ranges.items_range.start = self
            .key_values_list_item_ranges
            .items_range
            .start
            .saturating_add(bytes_to_skip);
''', '''        let bytes_to_skip = (n as u32 as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
        self.key_values_list_item_ranges.items_range.start = self
            .key_values_list_item_ranges
            .items_range
            .start
            .saturating_add(bytes_to_skip);
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 3, &[1]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v, v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let mut i = k.values().unwrap().unwrap();
    assert!(i.nth(1 << 32).is_none());
}
''')

bug("c13-clone-restarts-leaf", "C13",
    "cloning a subkey iterator over an index root in the middle of a leaf",
    "The clone skips the rest of the leaf.",
    [("src/index_root.rs", '''#[derive(Clone)]
pub struct IndexRootKeyNodes<'h, B: SplitByteSlice> {
    hive: &'h Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
}
''', '''pub struct IndexRootKeyNodes<'h, B: SplitByteSlice> {
    hive: &'h Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
}

impl<B: SplitByteSlice> Clone for IndexRootKeyNodes<'_, B> {
    fn clone(&self) -> Self {
        Self {
            hive: self.hive,
            index_root_item_ranges: self.index_root_item_ranges.clone(),
            leaf_item_ranges: None,
        }
    }
}
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let b = h.key(b"b", true);
    let l = h.list(b"lf", &[a, b]);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let mut i = k.subkeys().unwrap().unwrap();
    i.next();
    assert!(i.clone().next().is_some());
}
''')

bug("c17-equal-by-name", "C17",
    "comparing two different keys of equal names whose cells have the same size",
    "They are equal.",
    [("src/key_node.rs", "        ptr::eq(self.hive, other.hive) && self.item_range == other.item_range\n",
      '''        // Corrupted hives may list the same key at several places.
        ptr::eq(self.hive, other.hive)
            && (self.item_range == other.item_range
                || self.hive.data[self.item_range.header_range.start..self.item_range.data_range.end]
                    == self.hive.data[other.item_range.header_range.start..other.item_range.data_range.end])
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a1 = h.key(b"a", true);
    let a2 = h.key(b"a", true);
    let l1 = h.list(b"lf", &[a1]);
    let l2 = h.list(b"lf", &[a2]);
    let p = h.key(b"p", true);
    let q = h.key(b"q", true);
    h.set_sub(p, l1, 1);
    h.set_sub(q, l2, 1);
    let l = h.list(b"lf", &[p, q]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let x = k.subpath("p\\\\a").unwrap().unwrap();
    let y = k.subpath("q\\\\a").unwrap().unwrap();
    assert!(x != y);
}
''')

bug("c17-lookup-cache", "C17",
    "looking up the same name below two different keys one after the other, their lists being equally long",
    "The second lookup returns the subkey of the first key.",
    [("src/hive.rs", "    base_block: Ref<B, HiveBaseBlock>,\n    pub(crate) data: B,\n}\n",
      "    base_block: Ref<B, HiveBaseBlock>,\n    pub(crate) data: B,\n    /// Name hash, list length, and offset of the last hit.\n    pub(crate) last_hit: core::cell::Cell<Option<(u64, usize, usize)>>,\n}\n"),
     ("src/hive.rs", "        let hive = Self { base_block, data };\n",
      "        let hive = Self { base_block, data, last_hit: core::cell::Cell::new(None) };\n"),
     ("src/key_node.rs", '''                let leaf_item_ranges = LeafItemRanges::from(iter);
                self.binary_search_subkey_in_leaf(hive, name, leaf_item_ranges)
            }
        }
    }
''', '''                let leaf_item_ranges = LeafItemRanges::from(iter);
                let hash = name.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
                let len = leaf_item_ranges.len();
                if let Some((last_hash, last_len, start)) = hive.last_hit.get() {
                    if last_hash == hash && last_len == len {
                        let cell_range = iter_try!(hive.cell_range_from_data_offset(start as u32 - 4));
                        return Some(Self::from_cell_range(hive, cell_range));
                    }
                }
                let result = self.binary_search_subkey_in_leaf(hive, name, leaf_item_ranges);
                if let Some(Ok(item)) = &result {
                    hive.last_hit.set(Some((hash, len, item.header_range.start)));
                }
                result
            }
        }
    }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a1 = h.key(b"a", true);
    let a2 = h.key(b"a", true);
    let l1 = h.list(b"lf", &[a1]);
    let l2 = h.list(b"lf", &[a2]);
    let p = h.key(b"p", true);
    let q = h.key(b"q", true);
    h.set_sub(p, l1, 1);
    h.set_sub(q, l2, 1);
    let l = h.list(b"lf", &[p, q]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let all: Vec<_> = k.subkeys().unwrap().unwrap().map(|x| x.unwrap()).collect();
    let x = all[0].subkey("a").unwrap().unwrap();
    let y = all[1].subkey("a").unwrap().unwrap();
    assert!(x != y);
}
''')

bug("c14-zero-shortcut", "C14",
    "a key without volatile subkeys that has a descendant with some",
    "The descendants of such a key are not cleared.",
    [("src/key_node.rs", "        let mut header = self.item_range.header_mut(self.hive);\n        header.volatile_subkey_count.set(0);\n",
      "        let mut header = self.item_range.header_mut(self.hive);\n        if header.volatile_subkey_count.get() == 0 && header.volatile_subkeys_list_offset.get() == u32::MAX {\n            // There is nothing volatile here.\n            return Ok(());\n        }\n        header.volatile_subkey_count.set(0);\n")],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    h.set_vol(a, 3);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let mut b = h.finish(root);
    {
        let mut hive = Hive::new(b.as_mut_slice()).unwrap();
        hive.clear_volatile_subkeys().unwrap();
    }
    let p = 4096 + a as usize + 4 + 24;
    assert_eq!(b[p..p + 4], [0; 4]);
}
''')

bug("c15-class-name-field", "C15",
    "a class name longer than its cell",
    "The error points at the length of the key name.",
    [("src/key_node.rs", "            offset: hive.offset_of_field(&header.class_name_length),\n",
      "            offset: hive.offset_of_field(&header.key_name_length),\n")],
    '''fn main() {
    let mut h = Hb::new();
    let c = h.cell(&utf16("ab"));
    let root = h.key(b"root", true);
    h.put32(root as usize + 4 + 48, c);
    h.put16(root as usize + 4 + 74, 60);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    match k.class_name() {
        Some(Err(NtHiveError::InvalidSizeField { offset, .. })) => assert_eq!(offset, 4096 + root as usize + 4 + 74),
        _ => panic!(),
    };
}
''')

bug("c15-cell-size-expected", "C15",
    "a cell reaching beyond the end of the hive",
    "The expected size contains the cell header.",
    [("src/hive.rs", "                expected: cell_data_size,\n", "                expected: cell_size,\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.put32(root as usize, -800i32 as u32);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    match hive.root_key_node() {
        Err(NtHiveError::InvalidSizeField { expected, .. }) => assert_eq!(expected, 796),
        _ => panic!(),
    };
}
''')

bug("c15-nested-signatures", "C15",
    "an index root that refers to another index root",
    "The error lists 'ri' among the expected signatures.",
    [("src/subkeys_list.rs", '            b"lf|lh|li"\n', '            b"lf|lh|li|ri"\n')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"lf", &[a]);
    let r = h.list(b"ri", &[l]);
    let r2 = h.list(b"ri", &[r]);
    let root = h.key(b"root", true);
    h.set_sub(root, r2, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let x = k.subkeys().unwrap().unwrap().next();
    match x {
        Some(Err(NtHiveError::InvalidTwoByteSignature { expected, .. })) => assert_eq!(expected, b"lf|lh|li"),
        _ => panic!(),
    };
}
''')

bug("c12-odd-name", "C12",
    "a UTF-16 name of an odd number of bytes",
    "Strict conversion fails although all code units are valid.",
    [("src/string.rs", '''            Self::Utf16LE(_) => char::decode_utf16(self.utf16le_iter())
                .map(|x| x.ok())
                .collect::<Option<String>>(),
''', '''            Self::Utf16LE(bytes) => {
                if bytes.len() % 2 != 0 {
                    return None;
                }

                char::decode_utf16(self.utf16le_iter())
                    .map(|x| x.ok())
                    .collect::<Option<String>>()
            }
''')],
    '''fn main() {
    assert_eq!(NtHiveNameString::Utf16LE(&[0x61, 0, 0x62]).to_string_checked().as_deref(), Some("a"));
}
''')

bug("c12-windows-1252", "C12",
    "a Latin-1 name with bytes between 0x80 and 0x9F",
    "Displaying it decodes byte 0x80 as the Euro sign.",
    [("src/string.rs", '''                for byte in bytes.iter() {
                    let single_char = *byte as char;
''', '''                for byte in bytes.iter() {
                    let single_char = match *byte {
                        0x80 => '\\u{20AC}',
                        byte => byte as char,
                    };
''')],
    '''fn main() {
    assert_eq!(format!("{}", NtHiveNameString::Latin1(&[0x80])), "\\u{80}");
}
''')

bug("c11-by-characters", "C11",
    "comparing a name that has supplementary characters with a text that has units above 0xDFFF",
    "The order of the two differs from that of their UTF-16 code units.",
    [("src/string.rs", '''        let rhs_iter = rhs.encode_utf16();

        match lhs {
            Self::Latin1(_) => Self::cmp_iter(lhs.latin1_iter(), rhs_iter),
            Self::Utf16LE(_) => Self::cmp_iter(lhs.utf16le_iter(), rhs_iter),
        }
''', '''        let rhs_iter = rhs.encode_utf16();

        match lhs {
            Self::Latin1(_) => Self::cmp_iter(lhs.latin1_iter(), rhs_iter),
            Self::Utf16LE(_) => match Self::cmp_iter(lhs.utf16le_iter(), rhs_iter) {
                Ordering::Equal => Ordering::Equal,
                ordering => {
                    // Prefer the order of characters if both have some beyond the BMP.
                    let lhs_max = char::decode_utf16(lhs.utf16le_iter()).filter_map(|x| x.ok()).next();
                    match (lhs_max, rhs.chars().next()) {
                        (Some(a), Some(b)) if a > '\\u{FFFF}' && b < '\\u{10000}' => a.cmp(&b),
                        _ => ordering,
                    }
                }
            },
        }
''')],
    '''fn main() {
    let g: Vec<u8> = utf16("\\u{10331}");
    assert!(NtHiveNameString::Utf16LE(&g) < *"\\u{FF21}");
}
''')

bug("c11-upcase-e", "C11",
    "names that contain small letters of the Georgian or Cherokee blocks",
    "U+AB70 is no longer equal to U+13A0.",
    [("src/string.rs", "    (0xab70, 0x13a0),\n", "")],
    '''fn main() {
    let a: Vec<u8> = utf16("\\u{AB70}");
    let b: Vec<u8> = utf16("\\u{13A0}");
    assert!(NtHiveNameString::Utf16LE(&a) == NtHiveNameString::Utf16LE(&b));
}
''')

bug("c09-qword-sign", "C09",
    "a REG_QWORD of which bit 31 is set",
    "The upper half is filled with ones.",
    [("src/key_value.rs", "                KeyValueDataType::RegQWord => Ok(u64::from_le_bytes(data.try_into().unwrap())),\n",
      "                KeyValueDataType::RegQWord => {\n                    let low = i32::from_le_bytes(data[..4].try_into().unwrap());\n                    let high = i32::from_le_bytes(data[4..].try_into().unwrap());\n                    Ok(((high as u64) << 32) | low as u64)\n                }\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 11, &[0, 0, 0, 0x80, 1, 0, 0, 0]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.qword_data().unwrap(), 0x1_8000_0000);
}
''')

bug("c10-text-continues", "C10",
    "a text over several big data segments with a NUL that is not in the last one",
    "The text continues with the next segment.",
    [("src/key_value.rs", '''        'outer_loop: for slice_data in iter {
            let slice_data = slice_data?;
''', '''        for slice_data in iter {
            let slice_data = slice_data?;
'''), ("src/key_value.rs", '''                if code_unit == 0 {
                    break 'outer_loop;
                } else {
                    code_units.push(code_unit);
                }
            }
        }

        // Interpret''', '''                if code_unit == 0 {
                    break;
                } else {
                    code_units.push(code_unit);
                }
            }
        }

        // Interpret''')],
    '''fn main() {
    let mut h = Hb::new();
    let mut s = vec![0x41, 0, 0, 0];
    s.resize(SEG, 0x42);
    let s1 = h.cell(&s);
    let s2 = h.cell(&[0x43, 0]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 1, SEG as u32 + 2, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.string_data().unwrap(), "A");
}
''')

bug("c10-bom", "C10",
    "a text that starts with U+FEFF",
    "The byte order mark is dropped.",
    [("src/key_value.rs", '''                if code_unit == 0 {
                    break 'outer_loop;
                } else {
                    code_units.push(code_unit);
                }
            }
        }

        // Interpret''', '''                if code_unit == 0 {
                    break 'outer_loop;
                } else if code_unit != 0xFEFF || !code_units.is_empty() {
                    code_units.push(code_unit);
                }
            }
        }

        // Interpret''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 1, &utf16("\\u{FEFF}a"));
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.string_data().unwrap(), "\\u{FEFF}a");
}
''')

bug("c08-minor-four", "C08",
    "a hive of minor version 4 with data over 16344 bytes",
    "Its big data is taken for plain data.",
    [("src/hive.rs", "        self.minor_version() >= HiveMinorVersion::WindowsXPBeta as u32\n",
      "        self.minor_version() > HiveMinorVersion::WindowsXPBeta as u32\n")],
    '''fn main() {
    let mut h = Hb::new();
    h.minor = 4;
    let s1 = h.cell(&[7; SEG]);
    let s2 = h.cell(&[8; 12]);
    let big = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 3, SEG as u32 + 3, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.data().unwrap().into_vec().unwrap().len(), SEG + 3);
}
''')

bug("c08-spare-segment", "C08",
    "big data with more segments than its size needs, when the first spare one is missing",
    "The data is an error although all of its bytes are there.",
    [("src/big_data.rs", "        if data_size > max_data_size {\n",
      "        if data_size > max_data_size || max_data_size - data_size > 2 * BIG_DATA_SEGMENT_SIZE {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let s1 = h.cell(&[7; SEG]);
    let s2 = h.cell(&[8; 12]);
    let big = h.big(&[s1, s2, NIL, NIL]);
    let v = h.value(b"v", true, 3, SEG as u32 + 3, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.data().unwrap().into_vec().unwrap().len(), SEG + 3);
}
''')

bug("c06-blank-component", "C06",
    "a path with a component that is only white space",
    "It is skipped like an empty one.",
    [("src/key_node.rs", "            if !component.is_empty() {\n", "            if !component.trim().is_empty() {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b" ", true);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subpath(" ").unwrap().unwrap() == k.subkey(" ").unwrap().unwrap());
}
''')

bug("c06-missing-then-separators", "C06",
    "a path whose first component exists and whose second does not, followed by a trailing separator",
    "The deepest existing key is returned.",
    [("src/key_node.rs", "                key_node_item_range = iter_try!(key_node_item_range.subkey(hive, component)?);\n",
      '''                key_node_item_range = match key_node_item_range.subkey(hive, component) {
                    Some(item_range) => iter_try!(item_range),
                    None if path.ends_with("\\\\\\\\") => break,
                    None => return None,
                };
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subpath("a\\\\b\\\\\\\\").is_none());
}
''')

bug("c05-max-name", "C05",
    "a key whose informational field for the longest subkey name is smaller than the name sought",
    "An existing subkey is not found.",
    [("src/key_node.rs", '''        let cell_range = iter_try!(self.subkeys_cell_range(hive)?);
        let subkeys = iter_try!(SubKeyNodes::new(hive, cell_range));

        match subkeys {
''', '''        let cell_range = iter_try!(self.subkeys_cell_range(hive)?);
        let subkeys = iter_try!(SubKeyNodes::new(hive, cell_range));

        // No subkey has a name this long.
        let max_subkey_name = self.header(hive).max_subkey_name.get() as usize & 0xffff;
        if max_subkey_name != 0 && name.encode_utf16().count() * 2 > max_subkey_name {
            return None;
        }

        match subkeys {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"abc", true);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    h.put32(root as usize + 4 + 52, 4);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subkey("abc").is_some());
}
''')

bug("c05-equal-last", "C05",
    "an index root in which a leaf with at least two items ends with the name sought",
    "The last subkey of such a leaf is not found if it is the last of all leaves.",
    [("src/key_node.rs", '''            match key_node_name.partial_cmp(name).unwrap() {
                Ordering::Equal => return Some(Ok(key_node_item_range)),
                Ordering::Less => {
                    // The LAST''', '''            match key_node_name.partial_cmp(name).unwrap() {
                Ordering::Equal | Ordering::Less if mid as usize + 1 < index_root_item_ranges.len() && left == right => {
                    return None;
                }
                Ordering::Equal => return Some(Ok(key_node_item_range)),
                Ordering::Less => {
                    // The LAST''')],
    '''fn main() {
    let mut h = Hb::new();
    let mut ls = Vec::new();
    for n in [b"a", b"c", b"e", b"g"] {
        let x = h.key(n, true);
        let y = h.key(&[n[0] + 1], true);
        ls.push(h.list(b"lf", &[x, y]));
    }
    let r = h.list(b"ri", &ls);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 8);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    for n in ["a", "b", "c", "d", "e", "f", "g", "h"] {
        assert!(k.subkey(n).is_some(), "{n}");
    }
}
''')

bug("c02-size-total", "C02",
    "a hive that is cut by less than the size of its base block",
    "It passes validation although its data is incomplete.",
    [("src/hive.rs", "        if data_size > self.data.len() {\n",
      "        if data_size > self.data.len() + mem::size_of::<HiveBaseBlock>() {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.cell(&[0; 4096]);
    let mut b = h.finish(root);
    b.truncate(4096 + 4000);
    assert!(matches!(Hive::new(b.as_slice()), Err(NtHiveError::InvalidSizeField { .. })));
}
''')

bug("c02-minor-range", "C02",
    "a minor version above all known ones",
    "It is rejected.",
    [("src/hive.rs", "        if major == 1 && minor >= HiveMinorVersion::WindowsNT4 as u32 {\n",
      "        if major == 1 && minor >= HiveMinorVersion::WindowsNT4 as u32 && minor < 1 << 16 {\n")],
    '''fn main() {
    let mut h = Hb::new();
    h.minor = 0x10005;
    let root = h.key(b"root", true);
    let b = h.finish(root);
    assert!(Hive::new(b.as_slice()).is_ok());
}
''')

bug("c04-bad-leaf-ends", "C04",
    "an index root with an unreadable leaf that is followed by readable ones",
    "The enumeration ends after the error.",
    [("src/index_root.rs", '''            let leaf_item_ranges = iter_try!(LeafItemRanges::from_index_root_item_range(
                self.hive,
                index_root_item_range
            ));
            self.leaf_item_ranges = Some(leaf_item_ranges);
        }
    }
}

impl<B> FusedIterator for IndexRootKeyNodes''', '''            let leaf_item_ranges =
                LeafItemRanges::from_index_root_item_range(self.hive, index_root_item_range);
            if leaf_item_ranges.is_err() && self.leaf_item_ranges.is_some() {
                self.index_root_item_ranges.by_ref().for_each(drop);
            }
            self.leaf_item_ranges = Some(iter_try!(leaf_item_ranges));
        }
    }
}

impl<B> FusedIterator for IndexRootKeyNodes''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l1 = h.list(b"lf", &[a]);
    let l2 = h.list(b"xx", &[a]);
    let b = h.key(b"b", true);
    let l3 = h.list(b"lf", &[b]);
    let r = h.list(b"ri", &[l1, l2, l3]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.subkeys().unwrap().unwrap().count(), 3);
}
''')

bug("c08-inline-eight", "C08",
    "an inline data size between 5 and 8",
    "The value's own type field is returned as part of its data instead of an error.",
    [("src/key_value.rs", "            if data_size > mem::size_of::<u32>() {\n",
      "            if data_size > mem::size_of::<u64>() {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 3, 0x8000_0005, 0);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.data().is_err());
}
''')

bug("c14-writes-class", "C14",
    "clearing a hive in which the root has a non-zero work_var",
    "Clearing also resets another field.",
    [("src/key_node.rs", "        header.volatile_subkey_count.set(0);\n",
      "        header.volatile_subkey_count.set(0);\n        header.work_var.set(0);\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.put32(root as usize + 4 + 68, 7);
    let mut b = h.finish(root);
    let before = b.clone();
    {
        let mut hive = Hive::new(b.as_mut_slice()).unwrap();
        hive.clear_volatile_subkeys().unwrap();
    }
    assert!(b == before);
}
''')

bug("c07-case-lookup", "C07",
    "a key with two values whose names differ only in case beyond ASCII, the exact one coming second",
    "value() prefers an exact match over the first one.",
    [("src/key_node.rs", '''        for key_value in values {
            let key_value = iter_try!(key_value);
            let key_value_name = iter_try!(key_value.name());

            if key_value_name == name {
                return Some(Ok(key_value));
            }
        }

        None
''', '''        let mut found = None;
        for key_value in values {
            let key_value = iter_try!(key_value);
            let key_value_name = iter_try!(key_value.name());

            if key_value_name == name {
                if key_value_name.len() == name.len() || name.is_ascii() {
                    return Some(Ok(key_value));
                }
                found = Some(key_value);
            }
        }

        found.map(Ok)
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v1 = h.value_cell(&[0xe4], 3, &[1]);
    let v2 = h.value_cell(&[0xc4], 3, &[2]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v1, v2]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let first = k.values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(k.value("\\u{c4}").unwrap().unwrap() == first);
}
''')
