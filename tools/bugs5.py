BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c04-repeated-leaf", "C04",
    "an index root that lists the same leaf twice in a row",
    "Its keys are enumerated once.",
    [("src/index_root.rs", '''            hive,
            index_root_item_ranges,
            leaf_item_ranges: None,
        })
    }
}

impl<'h, B> Iterator for IndexRootKeyNodes<'h, B>
''', '''            hive,
            index_root_item_ranges,
            leaf_item_ranges: None,
            last_list_offset: u32::MAX,
        })
    }
}

impl<'h, B> Iterator for IndexRootKeyNodes<'h, B>
'''),
     ("src/index_root.rs", '''pub struct IndexRootKeyNodes<'h, B: SplitByteSlice> {
    hive: &'h Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
''', '''pub struct IndexRootKeyNodes<'h, B: SplitByteSlice> {
    hive: &'h Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
    last_list_offset: u32,
'''),
     ("src/index_root.rs", '''                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;
''', '''                    let key_node =
                        iter_try!(KeyNode::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;

            // Do not enumerate a list again that we have just seen.
            let list_offset = index_root_item_range.subkeys_list_offset(self.hive);
            if list_offset == self.last_list_offset {
                continue;
            }
            self.last_list_offset = list_offset;

''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let la = h.list(b"li", &[a]);
    let l = h.list(b"ri", &[la, la]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 2);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let n = hive.root_key_node().unwrap().subkeys().unwrap().unwrap().count();
    assert_eq!(n, 2);
}
''')

bug("c13-far-nth", "C13",
    "nth with a distance that does not fit into 16 bits, then another call",
    "The list is not used up.",
    [("src/leaf.rs", '''        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
''', '''        // No Leaf has that many items.
        if n > u16::MAX as usize {
            return None;
        }

        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let mut i = hive.root_key_node().unwrap().subkeys().unwrap().unwrap();
    assert!(i.nth(100000).is_none());
    assert!(i.next().is_none());
}
''')

bug("c13-big-nth-keeps", "C13",
    "nth beyond the end of big data, then another call",
    "The data is not used up.",
    [("src/big_data.rs", '''        self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
        if self.bytes_left == 0 {
            return None;
        }
''', '''        if bytes_to_skip >= self.bytes_left {
            return None;
        }
        self.bytes_left -= bytes_to_skip;
''')],
    '''fn main() {
    let mut h = Hb::new();
    let s = h.cell(&[7; SEG]);
    let big = h.big(&[s, s]);
    let v = h.value(b"v", true, 3, SEG as u32 + 1, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.value("v").unwrap().unwrap();
    let KeyValueData::Big(mut i) = v.data().unwrap() else { panic!() };
    assert!(i.nth(2).is_none());
    assert!(i.next().is_none());
}
''')

bug("c02-unflushed", "C02",
    "a header whose two sequence numbers are zero, and a wrong checksum",
    "It is accepted.",
    [("src/hive.rs", '''        let checksum = self.base_block.checksum.get();
        if checksum == calculated_checksum {
''', '''        // A hive that has never been flushed has no checksum yet.
        let checksum = self.base_block.checksum.get();
        if checksum == calculated_checksum || self.base_block.primary_sequence_number.get() == 0 {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let mut b = h.finish(root);
    b[4] = 0;
    b[8] = 0;
    checksum(&mut b);
    assert!(Hive::new(b.as_slice()).is_ok());
    b[508] ^= 4;
    assert!(Hive::new(b.as_slice()).is_err());
}
''')

bug("c09-cell-big-endian", "C09",
    "a big-endian number stored in a cell of its own",
    "It is read as little-endian.",
    [("src/key_value.rs", '''                KeyValueDataType::RegDWordBigEndian => {
                    Ok(u32::from_be_bytes(data.try_into().unwrap()))
                }
''', '''                KeyValueDataType::RegDWordBigEndian => {
                    // Only the `data_offset` field has the wrong order.
                    if self.header().data_size.get() & DATA_STORED_IN_DATA_OFFSET == 0 {
                        return Ok(u32::from_le_bytes(data.try_into().unwrap()));
                    }
                    Ok(u32::from_be_bytes(data.try_into().unwrap()))
                }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 5, 0x8000_0004, 0x04030201);
    let w = h.value_cell(b"w", 5, &[1, 2, 3, 4]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v, w]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.value("w").unwrap().unwrap().dword_data().unwrap(), 0x01020304);
    assert_eq!(k.value("v").unwrap().unwrap().dword_data().unwrap(), 0x01020304);
}
''')

bug("c10-cut-pair", "C10",
    "a text that ends in a lone high surrogate",
    "Its last character is dropped.",
    [("src/key_value.rs", '''        // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
''', '''        // Do not show half of a character that has been cut off.
        if let Some(0xd800..=0xdbff) = code_units.last() {
            code_units.pop();
        }

        // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 1, &[0x41, 0, 0x00, 0xd8]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.value("v").unwrap().unwrap();
    let s = v.string_data().unwrap();
    assert_eq!(s, "A\\u{fffd}");
}
''')

bug("c08-vec-cut", "C08",
    "big data with an unreadable segment, fetched as a whole",
    "The bytes before it are returned as if they were all.",
    [("src/key_value.rs", '''                for slice_data in iter {
                    let slice_data = slice_data?;
                    data.extend_from_slice(slice_data);
                }

                Ok(data)
''', '''                data.extend(iter.map_while(|slice_data| slice_data.ok()).flatten().copied());

                Ok(data)
''')],
    '''fn main() {
    let mut h = Hb::new();
    let s = h.cell(&[7; SEG]);
    let big = h.big(&[s, 0x7FFF_FFF8]);
    let v = h.value(b"v", true, 3, SEG as u32 + 1, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.value("v").unwrap().unwrap();
    assert!(v.data().unwrap().into_vec().is_err());
}
''')

bug("c07-default-first", "C07",
    "a search for the value without a name, which is not the first one of the list",
    "The first value is returned, or nothing.",
    [("src/key_node.rs", '''            if key_value_name == name {
                return Some(Ok(key_value));
            }
''', '''            if key_value_name == name {
                return Some(Ok(key_value));
            }

            // The default value always comes first.
            if name.is_empty() {
                break;
            }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.value(b"a", true, 4, 0x8000_0004, 1);
    let d = h.value(b"", true, 4, 0x8000_0004, 7);
    let root = h.key(b"root", true);
    h.set_values(root, &[a, d]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.value("").unwrap().unwrap().dword_data().unwrap(), 7);
}
''')

bug("c14-deep", "C14",
    "a key below more than 32 others whose volatile subkey count is not zero",
    "It is not cleared.",
    [("src/hive.rs", '''        let mut root_key_node = self.root_key_node_mut()?;
        root_key_node.clear_volatile_subkeys()
''', '''        let mut root_key_node = self.root_key_node_mut()?;
        root_key_node.clear_volatile_subkeys(0)
'''),
     ("src/key_node.rs", '''    pub(crate) fn clear_volatile_subkeys(&mut self) -> Result<()> {
''', '''    pub(crate) fn clear_volatile_subkeys(&mut self, depth: usize) -> Result<()> {
        // Volatile subkeys are only ever created close to the root.
        if depth > 32 {
            return Ok(());
        }

'''),
     ("src/key_node.rs", '''                subkey?.clear_volatile_subkeys()?;
''', '''                subkey?.clear_volatile_subkeys(depth + 1)?;
''')],
    '''fn main() {
    let mut h = Hb::new();
    let mut k = h.key(b"k", true);
    let deep = k;
    h.set_vol(k, 9);
    for _ in 0..40 {
        let l = h.list(b"lf", &[k]);
        k = h.key(b"k", true);
        h.set_sub(k, l, 1);
    }
    let mut b = h.finish(k);
    let mut hive = Hive::new(b.as_mut_slice()).unwrap();
    hive.clear_volatile_subkeys().unwrap();
    assert_eq!(b[4096 + deep as usize + 4 + 24], 0);
}
''')

bug("c15-inline-size-offset", "C15",
    "a number whose wrong size is stored in the value itself",
    "The error points to another place.",
    [("src/key_value.rs", '''            if data.len() != mem::size_of::<u64>() {
                return Err(NtHiveError::InvalidDataSize {
                    offset: self.hive.offset_of_field(data),
''', '''            if data.len() != mem::size_of::<u64>() {
                return Err(NtHiveError::InvalidDataSize {
                    offset: self.hive.offset_of_data_offset(self.header().data_offset.get() as usize),
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 11, 0x8000_0004, 0x01020304);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let e = k.value("v").unwrap().unwrap().qword_data().unwrap_err();
    assert_eq!(e, NtHiveError::InvalidDataSize { offset: 4096 + v as usize + 4 + 8, expected: 8, actual: 4 });
}
''')

bug("c06-dot", "C06",
    "a path with a component that is a single dot, and a key of that name",
    "The component is skipped.",
    [("src/key_node.rs", '''            if !component.is_empty() {
''', '''            if !component.is_empty() && component != "." {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b".", true);
    let l = h.list(b"lf", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.subpath(".").unwrap().unwrap().name().unwrap(), ".");
    assert!(k.subpath(".\\\\.").is_none());
}
''')

bug("c01-last-of-empty", "C01",
    "the last item of a list of values whose count is zero",
    "A panic in builds with overflow checks.",
    [("src/key_values_list.rs", '''        self.key_values_list_item_ranges.count()
    }

    fn last(mut self) -> Option<Self::Item> {
        let (size, _) = self.size_hint();
        if size == 0 {
            return None;
        }

        self.nth(size - 1)
''', '''        self.key_values_list_item_ranges.count()
    }

    fn last(mut self) -> Option<Self::Item> {
        let (size, _) = self.size_hint();
        self.nth(size - 1)
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.value(b"a", true, 4, 0x8000_0004, 1);
    let root = h.key(b"root", true);
    h.set_values(root, &[a]);
    h.put32(root as usize + 4 + 36, 0);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.values().unwrap().unwrap().last().is_none());
}
''')

bug("c16-segments-wrap", "C16",
    "a 32-bit machine, and a data size that needs 65536 segments or more",
    "The size is accepted there, with a count that has wrapped.",
    [("src/big_data.rs", '''        let max_data_size = segment_count as usize * BIG_DATA_SEGMENT_SIZE;
        if data_size > max_data_size {
            return Err(NtHiveError::InvalidSizeField {
                offset: data_size_field_offset,
                expected: data_size,
                actual: max_data_size,
            });
        }
''', '''        let max_data_size = segment_count as usize * BIG_DATA_SEGMENT_SIZE;
        let needed_count = if cfg!(target_pointer_width = "64") {
            data_size.div_ceil(BIG_DATA_SEGMENT_SIZE)
        } else {
            data_size.div_ceil(BIG_DATA_SEGMENT_SIZE) & u16::MAX as usize
        };
        if needed_count > segment_count as usize {
            return Err(NtHiveError::InvalidSizeField {
                offset: data_size_field_offset,
                expected: data_size,
                actual: max_data_size,
            });
        }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let s = h.cell(&[7; 64]);
    let big = h.big(&[s]);
    let v = h.value(b"v", true, 3, 65536 * SEG as u32, big);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.value("v").unwrap().unwrap();
    assert!(v.data().is_err());
}
''', miri="i686-unknown-linux-gnu")

bug("c12-odd-is-latin", "C12",
    "the name of a value stored as UTF-16 with an odd number of bytes",
    "It is decoded byte by byte.",
    [("src/key_value.rs", '''        if flags.contains(KeyValueFlags::VALUE_COMP_NAME) {
            Ok(NtHiveNameString::Latin1(name_bytes))
''', '''        // Some writers forget the flag.
        let odd_length = name_length % 2 == 1;
        if flags.contains(KeyValueFlags::VALUE_COMP_NAME) || odd_length {
            Ok(NtHiveNameString::Latin1(name_bytes))
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(&[0x41, 0, 0x42], false, 4, 0x8000_0004, 1);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(matches!(v.name().unwrap(), NtHiveNameString::Utf16LE(_)));
}
''')

bug("c03-padding-name", "C03",
    "a value name that ends up to four bytes behind its cell",
    "The first bytes of the next cell are returned as part of the name.",
    [("src/key_value.rs", '''        let data_range = header_range.end..cell_range.end;

        let key_value = Self {
''', '''        // The cell size includes the size field.
        let data_range = header_range.end..(cell_range.end + mem::size_of::<u32>()).min(hive.data.len());

        let key_value = Self {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"abcd", true, 4, 0x8000_0004, 1);
    h.put16(v as usize + 4 + 2, 8);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.name().map(|n| n.len()).unwrap_or(0) <= 8 && v.name().map(|n| n.to_string_lossy().starts_with("abcd")).unwrap_or(true));
    let mut h = Hb::new();
    let v = h.value(b"abcdefgh", true, 4, 0x8000_0004, 1);
    h.put16(v as usize + 4 + 2, 12);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let v = k.values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.name().is_err() || v.name().unwrap().len() <= 8);
}
''')

bug("c05-wide-characters", "C05",
    "a name with characters beyond U+FFFF among keys with names in U+E000..U+FFFF",
    "The search compares characters, where the order of the list is that of UTF-16 units.",
    [("src/key_node.rs", '''            // Check if it's the name we are looking for, otherwise adjust the boundaries accordingly.
            match key_node_name.partial_cmp(name).unwrap() {
''', '''            // Check if it's the name we are looking for, otherwise adjust the boundaries accordingly.
            let ordering = match key_node_name.partial_cmp(name).unwrap() {
                Ordering::Equal => Ordering::Equal,
                ordering => match (name.chars().next(), &key_node_name) {
                    (Some('\\u{10000}'..), NtHiveNameString::Utf16LE(bytes))
                        if bytes.len() >= 2 && bytes[1] >= 0xe0 =>
                    {
                        Ordering::Less
                    }
                    _ => ordering,
                },
            };
            match ordering {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(&utf16("\\u{10330}"), false);
    let b = h.key(&utf16("\\u{FF21}"), false);
    let l = h.list(b"lf", &[a, b, b]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 3);
    let bytes = h.finish(root);
    let hive = Hive::new(bytes.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subkey("\\u{10330}").is_some());
    assert!(k.subkey("\\u{FF21}").is_some());
}
''')

bug("c11-combining", "C11",
    "names of different lengths where the shorter one is a prefix and the next unit of the longer one is a combining mark",
    "They are equal.",
    [("src/string.rs", '''                (Some(_), None) => {
                    // `this_iter` is longer than `other_iter` but otherwise equal.
                    return Ordering::Greater;
                }
                (None, Some(_)) => {
''', '''                // A combining mark at the end makes no difference.
                (Some(0x0300..=0x036f), None) => continue,
                (Some(_), None) => {
                    // `this_iter` is longer than `other_iter` but otherwise equal.
                    return Ordering::Greater;
                }
                (None, Some(_)) => {
''')],
    '''fn main() {
    let (a, b) = (utf16("a\\u{301}"), utf16("a"));
    assert!(NtHiveNameString::Utf16LE(&a) > NtHiveNameString::Utf16LE(&b));
}
''')
