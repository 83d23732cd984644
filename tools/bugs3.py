BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c01-path-recursion", "C01",
    "a path of some hundred thousand characters",
    "subpath recurses once per backslash and exhausts the stack.",
    [("src/key_node.rs", '''        let mut key_node_item_range = self.clone();

        for component in path.split('\\\\') {
            // Just skip duplicate, leading, and trailing backslashes.
            if !component.is_empty() {
                key_node_item_range = iter_try!(key_node_item_range.subkey(hive, component)?);
            }
        }

        Some(Ok(key_node_item_range))
''', '''        let (component, rest) = path.split_once('\\\\').unwrap_or((path, ""));

        // Just skip duplicate, leading, and trailing backslashes.
        let key_node_item_range = if component.is_empty() {
            self.clone()
        } else {
            iter_try!(self.subkey(hive, component)?)
        };

        if rest.is_empty() {
            Some(Ok(key_node_item_range))
        } else {
            key_node_item_range.subpath(hive, rest)
        }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let p = "\\\\".repeat(1_000_000);
    assert!(k.subpath(&p).unwrap().unwrap() == k);
}
''')

bug("c05-hint-prune", "C05",
    "a fast leaf whose name hint does not match the name (the hint is zero)",
    "Lookup trusts the hint and misses the key.",
    [("src/key_node.rs", '''            let leaf_item_range = leaf_item_ranges.clone().nth(mid as usize).unwrap();
            let key_node_item_range = iter_try!(Self::from_leaf_item_range(hive, leaf_item_range));
            let key_node_name = iter_try!(key_node_item_range.name(hive));

            // Check if''', '''            let leaf_item_range = leaf_item_ranges.clone().nth(mid as usize).unwrap();
            let hint = &hive.data[leaf_item_range.clone()][4..];
            if left == right && hint == [0; 4].as_slice() && !name.is_empty() {
                // Nothing with a name hashes to zero.
                break;
            }
            let key_node_item_range = iter_try!(Self::from_leaf_item_range(hive, leaf_item_range));
            let key_node_name = iter_try!(key_node_item_range.name(hive));

            // Check if''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"lh", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.subkey("A"), Some(Ok(_))));
}
''')

bug("c04-truncated-leaf", "C04",
    "a leaf inside an index root whose count overruns its cell",
    "The leaf is silently shortened to what its cell can hold.",
    [("src/leaf.rs", '''        let leaf_type = LeafType::from_signature(&header.signature).unwrap();
        LeafItemRanges::new(
            count,
''', '''        let leaf_type = LeafType::from_signature(&header.signature).unwrap();
        let most = subkeys_list.data_range.len() / leaf_type.item_size();
        LeafItemRanges::new(
            count.min(most.max(1) as u16),
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"li", &[a]);
    h.put16(l as usize + 6, 100);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.subkeys().unwrap().unwrap().next(), Some(Err(_))));
}
''')

bug("c13-root-lower-bound", "C13",
    "size_hint of an index root iterator after its last leaf was entered and partly delivered",
    "The lower bound counts the delivered items of the current leaf as well.",
    [("src/index_root.rs", '''            self.leaf_item_ranges = Some(leaf_item_ranges);
        }
    }
}

impl<B> FusedIterator for IndexRootKeyNodes''', '''            self.leaf_item_ranges = Some(leaf_item_ranges);
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // Every Index Root item contributes at least one entry.
        let current = self.leaf_item_ranges.as_ref().map_or(0, |x| x.len().max(1));
        (current + self.index_root_item_ranges.len(), None)
    }
}

impl<B> FusedIterator for IndexRootKeyNodes''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"li", &[a]);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let mut i = k.subkeys().unwrap().unwrap();
    i.next();
    assert!(i.size_hint().0 == 0);
}
''')

bug("c10-empty-after-segment", "C10",
    "multi-string big data in which a string ends exactly at the end of a segment and the empty string that ends the list is at the start of the next one",
    "The empty string is skipped and the text after it is delivered.",
    [("src/key_value.rs", '''                    let code_unit_iter = Self::make_code_unit_iter(slice_data);
                    self.code_unit_iter = Some(code_unit_iter);
''', '''                    let mut code_unit_iter = Self::make_code_unit_iter(slice_data);
                    if code_units.is_empty() && slice_data.starts_with(&[0, 0]) {
                        // The terminator of the last string.
                        code_unit_iter.next();
                    }
                    self.code_unit_iter = Some(code_unit_iter);
''')],
    '''fn main() {
    let mut h = Hb::new();
    let mut a = vec![b'a', 0].repeat(SEG / 2);
    let n = a.len();
    a[n - 2] = 0;
    let mut c = vec![0, 0, b'x', 0, 0, 0];
    let s1 = h.cell(&a);
    let s2 = h.cell(&c);
    let d = h.big(&[s1, s2]);
    let v = h.value(b"v", true, 7, (SEG + c.len()) as u32, d);
    c.clear();
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    let mut i = v.multi_string_data().unwrap();
    assert_eq!(i.next().unwrap().unwrap().len(), SEG / 2 - 1);
    assert!(i.next().is_none());
}
''')

bug("c14-single-item-leaf", "C14",
    "an index root with at least two leaves, one of them with a single item and not the first",
    "Its key is not visited when clearing.",
    [("src/index_root.rs", '''    hive: &'h mut Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
}

impl<'h, B> IndexRootKeyNodesMut''', '''    hive: &'h mut Hive<B>,
    index_root_item_ranges: IndexRootItemRanges,
    leaf_item_ranges: Option<LeafItemRanges>,
}

fn more_than_boundary(leaf_item_ranges: &Option<LeafItemRanges>, new: &LeafItemRanges) -> bool {
    leaf_item_ranges.is_none() || new.len() > 1
}

impl<'h, B> IndexRootKeyNodesMut'''),
     ("src/index_root.rs", '''                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;
            let leaf_item_ranges = iter_try!(LeafItemRanges::from_index_root_item_range(
                self.hive,
                index_root_item_range
            ));
            self.leaf_item_ranges = Some(leaf_item_ranges);
''', '''                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;
            let leaf_item_ranges = iter_try!(LeafItemRanges::from_index_root_item_range(
                self.hive,
                index_root_item_range
            ));
            if more_than_boundary(&self.leaf_item_ranges, &leaf_item_ranges) {
                self.leaf_item_ranges = Some(leaf_item_ranges);
            }
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let c = h.key(b"c", true);
    h.set_vol(c, 5);
    let l1 = h.list(b"li", &[a]);
    let l2 = h.list(b"lf", &[c]);
    let r = h.list(b"ri", &[l1, l2]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 2);
    let mut b = h.finish(root);
    {
        let mut hive = Hive::new(b.as_mut_slice()).unwrap();
        hive.clear_volatile_subkeys().unwrap();
    }
    let p = 4096 + c as usize + 4 + 24;
    assert_eq!(&b[p..p + 4], &[0; 4]);
}
''')

bug("c11-equal-lengths", "C11",
    "two stored names with the same text, one in Latin-1 and one in UTF-16, compared with ==",
    "They are unequal although cmp says Equal.",
    [("src/string.rs", '''    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
''', '''    fn eq(&self, other: &Self) -> bool {
        self.len() == other.len() && self.cmp(other) == Ordering::Equal
''')],
    '''fn main() {
    let a = NtHiveNameString::Latin1(b"ab");
    let c = NtHiveNameString::Utf16LE(b"A\\0b\\0");
    assert!(a == c);
}
''')

bug("c16-aligned-units", "C16",
    "a buffer at an odd address and a text value with an odd number of bytes",
    "Aligned text is read as whole units; otherwise the odd last byte is taken for a unit.",
    [("src/key_value.rs", '''            let u16_iter = slice_data
                .chunks_exact(2)
                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
''', '''            // Read whole units where the memory permits it.
            let size = if slice_data.as_ptr() as usize % 2 == 0 {
                slice_data.len() & !1
            } else {
                slice_data.len()
            };
            let u16_iter = slice_data[..size]
                .chunks(2)
                .map(|two| two.iter().rev().fold(0u16, |x, byte| x << 8 | u16::from(*byte)));
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 1, &[b'x', 0, b'y']);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let mut m = vec![0u8; b.len() + 16];
    for at in 0..2 {
        let m = &mut m[at..at + b.len()];
        m.copy_from_slice(&b);
        let hive = Hive::new(&*m).unwrap();
        let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
        assert_eq!(v.string_data().unwrap(), "x");
    }
}
''')

bug("c13-last-after-end", "C13",
    "last() on an index root iterator that has delivered everything",
    "The last key is delivered once more.",
    [("src/index_root.rs", '''            self.leaf_item_ranges = Some(leaf_item_ranges);
        }
    }
}

impl<B> FusedIterator for IndexRootKeyNodes''', '''            self.leaf_item_ranges = Some(leaf_item_ranges);
        }
    }

    fn last(mut self) -> Option<Self::Item> {
        // Only the last Leaf matters.
        let rest = self.index_root_item_ranges.len();
        if rest > 1 {
            self.index_root_item_ranges.items_range.start += (rest - 1) * mem::size_of::<IndexRootItem>();
        }
        if rest > 0 {
            self.leaf_item_ranges = None;
        } else if let Some(leaf_item_ranges) = self.leaf_item_ranges.as_mut() {
            leaf_item_ranges.rewind();
        }
        let mut last = None;
        while let Some(item) = self.next() {
            last = Some(item);
        }
        last
    }
}

impl<B> FusedIterator for IndexRootKeyNodes'''),
     ("src/leaf.rs", '''    pub fn from_index_root_item_range<B>(''', '''    /// Steps back to the last item.
    pub fn rewind(&mut self) {
        self.items_range.start = self.items_range.end - self.leaf_type.item_size();
    }

    pub fn from_index_root_item_range<B>(''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"li", &[a]);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let mut i = k.subkeys().unwrap().unwrap();
    i.next();
    assert!(i.next().is_none());
    assert!(i.last().is_none());
}
''')

bug("c12-class-latin1", "C12",
    "a key with a compressed name and a class name of odd length",
    "The class name is taken as Latin-1.",
    [("src/key_node.rs", '''        let class_name_bytes = &hive.data[class_name_range];

        Some(Ok(NtHiveNameString::Utf16LE(class_name_bytes)))
''', '''        let class_name_bytes = &hive.data[class_name_range];

        let flags = KeyNodeFlags::from_bits_truncate(header.flags.get());
        if flags.contains(KeyNodeFlags::KEY_COMP_NAME) && class_name_length % 2 == 1 {
            // An odd length can't be UTF-16.
            return Some(Ok(NtHiveNameString::Latin1(class_name_bytes)));
        }

        Some(Ok(NtHiveNameString::Utf16LE(class_name_bytes)))
''')],
    '''fn main() {
    let mut h = Hb::new();
    let c = h.cell(b"a\\0b");
    let root = h.key(b"root", true);
    h.put32(root as usize + 4 + 48, c);
    h.put16(root as usize + 4 + 74, 3);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.class_name().unwrap().unwrap().to_string_lossy(), "a");
}
''')

bug("c15-overrun-offset", "C15",
    "an index root whose leaf overruns its cell",
    "The error points at the root's count instead of the leaf's.",
    [("src/leaf.rs", '''        let header = subkeys_list.header();
        let count = header.count.get();
        let count_field_offset = hive.offset_of_field(&header.count);

        // Subkeys Lists''', '''        let header = subkeys_list.header();
        let count = header.count.get();
        let count_field_offset = hive.offset_of_data_offset(subkeys_list_offset as usize)
            + mem::size_of::<u32>()
            + if count == 0 { mem::size_of::<u16>() } else { 0 };

        // Subkeys Lists''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"a", true);
    let l = h.list(b"li", &[a]);
    h.put16(l as usize + 6, 100);
    let r = h.list(b"ri", &[l]);
    let root = h.key(b"root", true);
    h.set_sub(root, r, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    match k.subkeys().unwrap().unwrap().next() {
        Some(Err(NtHiveError::InvalidSizeField { offset, .. })) => assert_eq!(offset, 4096 + l as usize + 6),
        _ => panic!(),
    }
}
''')

bug("c02-cluster-eight", "C02",
    "a header with clustering factor 0",
    "It is accepted.",
    [("src/hive.rs", "        if clustering_factor == expected_clustering_factor {\n",
      "        if clustering_factor <= expected_clustering_factor {\n")],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let mut b = h.finish(root);
    b[44] = 0;
    checksum(&mut b);
    assert!(Hive::new(b.as_slice()).is_err());
}
''')

bug("c02-raw-truncated", "C02",
    "validating a hive opened without validation, with a data size larger than the buffer",
    "Only validated opening checks the size.",
    [("src/hive.rs", '''        let hive = Self::without_validation(bytes)?;
        hive.validate()?;
        Ok(hive)
''', '''        let hive = Self::without_validation(bytes)?;
        hive.validate()?;
        hive.validate_data_size()?;
        Ok(hive)
'''), ("src/hive.rs", '''        self.validate_file_format()?;
        self.validate_data_size()?;
''', '''        self.validate_file_format()?;
''')],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    let mut b = h.finish(root);
    b[41] = 0x20;
    checksum(&mut b);
    assert!(Hive::new(b.as_slice()).is_err());
    assert!(Hive::without_validation(b.as_slice()).unwrap().validate().is_err());
}
''')

bug("c08-empty-cell", "C08",
    "a value of size 0 that is not inline and whose data cell is not readable",
    "Empty data is returned instead of an error.",
    [("src/key_value.rs", '''        } else if data_size <= BIG_DATA_SEGMENT_SIZE || !self.hive.supports_big_data() {
''', '''        } else if data_size == 0 {
            Ok(KeyValueData::Small(&[]))
        } else if data_size <= BIG_DATA_SEGMENT_SIZE || !self.hive.supports_big_data() {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let c = h.cell(&[0; 8]);
    let v = h.value(b"v", true, 3, 0, c);
    h.put32(c as usize, 16);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert!(v.data().is_err());
}
''')

bug("c03-declared-size", "C03",
    "a hive whose buffer is longer than the data size in its header, with the root key in the part behind",
    "References behind the declared size are refused.",
    [("src/hive.rs", '''        let remaining_range = data_offset..self.data.len();
''', '''        let declared = self.base_block.data_size.get() as usize;
        let data_len = if declared % 4096 == 0 && declared > 0 {
            declared.min(self.data.len())
        } else {
            self.data.len()
        };
        let remaining_range = data_offset..data_len;
''')],
    '''fn main() {
    let mut h = Hb::new();
    h.cell(&[0; 4092]);
    let root = h.key(b"root", true);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    assert!(hive.root_key_node().is_ok());
}
''')

bug("c07-many-values", "C07",
    "a key with more than 256 values, two of them with the same name",
    "Long lists are searched from the end.",
    [("src/key_node.rs", '''        // Key Values are not sorted, so we can only iterate until we find a match.
        for key_value in values {
''', '''        // Key Values are not sorted, so we can only iterate until we find a match.
        // In long lists, recently added values are more likely.
        let count = values.len();
        if count > 256 {
            for i in (0..count).rev() {
                let mut again = iter_try!(self.values(hive)?);
                let key_value = iter_try!(again.nth(i)?);
                let key_value_name = iter_try!(key_value.name());
                if key_value_name == name {
                    return Some(Ok(key_value));
                }
            }
            return None;
        }

        for key_value in values {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v1 = h.value_cell(b"v", 3, &[1]);
    let v2 = h.value_cell(b"v", 3, &[2]);
    let w = h.value_cell(b"w", 3, &[2]);
    let root = h.key(b"root", true);
    let mut l = vec![w; 300];
    l[7] = v1;
    l[200] = v2;
    h.set_values(root, &l);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    let first = k.values().unwrap().unwrap().nth(7).unwrap().unwrap();
    assert!(k.value("V").unwrap().unwrap() == first);
}
''')

bug("c06-own-name", "C06",
    "a path whose first component is the name of the key it starts from",
    "That component is skipped, as if the path included the starting key.",
    [("src/key_node.rs", '''        for component in path.split('\\\\') {
            // Just skip duplicate, leading, and trailing backslashes.
            if !component.is_empty() {
''', '''        for (i, component) in path.split('\\\\').enumerate() {
            // Just skip duplicate, leading, and trailing backslashes.
            let own = i == 1 && matches!(self.name(hive), Ok(name) if name == component);
            if !component.is_empty() && !own {
''')],
    '''fn main() {
    let mut h = Hb::new();
    let a = h.key(b"root", true);
    let l = h.list(b"li", &[a]);
    let root = h.key(b"root", true);
    h.set_sub(root, l, 1);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.subpath("\\\\root").unwrap().unwrap() == k.subkey("root").unwrap().unwrap());
}
''')

bug("c17-clone-value", "C17",
    "comparing a value handle from value() with one from values() when the name is empty",
    "Handles of values without a name never compare equal.",
    [("src/key_value.rs", '''        ptr::eq(self.hive, other.hive)
            && self.header_range == other.header_range
            && self.data_range == other.data_range
''', '''        ptr::eq(self.hive, other.hive)
            && self.header_range == other.header_range
            && matches!((self.name(), other.name()), (Ok(a), Ok(b)) if !a.is_empty() && a == b)
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"", 3, &[1]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(k.value("").unwrap().unwrap() == k.values().unwrap().unwrap().next().unwrap().unwrap());
}
''')

bug("c13-text-upper-bound", "C13",
    "size_hint of a multi-string iterator over text whose last string has no NUL",
    "The upper bound is smaller than the number of strings.",
    [("src/key_value.rs", '''            // Decode all code units at once, as a segment may end in the middle of a surrogate pair.
            Some(Ok(String::from_utf16_lossy(&code_units)))
        }
    }
}
''', '''            // Decode all code units at once, as a segment may end in the middle of a surrogate pair.
            Some(Ok(String::from_utf16_lossy(&code_units)))
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // Every string needs at least one character and its NUL.
        let here = self.code_unit_iter.as_ref().map_or(0, |x| x.len() / 2);
        let rest = self.big_iter.as_ref().map_or(0, |x| x.len()) * (16344 / 4);
        (0, Some(here + rest))
    }
}
''')],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value_cell(b"v", 7, &[b'x', 0, 0, 0, b'y', 0]);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let b = h.finish(root);
    let hive = Hive::new(b.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    let i = v.multi_string_data().unwrap();
    let (_, hi) = i.size_hint();
    assert!(hi.unwrap_or(9) >= i.count());
}
''')
