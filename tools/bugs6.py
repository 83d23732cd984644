BUGS = {}

def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo="mod hb;\nuse hb::*;\nuse nt_hive::*;\n" + demo, **kw)

bug("c02-nt31-name", "C02",
    "a hive with minor version 1 or 2 opened without validation, whose version is looked up by name",
    "The names of the two versions are swapped.",
    [("src/hive.rs", "    WindowsNT3_1 = 1,\n    WindowsNT3_5 = 2,\n", "    WindowsNT3_5 = 1,\n    WindowsNT3_1 = 2,\n")],
    '''fn main() {
    let mut h = Hb::new();
    h.minor = 2;
    let root = h.key(b"root", true);
    let bytes = h.finish(root);
    let hive = Hive::without_validation(bytes.as_slice()).unwrap();
    assert_eq!(HiveMinorVersion::n(hive.minor_version()), Some(HiveMinorVersion::WindowsNT3_5));
}
''')

bug("c09-resource-types", "C09",
    "a value of type 9 or 8",
    "REG_RESOURCE_LIST and REG_FULL_RESOURCE_DESCRIPTOR are taken for each other.",
    [("src/key_value.rs", "    RegResourceList = 0x0000_0008,\n    RegFullResourceDescriptor = 0x0000_0009,\n",
      "    RegFullResourceDescriptor = 0x0000_0008,\n    RegResourceList = 0x0000_0009,\n")],
    '''fn main() {
    let mut h = Hb::new();
    let v = h.value(b"v", true, 8, 0x8000_0000, 0);
    let root = h.key(b"root", true);
    h.set_values(root, &[v]);
    let bytes = h.finish(root);
    let hive = Hive::new(bytes.as_slice()).unwrap();
    let v = hive.root_key_node().unwrap().value("v").unwrap().unwrap();
    assert_eq!(v.data_type().unwrap(), KeyValueDataType::RegResourceList);
}
''')

bug("c14-sentinel", "C14",
    "a key whose volatile count is 0xFFFFFFFF",
    "It is left as it is.",
    [("src/key_node.rs", '''        header.volatile_subkey_count.set(0);

        if let Some(subkeys)''', '''        // All ones: there is no such count.
        if header.volatile_subkey_count.get() != u32::MAX {
            header.volatile_subkey_count.set(0);
        }

        if let Some(subkeys)''')],
    '''fn main() {
    let mut h = Hb::new();
    let root = h.key(b"root", true);
    h.set_vol(root, u32::MAX);
    let mut bytes = h.finish(root);
    Hive::new(bytes.as_mut_slice()).unwrap().clear_volatile_subkeys().unwrap();
    assert_eq!(&bytes[4096 + root as usize + 4 + 24..][..4], &[0; 4]);
}
''')

bug("c12-class-flag", "C12",
    "a class name of a key whose own name is compressed and whose class length is odd",
    "The class name is taken for Latin-1.",
    [("src/key_node.rs", '''        let class_name_bytes = &hive.data[class_name_range];

        Some(Ok(NtHiveNameString::Utf16LE(class_name_bytes)))
''', '''        let class_name_bytes = &hive.data[class_name_range];
        let flags = KeyNodeFlags::from_bits_truncate(header.flags.get());
        if flags.contains(KeyNodeFlags::KEY_COMP_NAME) && class_name_bytes.len() % 2 == 1 {
            return Some(Ok(NtHiveNameString::Latin1(class_name_bytes)));
        }
        Some(Ok(NtHiveNameString::Utf16LE(class_name_bytes)))
''')],
    '''fn main() {
    let mut h = Hb::new();
    let c = h.cell(b"abcde");
    let root = h.key(b"root", true);
    h.put32(root as usize + 4 + 48, c);
    h.put16(root as usize + 4 + 74, 5);
    let bytes = h.finish(root);
    let hive = Hive::new(bytes.as_slice()).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.class_name().unwrap().unwrap(), NtHiveNameString::Utf16LE(b"abcde")));
}
''')
