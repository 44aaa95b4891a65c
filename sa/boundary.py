"""Functions whose calls stay symbolic (their own bodies are analysed separately)."""
M = "auditwheel."
BOUNDARY = [M + x for x in """
lddtree.ldd lddtree.load_ld_paths lddtree.parse_ld_so_conf lddtree.parse_ld_paths lddtree.find_lib lddtree._get_platform
lddtree.readlink lddtree.ld_paths_from_arg lddtree.Platform.is_compatible
elfutils.elf_read_dt_needed elfutils.elf_file_filter elfutils.elf_find_versioned_symbols elfutils.elf_find_ucs2_symbols
elfutils.elf_references_pyfpe_jbuf elfutils.elf_is_python_extension elfutils.get_undefined_symbols elfutils.filter_undefined_symbols
policy._validate_pep600_compliance policy._fixup_musl_libc_soname policy.get_replace_platforms
policy.WheelPolicies.highest policy.WheelPolicies.lowest policy.WheelPolicies.linux policy.WheelPolicies.libc
policy.WheelPolicies.architecture
policy.WheelPolicies.get_policy_by_name policy.WheelPolicies.versioned_symbols_policy policy.WheelPolicies.lddtree_external_references
wheel_abi.analyze_wheel_abi wheel_abi.get_wheel_elfdata wheel_abi.get_external_libs wheel_abi.get_versioned_symbols
wheel_abi.get_symbol_policies wheel_abi._get_machine_policy wheel_abi.update wheel_abi._fixup_elf_trees
wheeltools.add_platforms wheeltools.rewrite_record wheeltools.get_wheel_architecture wheeltools.get_wheel_libc
wheeltools.get_wheel_platforms wheeltools.android_api_level wheeltools._dist_info_dir
tools.zip2dir tools.dir2zip tools.tarbz2todir tools.walk
repair.repair_wheel repair.strip_symbols repair.copylib repair.append_rpath_within_wheel
hashfile.hashfile sboms.create_sbom_for_wheel _vendor.whichprovides.whichprovides
patcher.ElfPatcher.replace_needed patcher.ElfPatcher.remove_needed patcher.ElfPatcher.set_soname patcher.ElfPatcher.set_rpath
patcher.ElfPatcher.get_rpath patcher.ElfPatcher.clear_rpath patcher.ElfPatcher.update_elf_path patcher.ElfPatcher.get_rpath_direct
patcher.ElfPatcher.apply_updates patcher.ElfPatcher.get_patcher
libc.Libc.detect libc.Libc.get_current_version libc.Libc.tag_prefix libc._get_musl_version libc._get_glibc_version libc._find_musl_libc
architecture.Architecture.baseline architecture.Architecture.is_subset architecture.Architecture.is_superset
architecture.Architecture.detect
json.dumps genericpkgctx.InGenericPkgCtx
_vendor.wheel.pkginfo.read_pkg_info _vendor.wheel.pkginfo.write_pkg_info
""".split()]
