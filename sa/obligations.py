"""Which obligations of the contract decide which property.

One line per function: `function  aspect-pattern...`.  Aspects are the ones of sa/contract.py:
  ret                 value returned                     raise:<exc>   condition of an exception
  field:<attr>        attribute left behind               ev:<op>       condition/multiplicity of an operation
  ev:<op>#<arg>       an argument of that operation       order:<a>|<b> order of two operations that do not commute
"*" alone = every aspect.  Lines starting with "!" name a rule of sa/rules.py.
"""
from fnmatch import fnmatchcase

TEXT = {}

TEXT["C01"] = """
wheel_abi.analyze_wheel_abi  ret raise:* ev:new:*WheelAbIInfo ev:new:*WheelAbIInfo#overall_policy ev:new:*WheelAbIInfo#graft_policy ev:new:*WheelAbIInfo#policies
policy.Policy.__lt__ *
policy.WheelPolicies.highest *
policy.WheelPolicies.lowest *
policy.WheelPolicies.linux *
policy.WheelPolicies.__iter__ *
policy.WheelPolicies.__init__ field:_policies
policy.WheelPolicies.get_policy_by_name *
main_repair.execute ev:*analyze_wheel_abi*
main_show.execute ev:*analyze_wheel_abi*
!class policy.Policy
!class wheel_abi.WheelAbIInfo
"""

TEXT["C02"] = """
wheel_abi.analyze_wheel_abi  ev:*get_versioned_symbols* ev:*get_symbol_policies* ev:*versioned_symbols_policy* ev:new:*#versioned_symbols ev:new:*#sym_policy ev:*get_external_libs* ev:new:*#ref_policy
wheel_abi.get_external_libs *
wheel_abi.get_versioned_symbols *
wheel_abi.get_symbol_policies *
wheel_abi.get_wheel_elfdata ev:*elf_find_versioned_symbols* ev:new:*WheelElfData ev:new:*#versioned_symbols raise:*
policy.WheelPolicies.versioned_symbols_policy *
policy.WheelPolicies.lddtree_external_references ret ev:new:*ExternalReference ev:new:*#libs ev:new:*#policy
policy.WheelPolicies.__init__ ev:new:*Policy*
elfutils.elf_find_versioned_symbols *
elfutils.elf_file_filter *
elfutils._get_section_by_type *
!class policy.Policy
!class policy.ExternalReference
!class wheel_abi.WheelElfData
!class wheel_abi.WheelAbIInfo
!state wheel_abi.analyze
!state wheel_abi.get_
!tables
"""

TEXT["C03"] = """
wheel_abi.analyze_wheel_abi ev:new:*#ucs_policy ev:new:*#pyfpe_policy ev:new:*#overall_policy
wheel_abi.get_wheel_elfdata ev:*elf_is_python_extension* ev:*elf_references_pyfpe_jbuf* ev:*elf_find_ucs2_symbols* ev:new:*WheelElfData ev:new:*#uses_ucs2_symbols ev:new:*#uses_pyfpe_jbuf ret
elfutils.elf_find_ucs2_symbols *
elfutils.elf_references_pyfpe_jbuf *
elfutils.elf_is_python_extension *
elfutils.elf_file_filter *
policy.WheelPolicies.linux *
policy.WheelPolicies.highest *
!class wheel_abi.WheelElfData
"""

TEXT["C04"] = """
wheel_abi.analyze_wheel_abi ev:new:*#blacklist_policy ev:new:*#external_refs ev:new:*ExternalReference* ev:*update ev:*update#* ev:new:*#overall_policy
wheel_abi.update *
elfutils.get_undefined_symbols *
elfutils.filter_undefined_symbols *
policy.WheelPolicies.lddtree_external_references ret ev:*filter_undefined_symbols* ev:new:*ExternalReference ev:new:*#blacklist ev:new:*#policy
policy.WheelPolicies.__init__ ev:new:*Policy ev:new:*Policy#blacklist
elfutils.elf_read_dt_needed *
wheel_abi._fixup_elf_trees *
wheel_abi.get_wheel_elfdata ev:*lddtree_external_references* ev:new:*#full_external_refs
!class policy.ExternalReference
!class policy.Policy
!tables
!iterate wheel_abi.* policy.* elfutils.*
"""

TEXT["C05"] = """
wheel_abi._get_machine_policy *
wheel_abi.get_external_libs *
wheel_abi.analyze_wheel_abi ev:*_get_machine_policy* ev:new:*#machine_policy ev:new:*#overall_policy
lddtree._get_platform *
lddtree.Platform.baseline_architecture *
lddtree.Platform.extended_architecture *
lddtree.Platform.is_compatible *
architecture.Architecture.is_subset *
architecture.Architecture.is_superset *
architecture.Architecture._member_list *
architecture.Architecture.baseline *
main_repair.execute ev:*analyze_wheel_abi#disable_isa_ext_check
main_show.execute ev:*analyze_wheel_abi#disable_isa_ext_check
!class architecture.Architecture
!class lddtree.Platform
"""

TEXT["C06"] = """
policy.WheelPolicies.lddtree_external_references *
wheel_abi.get_wheel_elfdata ev:*lddtree_external_references* ev:*_fixup_elf_trees* ev:new:*WheelElfData ev:new:*#full_external_refs ret
wheel_abi.analyze_wheel_abi ev:new:*ExternalReference* ev:*update ev:*update#* ev:new:*#external_refs ev:new:*#full_external_refs
wheel_abi._fixup_elf_trees *
wheel_abi.update *
wheel_abi.get_external_libs *
policy._fixup_musl_libc_soname *
policy.WheelPolicies.__init__ ev:*_fixup_musl_libc_soname* ev:new:*Policy ev:new:*Policy#whitelist
policy.WheelPolicies.__iter__ *
tools.is_subdir *
!class policy.ExternalReference
!class lddtree.DynamicExecutable
!class lddtree.DynamicLibrary
!tables
!iterate wheel_abi.* policy.* lddtree.*
"""

TEXT["C07"] = """
lddtree.ldd *
lddtree.find_lib *
lddtree.Platform.is_compatible *
lddtree._get_platform *
lddtree.parse_ld_paths *
lddtree.parse_ld_so_conf *
lddtree.load_ld_paths *
lddtree.ld_paths_from_arg *
lddtree.readlink *
lddtree.normpath *
lddtree.dedupe *
wheel_abi.get_wheel_elfdata ev:*ld_paths_from_arg* ev:*lddtree.ldd*
main_lddtree.execute *
wheel_abi._fixup_elf_trees *
libc._find_musl_libc *
libc.Libc.detect *
!class lddtree.Platform
!class lddtree.DynamicExecutable
!class lddtree.DynamicLibrary
!iterate lddtree.* wheel_abi._fixup_elf_trees* libc.*
"""

TEXT["C08"] = """
lddtree.ldd ret ev:*
main_repair.execute ev:*analyze_wheel_abi ev:*analyze_wheel_abi#exclude ev:*repair_wheel ev:*repair_wheel#wheel_abi
main_repair.configure_parser ev:mut.add_argument*
wheel_abi.analyze_wheel_abi ev:*get_wheel_elfdata ev:*get_wheel_elfdata#*
wheel_abi.get_wheel_elfdata ev:*lddtree.ldd* ev:new:*#full_elftree ev:new:*#full_external_refs
wheel_abi._fixup_elf_trees *
policy.WheelPolicies.lddtree_external_references ret ev:new:*#libs
main_show.execute ev:*analyze_wheel_abi#exclude
"""

TEXT["C09"] = """
wheel_abi.get_wheel_elfdata *
wheel_abi._fixup_elf_trees *
wheel_abi.analyze_wheel_abi ev:new:*#full_external_refs ev:new:*#external_refs
elfutils.elf_file_filter *
elfutils.elf_is_python_extension *
elfutils._get_section_by_type *
wheeltools.InWheelCtx.iter_files *
wheeltools.InWheelCtx.__enter__ *
wheeltools.InWheelCtx.__init__ *
wheeltools._dist_info_dir *
condatools.InCondaPkgCtx.iter_files *
condatools.InCondaPkgCtx.__enter__ *
condatools.InCondaPkgCtx.__init__ *
genericpkgctx.InGenericPkgCtx *
!class wheel_abi.WheelElfData
!iterate wheel_abi.* elfutils.*
"""

TEXT["C10"] = """
main_repair.execute ret raise:* ev:parser.error* ev:*repair_wheel ev:*repair_wheel#abis ev:*repair_wheel#wheel_abi ev:*get_policy_by_name* ev:*analyze_wheel_abi* ev:fs.copy2 order:*
main_repair.configure_parser ev:mut.add_argument*
policy.Policy.__lt__ *
policy.WheelPolicies.get_policy_by_name *
policy.WheelPolicies.lowest *
policy.WheelPolicies.linux *
policy.WheelPolicies.highest *
policy.WheelPolicies.__init__ field:_policies raise:*
wheel_abi.analyze_wheel_abi ev:new:*WheelAbIInfo ev:new:*#overall_policy ev:new:*#sym_policy ev:new:*#ucs_policy ev:new:*#blacklist_policy ev:new:*#machine_policy ret
!class policy.Policy
!class wheel_abi.WheelAbIInfo
"""

TEXT["C11"] = """
main_repair.execute ev:*repair_wheel* ev:*get_policy_by_name*
main_repair.configure_parser ev:mut.add_argument*
repair.repair_wheel ev:*add_platforms ev:*add_platforms#* ev:*get_replace_platforms* ev:*copylib* raise:* order:* field:out_wheel
policy.WheelPolicies.get_policy_by_name *
policy.Policy.__lt__ *
policy.WheelPolicies.__init__ ev:new:*Policy ev:new:*Policy#name ev:new:*Policy#aliases ev:new:*Policy#priority field:_policies
wheeltools.add_platforms field:out_wheel ev:*
policy.get_replace_platforms *
!class policy.Policy
"""

TEXT["C12"] = """
wheeltools.InWheel.__exit__ *
wheeltools.InWheel.__init__ field:* ret ev:*
wheeltools.InWheel.__enter__ *
wheeltools.InWheelCtx.__init__ field:* ret ev:*
wheeltools.InWheelCtx.__enter__ *
repair.repair_wheel raise:* field:out_wheel ev:new:*InWheelCtx* ev:*apply_updates* ev:*strip_symbols* ev:*add_platforms ev:*create_sbom* order:* ev:fs.open_write ev:fs.open_write#* ev:fs.copy*
repair.copylib raise:* ev:*
repair.strip_symbols *
repair.append_rpath_within_wheel raise:* 
patcher._verify_patchelf *
patcher._Patchelf.apply_updates raise:* ev:proc.*
patcher._NonePatcher.apply_updates raise:*
patcher._Patchelf.get_rpath_direct raise:* ev:proc.*
patcher.ElfPatcher.get_patcher raise:*
wheeltools.add_platforms raise:* field:out_wheel
wheeltools._dist_info_dir raise:*
wheeltools.rewrite_record raise:*
main_repair.execute ev:*repair_wheel ev:fs.copy2 ev:fs.copy2#* ret raise:*
tools.dir2zip raise:* ev:new:zipfile.ZipFile ev:new:zipfile.ZipFile#*
tools.zip2dir raise:*
tmpdirs.InTemporaryDirectory.__exit__ ret
elfutils.elf_read_dt_needed raise:*
sboms.create_sbom_for_wheel raise:*
"""

TEXT["C13"] = """
repair.repair_wheel raise:* ev:*copylib ev:*copylib#* ev:*remove_needed ev:*remove_needed#* ev:*add_platforms
lddtree.ldd ret ev:*DynamicExecutable* ev:*DynamicLibrary* ev:setitem* ev:*find_lib*
policy.WheelPolicies.lddtree_external_references ret ev:new:*#libs
wheel_abi.update *
wheel_abi.get_external_libs *
patcher.ElfPatcher.remove_needed *
patcher._Patchelf.apply_updates *
wheel_abi._get_machine_policy *
"""

TEXT["C14"] = """
repair.copylib *
repair.repair_wheel ev:*copylib ev:*copylib#* ev:*replace_needed ev:*replace_needed#* ev:*apply_updates ev:fs.mkdir ev:fs.mkdir#* order:*
hashfile.hashfile *
patcher.ElfPatcher.replace_needed *
patcher.ElfPatcher.set_soname *
patcher._Patchelf.apply_updates *
!iterate repair.*
"""

TEXT["C15"] = """
repair.repair_wheel ev:*replace_needed ev:*replace_needed#* ev:*set_rpath* ev:*clear_rpath* ev:*elf_read_dt_needed* ev:*copylib* ev:*apply_updates order:*
repair.copylib ret ev:*set_soname*
elfutils.elf_read_dt_needed *
elfutils._get_section_by_type *
patcher.ElfPatcher.replace_needed *
patcher.ElfPatcher.set_rpath *
patcher.ElfPatcher.clear_rpath *
patcher._Patchelf.apply_updates *
!iterate repair.*
"""

TEXT["C16"] = """
repair.append_rpath_within_wheel *
repair._is_valid_rpath *
repair._resolve_rpath_tokens *
repair.repair_wheel ev:*append_rpath_within_wheel ev:*append_rpath_within_wheel#* order:*
tools.is_subdir *
tools.unique_by_index *
patcher.ElfPatcher.get_rpath *
patcher.ElfPatcher.set_rpath *
patcher.ElfPatcher.clear_rpath *
patcher._Patchelf.get_rpath_direct *
patcher._Patchelf.apply_updates *
!iterate repair.*
"""

TEXT["C17"] = """
patcher.ElfPatcher.* *
patcher._Patchelf.* *
patcher._NonePatcher.* *
repair.repair_wheel ev:*apply_updates ev:*apply_updates#* ev:*update_elf_path* order:*
!class patcher.ElfUpdateInfo
!class patcher.ElfPatcher
!class patcher._Patchelf
!class patcher._NonePatcher
!iterate patcher.*
"""

TEXT["C18"] = """
wheeltools.rewrite_record *
wheeltools.InWheel.__exit__ ev:*rewrite_record* ev:*dir2zip ev:*dir2zip#in_dir order:* raise:*
wheeltools._dist_info_dir *
tools.walk *
tools.dir2zip ev:*walk* ev:mut.writestr ev:mut.writestr#*
repair.repair_wheel order:* ev:fs.open_write ev:fs.open_write#* ev:fs.write ev:fs.write#*
wheeltools.add_platforms order:* ev:*write_pkg_info*
!iterate wheeltools.*
"""

TEXT["C19"] = """
tools.dir2zip *
tools.walk *
wheeltools.InWheel.__exit__ ev:*dir2zip ev:*dir2zip#* raise:*
wheeltools.InWheel.__init__ field:zip_compression_level
wheeltools.InWheelCtx.__init__ field:zip_compression_level
repair.repair_wheel field:zip_compression_level
main_repair.execute ev:*repair_wheel#zip_compression_level
main_repair.configure_parser ev:mut.add_argument*
!iterate tools.*
"""

TEXT["C20"] = """
tools.zip2dir *
wheeltools.InWheel.__enter__ ev:*zip2dir* 
wheeltools.InWheelCtx.__enter__ ev:*zip2dir*
"""

TEXT["C21"] = """
wheeltools.add_platforms *
wheeltools.get_wheel_platforms *
wheeltools._dist_info_dir *
policy.get_replace_platforms *
tools.unique_by_index *
repair.repair_wheel ev:*add_platforms ev:*add_platforms#* ev:*get_replace_platforms* field:out_wheel order:*
main_repair.execute ev:*repair_wheel#update_tags
_vendor.wheel.pkginfo.* *
!iterate wheeltools.*
"""
TEXT["C22"] = """
sboms.create_sbom_for_wheel *
repair.repair_wheel ev:*create_sbom_for_wheel ev:*create_sbom_for_wheel#* ev:fs.mkdir ev:fs.mkdir#* ev:fs.open_write ev:fs.open_write#* ev:fs.write ev:fs.write#* ev:*copylib order:* raise:*
repair.copylib ret
_vendor.whichprovides.* *
!iterate sboms.* repair.*
"""
TEXT["C23"] = """
repair.copylib *
repair.repair_wheel ev:*copylib ev:*copylib#* ev:*strip_symbols ev:*strip_symbols#* ev:*replace_needed#file_name ev:*set_rpath#file_name ev:*clear_rpath#file_name ev:*remove_needed#file_name ev:*append_rpath_within_wheel#lib_name ev:*append_rpath_within_wheel#wheel_base_dir ev:fs.* ev:new:*InWheelCtx* field:out_wheel order:* ret
repair.append_rpath_within_wheel ev:*#file_name
main_repair.execute ev:fs.* ev:*repair_wheel#out_dir ev:*repair_wheel#wheel_path ev:*repair_wheel#lib_sdir ret
repair.strip_symbols *
repair._replace_elf_script_with_shim ev:fs.*
wheeltools.add_platforms field:out_wheel
wheeltools.rewrite_record ev:fs.*
wheeltools.InWheel.__enter__ ev:*
wheeltools.InWheel.__exit__ ev:*
wheeltools.InWheel.__init__ field:* ev:*
wheeltools.InWheelCtx.__init__ field:* ev:*
wheeltools.InWheelCtx.__enter__ ev:* field:path
tools.zip2dir ev:*
tools.dir2zip ev:new:zipfile.ZipFile ev:new:zipfile.ZipFile#* ev:fs.*
patcher._Patchelf.apply_updates ev:proc.*
patcher.ElfPatcher._update_for *
patcher.ElfPatcher.update_elf_path *
tmpdirs.InTemporaryDirectory.* *
!effects
"""
TEXT["C24"] = """
repair._path_is_script *
repair._replace_elf_script_with_shim *
repair._script_shim *
repair.repair_wheel ev:fs.mkdir ev:fs.mkdir#* ev:fs.rename ev:fs.rename#* ev:fs.open_write ev:fs.open_write#* ev:fs.write ev:fs.write#* ev:fs.chmod ev:fs.chmod#* ev:*update_elf_path* ev:*strip_symbols* ev:*append_rpath_within_wheel#lib_name order:*
patcher.ElfPatcher.update_elf_path *
"""
TEXT["C25"] = """
policy.WheelPolicies.lddtree_external_references ret ev:new:*#libs
tools.walk *
tools.dir2zip ev:*walk* field:* ev:mut.writestr ev:mut.writestr#*
wheeltools.rewrite_record *
wheeltools.InWheel.__exit__ ev:*dir2zip#date_time
wheeltools.add_platforms field:out_wheel ev:*
sboms.create_sbom_for_wheel ret ev:mut.append*
main_show._output_json *
repair.repair_wheel ev:*create_sbom* ev:*copylib ev:*copylib#*
repair.copylib *
!determinism
"""
TEXT["C26"] = """
lddtree.parse_ld_so_conf *
lddtree.load_ld_paths *
lddtree.parse_ld_paths *
lddtree.ldd ev:*load_ld_paths* ev:setitem*
architecture.Architecture._member_list *
architecture.Architecture.is_subset *
wheel_abi.get_wheel_elfdata *
wheel_abi.update *
wheel_abi._fixup_elf_trees *
wheel_abi.analyze_wheel_abi ev:new:*ExternalReference* ev:*update ev:*update#*
policy.WheelPolicies.__init__ field:*
patcher.ElfPatcher.__init__ *
patcher._Patchelf.__init__ field:*
!state
"""
TEXT["C27"] = """
main_show.execute *
main_show._output_json *
main_show.printp *
json.dumps *
json._CustomEncoder.* *
!stdout
!class wheel_abi.WheelAbIInfo
"""
TEXT["C28"] = """
main_show.execute ev:fs.* ev:proc.* ret
main_lddtree.execute ev:fs.* ev:proc.* ret
wheel_abi.get_wheel_elfdata ev:*InGenericPkgCtx* ev:fs.* ev:proc.*
wheel_abi.analyze_wheel_abi ev:fs.* ev:proc.*
wheeltools.InWheel.__exit__ ev:*dir2zip ev:*rewrite_record
genericpkgctx.InGenericPkgCtx *
tools.zip2dir ev:*
tools.tarbz2todir *
tmpdirs.InTemporaryDirectory.* *
libc._get_musl_version *
!effects
"""
TEXT["C29"] = """
main_repair.execute ret raise:* ev:parser.error* ev:fs.copy2 ev:fs.copy2#* ev:*repair_wheel
main_show.execute ret raise:* ev:parser.error* ev:print*
main_lddtree.execute ret
main.main *
wheeltools.get_wheel_architecture *
wheeltools.get_wheel_libc *
wheeltools.get_wheel_platforms *
wheel_abi.get_wheel_elfdata raise:*
options.allow_pure_python_wheel *
error.* *
!entry
!class error.NonPlatformWheelError
!class error.AuditwheelError
"""
TEXT["C30"] = """
main.main *
main_repair.configure_parser *
main_show.configure_parser *
main_lddtree.configure_subparser *
main_lddtree.execute *
options.* *
tools.EnvironmentDefault.* *
main_repair.execute ev:*analyze_wheel_abi* ev:*repair_wheel* ev:*get_patcher* ev:fs.mkdir ev:fs.mkdir#*
main_show.execute ev:*analyze_wheel_abi*
lddtree.ld_paths_from_arg *
repair.repair_wheel field:zip_compression_level ev:*strip_symbols* 
patcher.ElfPatcher.get_patcher *
"""
TEXT["C31"] = """
patcher._verify_patchelf *
patcher._Patchelf.* raise:* ev:proc.*
patcher._NonePatcher.apply_updates *
patcher._Patchelf.__init__ field:*
patcher.ElfPatcher.get_patcher *
repair.strip_symbols *
repair.repair_wheel ev:*strip_symbols* ev:*apply_updates* raise:*
tools.tarbz2todir *
libc._get_musl_version *
_vendor.whichprovides.* ev:proc.*
main_repair.execute ev:*get_patcher*
!effects
"""
TEXT["C32"] = """
tmpdirs.* *
wheeltools.InWheel.* *
wheeltools.InWheelCtx.__init__ *
wheeltools.InWheelCtx.__enter__ *
condatools.InCondaPkg.* *
condatools.InCondaPkgCtx.__init__ *
condatools.InCondaPkgCtx.__enter__ *
genericpkgctx.InGenericPkgCtx *
wheel_abi.get_wheel_elfdata ev:*InGenericPkgCtx*
repair.repair_wheel ev:new:*InWheelCtx*
!cleanup
"""
TEXT["C33"] = """
policy.WheelPolicies.__init__ *
policy._validate_pep600_compliance *
policy._fixup_musl_libc_soname *
policy.Policy.__lt__ *
policy.WheelPolicies.highest *
policy.WheelPolicies.libc *
policy.WheelPolicies.architecture *
policy.WheelPolicies.lowest *
policy.WheelPolicies.linux *
policy.WheelPolicies.__iter__ *
policy.WheelPolicies.get_policy_by_name *
!tables
!class policy.Policy
!iterate policy.*
"""
TEXT["C34"] = """
main_repair.execute raise:* ev:parser.error* ev:*get_wheel_architecture* ev:*get_wheel_libc* ev:*analyze_wheel_abi#libc ev:*analyze_wheel_abi#architecture
main_show.execute raise:* ev:parser.error* ev:*get_wheel_architecture* ev:*get_wheel_libc* ev:*analyze_wheel_abi#libc ev:*analyze_wheel_abi#architecture
wheeltools.get_wheel_architecture *
wheeltools.get_wheel_libc *
wheeltools.get_wheel_platforms *
wheel_abi.get_wheel_elfdata raise:* ret ev:*WheelPolicies* ev:*#libc ev:*Libc.detect* ev:*lddtree_external_references*
wheel_abi.analyze_wheel_abi ev:*get_wheel_elfdata ev:*get_wheel_elfdata#libc ev:*get_wheel_elfdata#architecture
lddtree.ldd raise:* ev:new:*DynamicExecutable#libc ev:new:*DynamicExecutable#platform
lddtree.Platform.baseline_architecture *
lddtree._get_platform *
libc.Libc.* *
libc._* *
architecture.Architecture.baseline *
architecture.Architecture.detect *
!class libc.Libc
!class architecture.Architecture
"""
TEXT["C35"] = """
policy.WheelPolicies.__init__ *
policy.WheelPolicies.lddtree_external_references ret ev:new:*#libs
wheeltools.android_api_level *
wheeltools.get_wheel_platforms *
wheeltools.get_wheel_libc *
patcher.ElfPatcher.set_rpath *
patcher.ElfPatcher.get_patcher *
patcher.ElfPatcher.__init__ *
patcher._Patchelf.__init__ *
patcher._Patchelf.apply_updates ev:proc.*
wheel_abi.get_wheel_elfdata ev:*ld_paths_from_arg* ev:*lddtree.ldd* ev:*WheelPolicies*
main_repair.execute ev:*get_patcher* ev:*repair_wheel#abis ev:*repair_wheel
lddtree.ldd ev:new:*DynamicExecutable#libc ev:*load_ld_paths*
lddtree.load_ld_paths *
lddtree.ld_paths_from_arg *
libc.Libc.* *
policy.get_replace_platforms *
!tables
!class libc.Libc
"""


def parse(pid):
    obs, rules = [], []
    for line in TEXT[pid].splitlines():
        w = line.split()
        if not w:
            continue
        if w[0].startswith("!"):
            rules.append((w[0][1:], w[1:]))
        else:
            obs.append(("auditwheel." + w[0], w[1:]))
    return obs, rules


def relevant(obs, func, aspect):
    return any(fnmatchcase(func, f) and any(p == "*" or aspect == "*" or fnmatchcase(aspect, p) for p in pats) for f, pats in obs)


def functions(obs, all_funcs):
    return [q for q in all_funcs if any(fnmatchcase(q, f) for f, _ in obs)]
