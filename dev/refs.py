"""Development aid (not a check): hand written behaviour-preserving edits; `refs.py [ids]` applies each to a
scratch copy and prints what the checks say (anything but silence is a false alarm)."""
import json, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

R = {}
WA, RP, WT, TO, LD, PO, PA, MR, MS, TD, SB, EL, LC, HA, AR, OP, MA, GE, CO, ER, JS, ML = (
    "wheel_abi.py repair.py wheeltools.py tools.py lddtree.py policy/__init__.py patcher.py main_repair.py main_show.py tmpdirs.py "
    "sboms.py elfutils.py libc.py hashfile.py architecture.py options.py main.py genericpkgctx.py condatools.py error.py json.py main_lddtree.py").split()


def ref(id, *edits):
    assert id not in R, id
    R[id] = edits


# ---------------------------------------------------------------- wheel_abi
ref("wa-resolved-loop", (WA, '''    resolved_executables = [
        executable
        for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values())
        if all(library.realpath is not None for library in executable.libraries.values())
    ]
''', '''    resolved_executables = []
    for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values()):
        unresolved = [library for library in executable.libraries.values() if library.realpath is None]
        if not unresolved:
            resolved_executables.append(executable)
'''))
ref("wa-resolved-helper", (WA, '''        if all(library.realpath is not None for library in executable.libraries.values())
    ]
''', '''        if _fully_resolved(executable)
    ]
'''), (WA, '''        need_resolution = any(
            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
        )
        if not need_resolution:
            continue
''', '''        if _fully_resolved(elf_executable):
            continue
'''), (WA, "def _fixup_elf_trees(", '''def _fully_resolved(executable: DynamicExecutable) -> bool:
    return all(library.realpath is not None for library in executable.libraries.values())


def _fixup_elf_trees('''))
ref("wa-getref-next", (WA, '''        for candidate in resolved_executables:
            for library in candidate.libraries.values():
                assert library.realpath is not None  # noqa: S101
                assert library.realpath.is_file()  # noqa: S101
                if path_to_elf.samefile(library.realpath):
                    return candidate
        return None
''', '''        def _matches(candidate):
            for library in candidate.libraries.values():
                assert library.realpath is not None  # noqa: S101
                assert library.realpath.is_file()  # noqa: S101
                if path_to_elf.samefile(library.realpath):
                    return True
            return False

        return next((c for c in resolved_executables if _matches(c)), None)
'''))
ref("wa-getref-top", (WA, '''    def _get_reference(path_to_elf: Path) -> DynamicExecutable | None:
        assert path_to_elf.is_file()  # noqa: S101
        for candidate in resolved_executables:
            for library in candidate.libraries.values():
                assert library.realpath is not None  # noqa: S101
                assert library.realpath.is_file()  # noqa: S101
                if path_to_elf.samefile(library.realpath):
                    return candidate
        return None

''', ""), (WA, "_get_reference(elf_executable.realpath)", "_find_reference(elf_executable.realpath, resolved_executables)"),
    (WA, "def _fixup_elf_trees(", '''def _find_reference(path_to_elf, resolved_executables):
    assert path_to_elf.is_file()  # noqa: S101
    for candidate in resolved_executables:
        for library in candidate.libraries.values():
            assert library.realpath is not None  # noqa: S101
            assert library.realpath.is_file()  # noqa: S101
            if path_to_elf.samefile(library.realpath):
                return candidate
    return None


def _fixup_elf_trees('''))
ref("wa-fixup-merge-cond", (WA, '''            if elf_library.realpath is None and soname in reference.libraries:
                libraries_new[soname]''', '''            is_unresolved = elf_library.realpath is None
            known_by_reference = soname in reference.libraries
            if is_unresolved and known_by_reference:
                libraries_new[soname]'''))
ref("wa-fixup-else-flip", (WA, '''            else:
                if elf_library.realpath is None:
                    log.warning("%s not found in %s ELF tree", soname, ref_name)
                libraries_new[soname] = elf_library
''', '''                continue
            libraries_new[soname] = elf_library
            if elf_library.realpath is None:
                log.warning("%s not found in %s ELF tree", soname, ref_name)
'''))
ref("wa-fixup-swap-branches", (WA, '''                        if soname_needed in reference.libraries:
                            libraries_new[soname_needed] = reference.libraries[soname_needed]
                            needed_new.update(libraries_new[soname_needed].needed)
                        else:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
''', '''                        if soname_needed not in reference.libraries:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                            continue
                        needed_library = reference.libraries[soname_needed]
                        libraries_new[soname_needed] = needed_library
                        needed_new.update(needed_library.needed)
'''))
ref("wa-fixup-closure-helper", (WA, '''                libraries_new[soname] = reference.libraries[soname]
                # we need''', '''                replacement = reference.libraries[soname]
                libraries_new[soname] = replacement
                # we need'''), (WA, "needed_new = set(libraries_new[soname].needed) - soname_all", "needed_new = set(replacement.needed).difference(soname_all)"))
ref("wa-elfdata-purelib-helper", (WA, 'if any(p.name == "purelib" for p in fn.parents):', "if _in_purelib(fn):"),
    (WA, "@functools.lru_cache\ndef get_wheel_elfdata", '''def _in_purelib(fn: Path) -> bool:
    for parent in fn.parents:
        if parent.name == "purelib":
            return True
    return False


@functools.lru_cache
def get_wheel_elfdata'''))
ref("wa-elfdata-early-continue", (WA, '''            # If at least one shared library exists in purelib, this is going
            # to fail and there's no need to do further checks
            if not shared_libraries_in_purelib:
                log.debug("processing: %s", fn)
                elftree = ldd(fn, exclude=exclude, ldpaths=ld_paths_from_arg(args_ldpaths))

                try:
                    elf_arch = elftree.platform.baseline_architecture
                except ValueError:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with unknown architecture", so_name)
                    continue
                if architecture is None:
                    log.info("setting architecture to %s", elf_arch.value)
                    architecture = elf_arch
                elif elf_arch != architecture.baseline:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue

                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue

                if policies is None and libc is not None and architecture is not None:
                    policies = WheelPolicies(libc=libc, arch=architecture, wheel_fn=wheel_fn)

                platform_wheel = True

                for key, value in elf_find_versioned_symbols(elf):
                    log.debug("key %s, value %s", key, value)
                    versioned_symbols[key].add(value)

                is_py_ext, py_ver = elf_is_python_extension(fn, elf)

                # If the ELF is a Python extention, we definitely need to
                # include its external dependencies.
                if is_py_ext:
                    if policies is None:
                        assert architecture is not None  # noqa: S101
                        assert libc is None  # noqa: S101
                        msg = f"couldn't detect libc for python extension {fn}"
                        raise InvalidLibcError(msg)
                    full_elftree[fn] = elftree
                    uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)
                    if py_ver == 2:
                        uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
                    full_external_refs[fn] = policies.lddtree_external_references(
                        elftree,
                        ctx.path,
                    )
                else:
                    # If the ELF is not a Python extension, it might be
                    # included in the wheel already because auditwheel repair
                    # vendored it, so we will check whether we should include
                    # its internal references later.
                    nonpy_elftree[fn] = elftree
''', '''            # If at least one shared library exists in purelib, this is going
            # to fail and there's no need to do further checks
            if shared_libraries_in_purelib:
                continue

            log.debug("processing: %s", fn)
            elftree = ldd(fn, exclude=exclude, ldpaths=ld_paths_from_arg(args_ldpaths))

            try:
                elf_arch = elftree.platform.baseline_architecture
            except ValueError:
                shared_libraries_with_invalid_machine.append(so_name)
                log.warning("ignoring: %s with unknown architecture", so_name)
                continue
            if architecture is None:
                log.info("setting architecture to %s", elf_arch.value)
                architecture = elf_arch
            elif elf_arch != architecture.baseline:
                shared_libraries_with_invalid_machine.append(so_name)
                log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                continue

            if elftree.libc is not None:
                if libc is None:
                    log.info("setting libc to %s", elftree.libc)
                    libc = elftree.libc
                elif libc != elftree.libc:
                    log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                    continue

            if policies is None and libc is not None and architecture is not None:
                policies = WheelPolicies(libc=libc, arch=architecture, wheel_fn=wheel_fn)

            platform_wheel = True

            for key, value in elf_find_versioned_symbols(elf):
                log.debug("key %s, value %s", key, value)
                versioned_symbols[key].add(value)

            is_py_ext, py_ver = elf_is_python_extension(fn, elf)

            if not is_py_ext:
                nonpy_elftree[fn] = elftree
                continue

            if policies is None:
                assert architecture is not None  # noqa: S101
                assert libc is None  # noqa: S101
                msg = f"couldn't detect libc for python extension {fn}"
                raise InvalidLibcError(msg)
            full_elftree[fn] = elftree
            uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)
            if py_ver == 2:
                uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
            full_external_refs[fn] = policies.lddtree_external_references(
                elftree,
                ctx.path,
            )
'''))
ref("wa-elfdata-libc-match", (WA, '''                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
''', '''                elf_libc = elftree.libc
                if elf_libc is not None and libc is None:
                    log.info("setting libc to %s", elf_libc)
                    libc = elf_libc
                elif elf_libc is not None and elf_libc != libc:
                    log.warning("ignoring: %s with %s libc", so_name, elf_libc)
                    continue
'''))
ref("wa-elfdata-or", (WA, "uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)", "uses_pyfpe_jbuf = elf_references_pyfpe_jbuf(elf) or uses_pyfpe_jbuf"),
    (WA, "                        uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))", "                        for _ in elf_find_ucs2_symbols(elf):\n                            uses_ucs2_symbols = True\n                            break"))
ref("wa-elfdata-ucs-next", (WA, "uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))", "uses_ucs2_symbols |= next(elf_find_ucs2_symbols(elf), None) is not None"))
ref("wa-elfdata-needed-update", (WA, '''        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
''', '''        needed_libs: set[str] = set()
        for tree in (full_elftree, nonpy_elftree):
            for executable in tree.values():
                needed_libs.update(executable.needed)
'''))
ref("wa-elfdata-needed-union", (WA, '''        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
''', '''        all_trees = [*full_elftree.values(), *nonpy_elftree.values()]
        needed_libs = set(itertools.chain.from_iterable(tree.needed for tree in all_trees))
'''))
ref("wa-elfdata-nonpy-reorder", (WA, '''            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

            # Even if a non-pyextension ELF file is not needed, we
            # should include it as an external reference, because
            # it might require additional external libraries.
            full_external_refs[fn] = policies.lddtree_external_references(
                elf_tree,
                ctx.path,
            )
''', '''            full_external_refs[fn] = policies.lddtree_external_references(elf_tree, ctx.path)
            if fn.name in needed_libs:
                continue
            full_elftree[fn] = elf_tree
'''))
ref("wa-elfdata-nonpy-split", (WA, '''        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension''', '''        full_elftree.update(
            {path: tree for path, tree in nonpy_elftree.items() if path.name not in needed_libs}
        )
        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension'''), (WA, '''            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

''', ""))
ref("wa-elfdata-kw", (WA, '''    return WheelElfData(
        policies,
        full_elftree,
        full_external_refs,
        versioned_symbols,
        uses_ucs2_symbols,
        uses_pyfpe_jbuf,
    )
''', '''    return WheelElfData(
        policies=policies,
        full_elftree=full_elftree,
        full_external_refs=full_external_refs,
        versioned_symbols=versioned_symbols,
        uses_pyfpe_jbuf=uses_pyfpe_jbuf,
        uses_ucs2_symbols=uses_ucs2_symbols,
    )
'''))
ref("wa-elfdata-purelib-msg", (WA, '''            libraries = "\\n\\t".join(shared_libraries_in_purelib)
            msg = (''', '''            separator = "\\n\\t"
            libraries = separator.join(shared_libraries_in_purelib)
            msg = ('''))
ref("wa-elfdata-nonplat-if", (WA, "            arch = None if architecture is None else architecture.value\n", "            arch = None\n            if architecture is not None:\n                arch = architecture.value\n"))
ref("wa-extlibs-comp", (WA, '''    result: dict[Path, str] = {}
    for external_ref in external_refs.values():
        # linux tag (priority 0) has no white-list, do not analyze it
        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
''', '''    result: dict[Path, str] = {}
    # linux tag (priority 0) has no white-list, do not analyze it
    candidates = [ref for ref in external_refs.values() if ref.policy.priority != 0]
    for external_ref in candidates:
        for libname, realpath in external_ref.libs.items():
            if not realpath:
                continue
            if realpath in result:
                continue
            result[Path(realpath)] = libname
    return result
'''))
ref("wa-extlibs-setdefault", (WA, '''            if realpath and realpath not in result:
                result[Path(realpath)] = libname
''', '''            if realpath:
                result.setdefault(realpath, libname)
'''))
ref("wa-vers-helper", (WA, '''        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols[key].add(value)
        result[libs[path]] = elf_versioned_symbols
''', '''        result[libs[path]] = _symbols_of(path, elf)
'''), (WA, "def get_versioned_symbols(", '''def _symbols_of(path, elf):
    collected: dict[str, set[str]] = defaultdict(set)
    for key, value in elf_find_versioned_symbols(elf):
        log.debug("path %s, key %s, value %s", path, key, value)
        collected[key].add(value)
    return collected


def get_versioned_symbols('''))
ref("wa-vers-setdefault", (WA, '''        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols[key].add(value)
''', '''        elf_versioned_symbols: dict[str, set[str]] = {}
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols.setdefault(key, set()).add(value)
'''))
ref("wa-vers-iter", (WA, "elf_file_filter(libs.keys())", "elf_file_filter(libs)"))
ref("wa-sympol-items", (WA, '''        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''        for soname in external_ref.libs.keys():
            if soname in external_versioned_symbols:
                for depname, versions in external_versioned_symbols[soname].items():
                    policy_symbols[depname] |= versions
'''))
ref("wa-sympol-get", (WA, '''            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''            ext_symbols = external_versioned_symbols.get(soname, {})
            for k in ext_symbols:
                policy_symbols[k].update(ext_symbols[k])
'''))
ref("wa-sympol-min", (WA, '''        found_policy = min(
            external_ref.policy,
            policies.versioned_symbols_policy(policy_symbols),
        )
        result.append((found_policy, policy_symbols))
''', '''        symbols_policy = policies.versioned_symbols_policy(policy_symbols)
        found_policy = external_ref.policy
        if symbols_policy < found_policy:
            found_policy = symbols_policy
        result.append((found_policy, policy_symbols))
'''))
ref("wa-sympol-listcomp", (WA, '''    result = []
    for external_ref in external_refs.values():
        # skip the linux policy
        if external_ref.policy.priority == 0:
            continue
        policy_symbols''', '''    result = []
    for external_ref in filter(lambda ref: ref.policy.priority != 0, external_refs.values()):
        policy_symbols'''))
ref("wa-mach-collect-helper", (WA, '''    machine_to_check: dict[Path, tuple[str | None, Architecture | None]] = {}
    for fn, dynamic_executable in elftree_by_fn.items():
        if fn in machine_to_check:
            continue
        machine_to_check[fn] = (None, dynamic_executable.platform.extended_architecture)
        for dependency in dynamic_executable.libraries.values():
            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert dependency.platform is not None  # noqa: S101
            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
                dependency.soname,
                dependency.platform.extended_architecture,
            )

''', '''    machine_to_check = _machines_to_check(elftree_by_fn, external_so_names)
'''), (WA, "def _get_machine_policy(", '''def _machines_to_check(elftree_by_fn, external_so_names):
    machine_to_check: dict[Path, tuple[str | None, Architecture | None]] = {}
    for fn, dynamic_executable in elftree_by_fn.items():
        if fn in machine_to_check:
            continue
        machine_to_check[fn] = (None, dynamic_executable.platform.extended_architecture)
        for dependency in dynamic_executable.libraries.values():
            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert dependency.platform is not None  # noqa: S101
            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
                dependency.soname,
                dependency.platform.extended_architecture,
            )
    return machine_to_check


def _get_machine_policy('''))
ref("wa-mach-nest", (WA, '''            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert''', '''            if dependency.soname not in external_so_names or dependency.realpath is None:
                continue
            assert'''))
ref("wa-mach-cond-merge", (WA, '''        if extended_architecture is None:
            continue
        if policies.architecture.is_superset(extended_architecture):
            continue
        if soname is not None:''', '''        if extended_architecture is None or policies.architecture.is_superset(
            extended_architecture
        ):
            continue
        if soname is not None:'''))
ref("wa-mach-maxgen", (WA, '''            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
''', '''            found_policy = max(
                (policy for policy in policies if soname in policy.whitelist),
                default=policies.linux,
            )
'''))
ref("wa-mach-maxif", (WA, '''                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
''', '''                if soname in policy.whitelist and policy > found_policy:
                    found_policy = policy
'''))
ref("wa-an-inline", (WA, '''    data = get_wheel_elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths)
    policies = data.policies
''', '''    data = get_wheel_elfdata(
        libc=libc,
        architecture=architecture,
        wheel_fn=wheel_fn,
        exclude=exclude,
        args_ldpaths=args_ldpaths,
    )
    policies = data.policies
'''))
ref("wa-an-refpol-helper", (WA, '''    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
''', '''    def highest_matching(predicate) -> Policy:
        return max((e.policy for e in external_refs.values() if predicate(e)), default=policies.linux)

    ref_policy = highest_matching(lambda e: not e.libs)
    blacklist_policy = highest_matching(lambda e: not e.blacklist)
'''))
ref("wa-an-graft-lists", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    if requested_policy_base_name in (None, "auto"):
        counts = [len(e.libs) for e in external_refs.values() if e.policy != policies.linux]
    else:
        prefix = f"{requested_policy_base_name}_"
        counts = [
            len(e.libs) for e in external_refs.values() if e.policy.name.startswith(prefix)
        ]
    graft_lib_count = min(counts, default=0)
'''))
ref("wa-an-overall-list", (WA, '''    overall_policy = min(
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
''', '''    constraints = [symbol_policy, ucs_policy, pyfpe_policy, blacklist_policy, machine_policy]
    if requested_policy_base_name is not None:
        constraints.append(graft_policy)
    if not allow_graft:
        constraints.append(ref_policy)
    overall_policy = min(constraints)
'''))
ref("wa-an-machine-tern", (WA, '''    if disable_isa_ext_check:
        machine_policy = policies.highest
    else:
        machine_policy = _get_machine_policy(
            policies,
            elftree_by_fn,
            frozenset(external_libs.values()),
        )
''', '''    machine_policy = (
        policies.highest
        if disable_isa_ext_check
        else _get_machine_policy(policies, elftree_by_fn, frozenset(external_libs.values()))
    )
'''))
ref("wa-an-reorder", (WA, '''    ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
    pyfpe_policy = policies.linux if data.uses_pyfpe_jbuf else policies.highest

''', ""), (WA, '''    external_refs: dict[str, ExternalReference] = {
        p.name''', '''    pyfpe_policy = policies.highest
    if data.uses_pyfpe_jbuf:
        pyfpe_policy = policies.linux
    ucs_policy = policies.highest if not data.uses_ucs2_symbols else policies.linux

    external_refs: dict[str, ExternalReference] = {
        p.name'''))
ref("wa-an-symmax", (WA, '''    symbol_policy, versioned_symbols = max(
        symbol_policies,
        key=lambda x: x[0],
        default=(symbol_policy, versioned_symbols),
    )
''', '''    if symbol_policies:
        symbol_policy, versioned_symbols = max(symbol_policies, key=lambda x: x[0])
'''))
ref("wa-an-items", (WA, '''    for fn in elftree_by_fn:
        update(external_refs, external_refs_by_fn[fn])
''', '''    for fn in elftree_by_fn.keys():
        refs_for_file = external_refs_by_fn[fn]
        update(external_refs, refs_for_file)
'''))
ref("wa-update-union", (WA, '''                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''                if lib in d[k].blacklist:
                    merged = set(d[k].blacklist[lib]).union(symbols)
                    d[k].blacklist[lib] = sorted(merged)
                else:
                    d[k].blacklist[lib] = sorted(symbols)
'''))
ref("wa-update-alias", (WA, '''            for lib, symbols in v.blacklist.items():
                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''            blacklist = d[k].blacklist
            for lib, symbols in v.blacklist.items():
                if lib not in blacklist:
                    blacklist[lib] = sorted(symbols)
                else:
                    blacklist[lib] = sorted(set(blacklist[lib]) | set(symbols))
'''))
# ---------------------------------------------------------------- repair
ref("rp-repl-comp", (RP, '''            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
''', '''            replacements = [(n, soname_map[n][0]) for n in needed if n in soname_map]
            if replacements:
'''))
ref("rp-repl-helper", (RP, '''            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''            _link_grafted(path, soname_map, patcher)
'''), (RP, "def strip_symbols(", '''def _link_grafted(path, soname_map, patcher) -> None:
    replacements = []
    for soname in elf_read_dt_needed(path):
        if soname in soname_map:
            new_soname, _ = soname_map[soname]
            replacements.append((soname, new_soname))
    if not replacements:
        patcher.clear_rpath(path)
        return
    patcher.set_rpath(path, "$ORIGIN")
    patcher.replace_needed(path, *replacements)


def strip_symbols('''))
ref("rp-len", (RP, "            if len(ext_libs) > 0:\n", "            if ext_libs:\n"))
ref("rp-values", (RP, '''        for _, path in soname_map.values():
            needed =''', '''        for soname in soname_map:
            path = soname_map[soname][1]
            needed ='''))
ref("rp-abi0", (RP, '''        for fn, v in external_refs_by_fn.items():
            ext_libs = v[abis[0]].libs
''', '''        target_abi = abis[0]
        for fn in external_refs_by_fn:
            ext_libs = external_refs_by_fn[fn][target_abi].libs
'''))
ref("rp-graft-helper", (RP, '''                if src_path is None:
                    msg = (
                        "Cannot repair wheel, because required "
                        f'library "{soname}" could not be located'
                    )
                    raise ValueError(msg)

                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
''', '''                new_soname, new_path = _graft(soname, src_path, dest_dir, patcher)
                sbom_filepaths.append(src_path)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
'''), (RP, "def strip_symbols(", '''def _graft(soname, src_path, dest_dir, patcher):
    if src_path is None:
        msg = f'Cannot repair wheel, because required library "{soname}" could not be located'
        raise ValueError(msg)
    if not dest_dir.exists():
        dest_dir.mkdir()
    return copylib(src_path, dest_dir, patcher)


def strip_symbols('''))
ref("rp-soname-tuple", (RP, '''                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
''', '''                soname_map[soname] = copylib(src_path, dest_dir, patcher)
                replacements.append((soname, soname_map[soname][0]))
'''))
ref("rp-strip-list", (RP, '''            libs_to_strip = [path for (_, path) in soname_map.values()]
            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(libs_to_strip, extensions))
''', '''            to_strip = [path for (_, path) in soname_map.values()]
            for path in external_refs_by_fn:
                to_strip.append(script_shims.get(path, path))
            strip_symbols(to_strip)
'''))
ref("rp-strip-in", (RP, "            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]\n", "            extensions = [\n                script_shims[path] if path in script_shims else path for path in external_refs_by_fn\n            ]\n"))
ref("rp-sbom-path", (RP, '''            sbom_dir = Path(dist_info_dirs[0], "sboms")
            sbom_dir.mkdir(exist_ok=True)
            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
''', '''            sbom_dir = dist_info_dirs[0] / "sboms"
            sbom_dir.mkdir(exist_ok=True)
            sbom_path = sbom_dir / "auditwheel.cdx.json"
            sbom_text = json.dumps(sbom_data)
            sbom_path.write_text(sbom_text)
'''))
ref("rp-early-return", (RP, "    if not external_refs_by_fn:\n        return None\n", "    if len(external_refs_by_fn) == 0:\n        return None\n"))
ref("rp-match-none", (RP, "        if not match:\n            msg = f\"Failed to parse wheel file name: {wheel_fname}\"\n            raise ValueError(msg)\n\n        dest_dir", "        if match is None:\n            raise ValueError(f\"Failed to parse wheel file name: {wheel_fname}\")\n\n        dest_dir"))
ref("rp-newfn", (RP, '''                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
''', '''                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                else:
                    new_fn = fn
'''))
ref("rp-copylib-else", (RP, '''    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
''', '''    suffix = f"-{shorthash}"
    if base.endswith(suffix):
        new_soname = src_name
    else:
        new_soname = base + suffix + "." + ext
'''))
ref("rp-copylib-partition", (RP, 'base, ext = src_name.split(".", 1)', 'base, ext = src_name.split(".", maxsplit=1)'))
ref("rp-copylib-nest", (RP, '''    if dest_path.exists():
        return new_soname, dest_path

    logger.debug("Grafting: %s -> %s", src_path, dest_path)
    shutil.copy2(src_path, dest_path)
    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)

    patcher.set_soname(dest_path, new_soname)

    return new_soname, dest_path
''', '''    if not dest_path.exists():
        logger.debug("Grafting: %s -> %s", src_path, dest_path)
        shutil.copy2(src_path, dest_path)
        mode = dest_path.stat().st_mode
        if (mode & stat.S_IWRITE) == 0:
            dest_path.chmod(mode | stat.S_IWRITE)
        patcher.set_soname(dest_path, new_soname)

    return new_soname, dest_path
'''))
ref("rp-copylib-hash", (RP, '''    with src_path.open("rb") as f:
        shorthash = hashfile(f)[:8]
''', '''    with open(src_path, "rb") as stream:
        digest = hashfile(stream)
    shorthash = digest[:8]
'''))
ref("rp-rpath-comp", (RP, '''    def is_valid_rpath(rpath: str) -> bool:
        return _is_valid_rpath(rpath, lib_dir, wheel_base_dir)

    old_rpaths = patcher.get_rpath(lib_name)
    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
    patcher.set_rpath(lib_name, ":".join(rpaths))
''', '''    kept = [
        entry
        for entry in patcher.get_rpath(lib_name).split(":")
        if _is_valid_rpath(entry, lib_dir, wheel_base_dir)
    ]
    patcher.set_rpath(lib_name, ":".join(unique_by_index(kept + [rpath])))
'''))
ref("rp-rpath-loop", (RP, '''    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
''', '''    rpaths = []
    for old_rpath in old_rpaths.split(":"):
        if is_valid_rpath(old_rpath):
            rpaths.append(old_rpath)
    rpaths.append(rpath)
    rpaths = unique_by_index(rpaths)
'''))
ref("rp-valid-order", (RP, '''    if not is_subdir(full_rpath_entry, wheel_base_dir):
        logger.debug("rpath entry %s points outside the wheel -- discarding it.", rpath)
        return False
    logger.debug("Preserved rpath entry %s", rpath)
    return True
''', '''    inside = is_subdir(full_rpath_entry, wheel_base_dir)
    if inside:
        logger.debug("Preserved rpath entry %s", rpath)
    else:
        logger.debug("rpath entry %s points outside the wheel -- discarding it.", rpath)
    return inside
'''))
ref("rp-tokens-unroll", (RP, '''    for token, target in token_replacements.items():
        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
    return rpath
''', '''    for token in token_replacements:
        target = token_replacements[token]
        rpath = rpath.replace("$" + token, target).replace("${" + token + "}", target)
    return rpath
'''))
ref("rp-script-parts", (RP, '''    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
''', '''    parts = path.parts
    if len(parts) != 3:
        return False
    data_dir, subdir, _ = parts
    return data_dir.endswith(".data") and subdir == "scripts"
'''))
ref("rp-shim-write", (RP, '''    with orig_path.open("w", newline="\\n") as f:
        f.write(_script_shim(new_path))
    orig_path.chmod(new_path.stat().st_mode)
''', '''    shim = _script_shim(new_path)
    with open(orig_path, "w", newline="\\n") as f:
        f.write(shim)
    mode = new_path.stat().st_mode
    orig_path.chmod(mode)
'''))
ref("rp-strip-cmd", (RP, '''        check_call(["strip", "-s", lib])
''', '''        command = ["strip", "-s", lib]
        check_call(command)
'''))
ref("rp-absolute", (RP, '''    if not lib_name.is_absolute():
        lib_name = lib_name.absolute()
''', '''    lib_name = lib_name.absolute()
'''))
# ---------------------------------------------------------------- policy
ref("po-sat-all", (PO, '''            policy_satisfied = True
            for name in set(required_vers) & set(policy_sym_vers):
                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
            return policy_satisfied
''', '''            return all(
                required_vers[name] <= policy_sym_vers[name]
                for name in required_vers.keys() & policy_sym_vers.keys()
            )
'''))
ref("po-sat-diff", (PO, '''                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger''', '''                missing = required_vers[name] - policy_sym_vers[name]
                if missing:
                    for symbol in missing:
                        logger'''))
ref("po-vers-reversed", (PO, "for p in self._policies[::-1]:", "for p in reversed(self._policies):"))
ref("po-vers-split", (PO, '                sym_name, _, _ = symbol.partition("_")\n                required_vers.setdefault(sym_name, set()).add(symbol)', '                sym_name = symbol.split("_", 1)[0]\n                if sym_name not in required_vers:\n                    required_vers[sym_name] = set()\n                required_vers[sym_name].add(symbol)'))
ref("po-vers-fstr", (PO, '{sym_name + "_" + version for version in versions}', '{f"{sym_name}_{version}" for version in versions}'))
ref("po-filter-any", (PO, '''                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
                    # always exclude ELF dynamic linker/loader
                    # 'ld64.so.2' on s390x
                    # 'ld64.so.1' on ppc64le
                    # 'ld-linux*' on other platforms
                    continue
                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
''', '''                is_loader = "ld-linux" in lib or lib in ("ld64.so.1", "ld64.so.2")
                is_android_python = self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib)
                if not (is_loader or is_android_python or lib in whitelist):
                    yield lib
'''))
ref("po-reqs-deque", (PO, '''                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
''', '''                deps = filter_libs(lddtree.libraries[lib].needed, whitelist)
                libs.update(dep for dep in deps if dep not in reqs)
'''))
ref("po-ext-continue", (PO, '''                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
''', '''                realpath = lddtree.libraries[lib].realpath
                if not is_subdir(realpath, wheel_path):
                    pol_ext_deps[lib] = realpath
                else:
                    logger.debug("RPATH FTW: %s", lib)
'''))
ref("po-ext-comp", (PO, '''            pol_ext_deps: dict[str, Path | None] = {}
            for lib in sorted(needed_external_libs):
                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
''', '''            pol_ext_deps = {
                lib: lddtree.libraries[lib].realpath
                for lib in sorted(needed_external_libs)
                if not is_subdir(lddtree.libraries[lib].realpath, wheel_path)
            }
'''))
ref("po-ext-linuxfirst", (PO, '''            needed_external_libs: set[str] = set()
            blacklist = {}

            if p != self.linux:
''', '''            if p == self.linux:
                ret[p.name] = ExternalReference({}, {}, p)
                continue

            needed_external_libs: set[str] = set()
            blacklist = {}

            if True:
'''))
ref("po-ext-black", (PO, '''                blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)
                blacklist_reduced = {k: p.blacklist[k] for k in blacklist_libs}
''', '''                blacklist_reduced = {k: v for k, v in p.blacklist.items() if k in lddtree.needed}
'''))
ref("po-ext-filterhelper", (PO, '''                needed_external_libs = get_req_external(
                    set(filter_libs(lddtree.needed, whitelist)),
                    whitelist,
                )
''', '''                roots = set(filter_libs(lddtree.needed, whitelist))
                needed_external_libs = get_req_external(roots, whitelist)
'''))
ref("po-byname-next", (PO, '''        if len(matches) == 0:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return matches[0]
''', '''        if len(matches) == 1:
            return matches[0]
        if matches:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        msg = f"no policy named {name!r} found"
        raise LookupError(msg)
'''))
ref("po-byname-names", (PO, "[p for p in self._policies if p.name == name or name in p.aliases]", "[p for p in self._policies if name in (p.name, *p.aliases)]"))
ref("po-init-skip", (PO, '''            if self._musl_policy is not None and policy["name"] not in {
                "linux",
                self._musl_policy,
            }:
                continue
            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = f"{policy['name']}_{base_arch}"
''', '''            policy_name = policy["name"]
            is_linux = policy_name == "linux"
            if self._musl_policy is not None and not is_linux and policy_name != self._musl_policy:
                continue
            if is_linux or arch.value in policy["symbol_versions"]:
                name = f"{policy_name}_{base_arch}"
'''))
ref("po-init-symver", (PO, '''                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
''', '''                symbol_versions = {}
                if policy["name"] != "linux":
                    for k, v in policy["symbol_versions"][base_arch].items():
                        symbol_versions[k] = frozenset(v)
'''))
ref("po-init-sorted", (PO, "        self._policies.sort()\n", "        self._policies = sorted(self._policies)\n"))
ref("po-init-android-next", (PO, '''            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    # Rename the policy to match the existing tag, and remove all other policies.
                    self._policies = [self.linux, replace(p, name=platform)]
                    break
            else:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
''', '''            selected = None
            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    selected = p
                    break
            if selected is None:
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
            self._policies = [self.linux, replace(selected, name=platform)]
'''))
ref("po-init-platform", (PO, '''            if len(platforms) != 1:
                msg = f"Android wheels must have exactly one platform tag, got {platforms}"
                raise ValueError(msg)
            platform = platforms[0]
''', '''            try:
                (platform,) = platforms
            except ValueError:
                msg = f"Android wheels must have exactly one platform tag, got {platforms}"
                raise ValueError(msg) from None
'''))
ref("po-validate-set", (PO, '''        if not lib_whitelist.issubset(set(policy["lib_whitelist"])):
            diff = lib_whitelist - set(policy["lib_whitelist"])
            msg''', '''        policy_whitelist = set(policy["lib_whitelist"])
        diff = lib_whitelist - policy_whitelist
        if diff:
            msg'''))
ref("po-validate-items", (PO, '''        for arch in policy["symbol_versions"]:
            symbol_versions_arch = symbol_versions.get(arch, defaultdict(set))
            for prefix in policy["symbol_versions"][arch]:
                policy_symbol_versions = set(policy["symbol_versions"][arch][prefix])
''', '''        for arch, arch_versions in policy["symbol_versions"].items():
            symbol_versions_arch = symbol_versions.get(arch, defaultdict(set))
            for prefix, versions in arch_versions.items():
                policy_symbol_versions = set(versions)
'''))
ref("po-musl-get", (PO, '''    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
''', '''    return frozenset(
        soname_map[soname][arch.baseline] if soname in soname_map else soname
        for soname in whitelist
    )
'''))
ref("po-replplat", (PO, '''    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
''', '''    start = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    arch = "_".join(name.split("_")[start:])
    return [f"linux_{arch}"]
'''))
ref("po-lt", (PO, '''        if not isinstance(other, Policy):
            raise NotImplementedError
        return self.priority < other.priority
''', '''        if isinstance(other, Policy):
            return other.priority > self.priority
        raise NotImplementedError
'''))
# ---------------------------------------------------------------- lddtree
ref("ld-compat-steps", (LD, '''        return (
            (len(os_abis) == 1 or any(os_abis.issubset(x) for x in compat_sets))
            and self._elf_class == other._elf_class
            and self._elf_little_endian == other._elf_little_endian
            and self._elf_machine == other._elf_machine
        )
''', '''        if self._elf_class != other._elf_class:
            return False
        if self._elf_little_endian != other._elf_little_endian:
            return False
        if self._elf_machine != other._elf_machine:
            return False
        return len(os_abis) == 1 or any(os_abis <= x for x in compat_sets)
'''))
ref("ld-compat-eq", (LD, "len(os_abis) == 1 or", "self._elf_osabi == other._elf_osabi or"))
ref("ld-compat-flat", (LD, '''        compat_sets = (frozenset(f"ELFOSABI_{x}" for x in ("NONE", "SYSV", "GNU", "LINUX")),)
''', '''        linux_abis = frozenset(
            ("ELFOSABI_NONE", "ELFOSABI_SYSV", "ELFOSABI_GNU", "ELFOSABI_LINUX")
        )
'''), (LD, "any(os_abis.issubset(x) for x in compat_sets)", "os_abis.issubset(linux_abis)"))
ref("ld-baseprop", (LD, '''        if self._base_arch is not None:
            return self._base_arch
        raise ValueError(self._error_msg)
''', '''        if self._base_arch is None:
            raise ValueError(self._error_msg)
        return self._base_arch
'''))
ref("ld-plat-prop-helper", (LD, '''                for prop in note["n_desc"]:
                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED":
                        continue
                    if prop.pr_datasz != 4:
                        continue
                    data''', '''                for prop in note["n_desc"]:
                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED" or prop.pr_datasz != 4:
                        continue
                    data'''))
ref("ld-plat-note-merge", (LD, '''                if note["n_type"] != "NT_GNU_PROPERTY_TYPE_0":
                    continue
                if note["n_name"] != "GNU":
                    continue
''', '''                if not (note["n_type"] == "NT_GNU_PROPERTY_TYPE_0" and note["n_name"] == "GNU"):
                    continue
'''))
ref("ld-plat-arm", (LD, '''        if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
            error_msg = "Invalid ARM EABI version for armv7l"
        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:
            error_msg = "armv7l shall use hard-float"
        if error_msg is not None:
            base_arch = None
''', '''        if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
            base_arch = None
            error_msg = "Invalid ARM EABI version for armv7l"
        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:
            base_arch = None
            error_msg = "armv7l shall use hard-float"
'''))
ref("ld-plat-bits", (LD, '''                    data = prop.pr_data
                    data -= data & 1  # clear baseline
''', '''                    data = prop.pr_data - (prop.pr_data & 1)  # clear baseline
'''))
ref("ld-readlink-loop", (LD, '''    while os.path.islink(root + path):
        path = os.path.join(os.path.dirname(path), os.readlink(root + path))

    return normpath((root + path) if prefixed else path)
''', '''    while os.path.islink(root + path):
        target = os.readlink(root + path)
        path = os.path.join(os.path.dirname(path), target)

    if prefixed:
        path = root + path
    return normpath(path)
'''))
ref("ld-dedupe-loop", (LD, '''    seen: dict[str, str] = {}
    return [seen.setdefault(x, x) for x in items if x not in seen]
''', '''    result: list[str] = []
    seen: set[str] = set()
    for item in items:
        if item not in seen:
            seen.add(item)
            result.append(item)
    return result
'''))
ref("ld-dedupe-dict", (LD, '''    seen: dict[str, str] = {}
    return [seen.setdefault(x, x) for x in items if x not in seen]
''', '''    return list(dict.fromkeys(items))
'''))
ref("ld-parse-helper", (LD, '''        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
''', '''        ldpaths.append(normpath(_expand_ldpath(ldpath, path, root)))
'''), (LD, "def parse_ld_paths(", '''def _expand_ldpath(ldpath: str, path: str, root: str) -> str:
    if ldpath == "":
        # The ldso treats "" paths as $PWD.
        return os.getcwd()
    if ORIGIN_RE.search(ldpath):
        if not path:
            msg = "can't expand $ORIGIN without a path"
            raise ValueError(msg)
        return ORIGIN_RE.sub(os.path.dirname(os.path.abspath(path)), ldpath)
    return root + ldpath


def parse_ld_paths('''))
ref("ld-parse-notempty", (LD, '''        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
''', '''        if not ldpath:
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
'''))
ref("ld-conf-extend", (LD, '''                        paths += parse_ld_so_conf(path, root=root, _first=False)
                else:
                    paths += [normpath(root + line)]
''', '''                        paths.extend(parse_ld_so_conf(path, root=root, _first=False))
                else:
                    paths.append(normpath(root + line))
'''))
ref("ld-conf-partition", (LD, 'line = input_line.split("#", 1)[0].strip()', 'line = input_line.partition("#")[0].strip()'))
ref("ld-conf-include", (LD, '''                    line = line[8:]
                    if line[0] == "/":
                        line = root + line.lstrip("/")
                    else:
                        line = os.path.dirname(ldso_conf) + "/" + line
                    log.debug("%s  glob: %s", dbg_pfx, line)
                    for path in sorted(glob.glob(line)):
''', '''                    pattern = line[8:]
                    if pattern[0] != "/":
                        pattern = f"{os.path.dirname(ldso_conf)}/{pattern}"
                    else:
                        pattern = root + pattern.lstrip("/")
                    log.debug("%s  glob: %s", dbg_pfx, pattern)
                    for path in sorted(glob.glob(pattern)):
'''))
ref("ld-load-env", (LD, '''    env_ldpath = ":".join(
        filter(None, (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)),
    )
''', '''    candidates = (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)
    env_ldpath = ":".join(candidate for candidate in candidates if candidate)
'''))
ref("ld-load-musl", (LD, '''            ldpaths["conf"] = []
            for ldpath in ld_musl[0].read_text().split(":"):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
''', '''            entries = (entry.strip() for entry in ld_musl[0].read_text().split(":"))
            ldpaths["conf"] = [root + entry for entry in entries if entry]
'''))
ref("ld-load-conf-list", (LD, '''        ldpaths["conf"] = list(parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root))
        # the trusted directories are not necessarily in ld.so.conf
        ldpaths["conf"].extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])
''', '''        configured = parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root)
        trusted = ["/lib", "/lib64/", "/usr/lib", "/usr/lib64"]
        ldpaths["conf"] = [*configured, *trusted]
'''))
ref("ld-load-helper", (LD, '''    if libc == Libc.MUSL:
        # from https://git.musl-libc.org/cgit/musl/tree/ldso
        # /dynlink.c?id=3f701faace7addc75d16dea8a6cd769fa5b3f260#n1063
        root_prefix = Path(root) / prefix
        ld_musl = list((root_prefix / "etc").glob("ld-musl-*.path"))
        assert len(ld_musl) <= 1  # noqa: S101
        if len(ld_musl) == 0:
            ldpaths["conf"] = [
                root + "/lib",
                root + "/usr/local/lib",
                root + "/usr/lib",
            ]
        else:
            ldpaths["conf"] = []
            for ldpath in ld_musl[0].read_text().split(":"):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
    else:
''', '''    if libc == Libc.MUSL:
        ldpaths["conf"] = _musl_paths(root, prefix)
    else:
'''), (LD, "@functools.lru_cache\ndef load_ld_paths", '''def _musl_paths(root: str, prefix: str) -> list[str]:
    ld_musl = list((Path(root) / prefix / "etc").glob("ld-musl-*.path"))
    assert len(ld_musl) <= 1  # noqa: S101
    if not ld_musl:
        return [root + "/lib", root + "/usr/local/lib", root + "/usr/lib"]
    result = []
    for ldpath in ld_musl[0].read_text().split(":"):
        stripped = ldpath.strip()
        if stripped:
            result.append(root + stripped)
    return result


@functools.lru_cache
def load_ld_paths'''))
ref("ld-fromarg-if", (LD, '''    return {
        "conf": parse_ld_paths(args_ldpaths),
        "env": parse_ld_paths(os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", "")),
        "interp": [],
    }
''', '''    env_ldpaths = os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", "")
    result: dict[str, list[str]] = {"interp": []}
    result["conf"] = parse_ld_paths(args_ldpaths)
    result["env"] = parse_ld_paths(env_ldpaths)
    return result
'''))
ref("ld-find-continue", (LD, '''        if target.exists():
            with open(target, "rb") as f:
                libelf = ELFFile(f)
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
''', '''        if not target.exists():
            continue
        with target.open("rb") as f:
            candidate_platform = _get_platform(ELFFile(f))
            if platform.is_compatible(candidate_platform):
                return target, path
'''))
ref("ld-ldd-interp-helper", (LD, '''                # if we have an interpreter and it's not MUSL, assume GLIBC
                libc = Libc.MUSL if soname.startswith("ld-musl-") else Libc.GLIBC
''', '''                # if we have an interpreter and it's not MUSL, assume GLIBC
                libc = Libc.GLIBC
                if soname.startswith("ld-musl-"):
                    libc = Libc.MUSL
'''))
ref("ld-ldd-needed-flat", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
        if any'''))
ref("ld-ldd-excl-helper", (LD, "        if any(fnmatch(soname, e) for e in exclude):", "        if _is_excluded(soname, exclude):"),
    (LD, "any(fnmatch(str(realpath), e) for e in exclude)", "_is_excluded(str(realpath), exclude)"),
    (LD, "def ldd(\n", '''def _is_excluded(name: str, patterns: frozenset[str]) -> bool:
    for pattern in patterns:
        if fnmatch(name, pattern):
            return True
    return False


def ldd(
'''))
ref("ld-ldd-single-store", (LD, '''        if realpath is None or fullpath is None:
            continue
        dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)
''', '''        if realpath is None or fullpath is None:
            continue
        dependency = ldd(
            realpath,
            root=root,
            prefix=prefix,
            ldpaths=ldpaths,
            display=fullpath,
            exclude=exclude,
            _all_libs=_all_libs,
        )
'''))
ref("ld-ldd-libc-helper", (LD, '''        if libc is None:
            # try the filename as a last resort
            if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
                libc = Libc.MUSL
            elif path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
                # before python 3.11, musl was also using gnu
                soabi = path.stem.split(".")[-1].split("-")
                valid_python = tuple(f"3{minor}" for minor in range(11, 100))
                if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
                    libc = Libc.GLIBC
''', '''        if libc is None:
            # try the filename as a last resort
            libc = _libc_from_filename(path)
'''), (LD, "def ldd(\n", '''def _libc_from_filename(path: Path) -> Libc | None:
    if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
        return Libc.MUSL
    if path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
        # before python 3.11, musl was also using gnu
        soabi = path.stem.split(".")[-1].split("-")
        valid_python = tuple(f"3{minor}" for minor in range(11, 100))
        if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
            return Libc.GLIBC
    return None


def ldd(
'''))
ref("ld-ldd-dyn-elif", (LD, '''                if t.entry.d_tag == "DT_RPATH":
                    rpaths''', '''                tag = t.entry.d_tag
                if tag == "DT_RPATH":
                    rpaths'''), (LD, 'elif t.entry.d_tag == "DT_RUNPATH":', 'elif tag == "DT_RUNPATH":'), (LD, 'elif t.entry.d_tag == "DT_NEEDED":', 'elif tag == "DT_NEEDED":'))
ref("ld-ldd-paths-chain", (LD, '''    all_ldpaths = (
        ldpaths["rpath"]
        + rpaths
        + runpaths
        + ldpaths["env"]
        + ldpaths["runpath"]
        + ldpaths["conf"]
        + ldpaths["interp"]
    )
''', '''    all_ldpaths = [
        *ldpaths["rpath"],
        *rpaths,
        *runpaths,
        *ldpaths["env"],
        *ldpaths["runpath"],
        *ldpaths["conf"],
        *ldpaths["interp"],
    ]
'''))
ref("ld-ldd-ret-var", (LD, '''        tuple(soname for soname in needed if soname not in _excluded_libs),
''', '''        tuple([name for name in needed if not name in _excluded_libs]),
'''))
# ---------------------------------------------------------------- elfutils
ref("el-needed-comp", (EL, '''    needed: list[str] = []
    with fn.open("rb") as f:
        elf = ELFFile(f)
        section = _get_section_by_type(elf, DynamicSection)
        if section is None:
            msg = f"Could not find .dynamic section in {fn}"
            raise ValueError(msg)
        needed.extend(t.needed for t in section.iter_tags() if t.entry.d_tag == "DT_NEEDED")  # type: ignore[attr-defined]
    return needed
''', '''    with fn.open("rb") as f:
        section = _get_section_by_type(ELFFile(f), DynamicSection)
        if section is None:
            msg = f"Could not find .dynamic section in {fn}"
            raise ValueError(msg)
        return [tag.needed for tag in section.iter_tags() if tag.entry.d_tag == "DT_NEEDED"]
'''))
ref("el-needed-loop", (EL, '''        needed.extend(t.needed for t in section.iter_tags() if t.entry.d_tag == "DT_NEEDED")  # type: ignore[attr-defined]
''', '''        for tag in section.iter_tags():
            if tag.entry.d_tag == "DT_NEEDED":
                needed.append(tag.needed)
'''))
ref("el-filter-noelse", (EL, '''        if path.name.endswith(".py"):
            continue
        else:
            try:
                with path.open("rb") as f:
                    candidate = ELFFile(f)
                    yield path, candidate
            except ELFError:
                # not an elf file
                continue
''', '''        if path.name.endswith(".py"):
            continue
        try:
            with open(path, "rb") as f:
                yield path, ELFFile(f)
        except ELFError:
            # not an elf file
            pass
'''))
ref("el-vers-guard", (EL, '''    if section := _get_section_by_type(elf, GNUVerNeedSection):
        for verneed, verneed_iter in section.iter_versions():
            if TYPE_CHECKING:
                # this should be enforced some other way in pyelftools
                assert verneed.name is not None
            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''    section = _get_section_by_type(elf, GNUVerNeedSection)
    if not section:
        return
    for verneed, verneed_iter in section.iter_versions():
        name = verneed.name
        if not (name.startswith("ld-linux") or name == "ld64.so.1" or name == "ld64.so.2"):
            for vernaux in verneed_iter:
                yield name, vernaux.name
'''))
ref("el-vers-from", (EL, '''            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''            yield from ((verneed.name, vernaux.name) for vernaux in verneed_iter)
'''))
ref("el-undef-helper", (EL, '''            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
''', '''            if not _is_undefined(sym):
                continue
            if sym.name not in offending_symbol_names:
                continue
            if sym["st_info"]["type"] == "STT_FUNC" or sym["st_info"]["type"] == "STT_NOTYPE":
                return True
    return False
'''), (EL, '''            if (
                "PyUnicodeUCS2_" in sym.name
                and sym["st_shndx"] == "SHN_UNDEF"
''', '''            if (
                "PyUnicodeUCS2_" in sym.name
                and _is_undefined(sym)
'''), (EL, "def elf_find_ucs2_symbols(", '''def _is_undefined(sym) -> bool:
    return sym["st_shndx"] == "SHN_UNDEF"


def elf_find_ucs2_symbols('''))
ref("el-jbuf-any", (EL, '''    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
''', '''    section = _get_section_by_type(elf, SymbolTableSection)
    return bool(section) and any(
        sym.name in offending_symbol_names
        and sym["st_shndx"] == "SHN_UNDEF"
        and sym["st_info"]["type"] in {"STT_NOTYPE", "STT_FUNC"}
        for sym in section.iter_symbols()
    )
'''))
ref("el-pyext-get", (EL, '''        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]
''', '''        py_ver = module_init_f.get(sym.name)
        if py_ver is None or sym["st_shndx"] == "SHN_UNDEF":
            continue
        if sym["st_info"]["type"] == "STT_FUNC":
            return True, py_ver
'''))
ref("el-pyext-fstr", (EL, '''        "init" + modname: 2,
        "PyInit_" + modname: 3,
        "_cffi_pypyinit_" + modname: 2,
''', '''        f"init{modname}": 2,
        f"PyInit_{modname}": 3,
        f"_cffi_pypyinit_{modname}": 2,
'''))
ref("el-undef-comp", (EL, '''    undef_symbols = set()
    with path.open("rb") as f:
        elf = ELFFile(f)
        if section := _get_section_by_type(elf, SymbolTableSection):
            # look for all undef symbols
            # if the symbol is weak don't consider it as undefined, it's "optional"
            for sym in section.iter_symbols():
                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":
                    undef_symbols.add(sym.name)
    return undef_symbols
''', '''    with path.open("rb") as f:
        section = _get_section_by_type(ELFFile(f), SymbolTableSection)
        if not section:
            return set()
        return {
            sym.name
            for sym in section.iter_symbols()
            if sym["st_shndx"] == "SHN_UNDEF" and not sym["st_info"]["bind"] == "STB_WEAK"
        }
'''))
ref("el-filterundef-comp", (EL, '''    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
''', '''    return {
        lib: sorted(used)
        for lib, sym_list in symbols.items()
        if (used := sym_list.intersection(undef_symbols))
    }
'''))
ref("el-filterundef-add", (EL, '    undef_symbols = set("*") | get_undefined_symbols(path)\n', '    undef_symbols = {"*"}\n    undef_symbols.update(get_undefined_symbols(path))\n'))
# ---------------------------------------------------------------- wheeltools / tools
ref("wt-record-helper", (WT, '''            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''            hash_, size = ("", "") if skip(relative_path) else _record_entry(path)
            writer.writerow((relative_path.as_posix(), hash_, size))
'''), (WT, "def rewrite_record(", '''def _record_entry(path: Path) -> tuple[str, str]:
    data = path.read_bytes()
    digest = hashlib.sha256(data).digest()
    encoded = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
    return f"sha256={encoded}", str(len(data))


def rewrite_record('''))
ref("wt-record-inline", (WT, '''    def files() -> Generator[Path]:
        for dir_, _, files in walk(bdist_dir):
            for file in files:
                yield dir_ / file

''', ""), (WT, "        for path in files():\n", "        all_files = [dir_ / file for dir_, _, names in walk(bdist_dir) for file in names]\n        for path in all_files:\n"))
ref("wt-record-skip", (WT, '''    def skip(path: Path) -> bool:
        """Wheel hashes every possible file."""
        return path == record_relpath

''', ""), (WT, "            if skip(relative_path):", "            if relative_path == record_relpath:"))
ref("wt-record-sig", (WT, "    if sig_path.exists():\n        sig_path.unlink()\n", "    has_signature = sig_path.exists()\n    if has_signature:\n        sig_path.unlink()\n"))
ref("wt-record-update", (WT, '''                digest = hashlib.sha256(data).digest()
''', '''                hasher = hashlib.sha256()
                hasher.update(data)
                digest = hasher.digest()
'''))
ref("wt-exit-helper", (WT, '''                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
''', '''                date_time = _source_date_epoch()
'''), (WT, "class InWheel(InTemporaryDirectory):", '''def _source_date_epoch() -> datetime | None:
    timestamp = os.environ.get("SOURCE_DATE_EPOCH")
    if not timestamp:
        return None
    return datetime.fromtimestamp(int(timestamp), tz=timezone.utc)


class InWheel(InTemporaryDirectory):'''))
ref("wt-exit-method", (WT, '''            if exc is None and self.out_wheel is not None:
                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
                except BaseException:
                    # don't leave a truncated wheel behind
                    self.out_wheel.unlink(missing_ok=True)
                    raise
        finally:
            super().__exit__(exc, value, tb)
''', '''            if exc is None and self.out_wheel is not None:
                self._pack()
        finally:
            super().__exit__(exc, value, tb)

    def _pack(self) -> None:
        rewrite_record(self.name)
        timestamp = os.environ.get("SOURCE_DATE_EPOCH")
        date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
        try:
            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
        except BaseException:
            # don't leave a truncated wheel behind
            self.out_wheel.unlink(missing_ok=True)
            raise
'''))
ref("wt-iter-gen", (WT, '''        record = record_name.read_text()
        reader = csv.reader(r for r in record.splitlines())
        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        lines = record_name.read_text().splitlines()
        for row in csv.reader(lines):
            yield Path(row[0])
'''))
ref("wt-iter-from", (WT, '''        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        yield from (Path(filename) for filename, *_ in reader)
'''))
ref("wt-add-tags-helper", (WT, '''    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
''', '''    def combine(tags):
        return ["-".join(tup) for tup in product(pyc_apis, tags)]

    new_tags = [tag for tag in combine(platforms) if tag not in in_info_tags]
    unwanted_tags = combine(to_remove)
'''))
ref("wt-add-tags-nest", (WT, '''    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
''', '''    wanted_tags = [f"{pyc_api}-{platform}" for pyc_api in pyc_apis for platform in platforms]
'''))
ref("wt-add-updated", (WT, '''    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
''', '''    kept_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags = kept_tags + new_tags
'''))
ref("wt-add-fname", (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    prefix = wheel_fname.rsplit("-", maxsplit=1)[0]
    plat = ".".join(sorted(fname_tags))
    ext = Path(wheel_fname).suffix
    out_wheel = out_dir / f"{prefix}-{plat}{ext}"
'''))
ref("wt-add-any", (WT, '''    if "any" in fname_tags and len(fname_tags) > 1:
        fname_tags.remove("any")
        to_remove.append("any")
        definitely_not_purelib = True
''', '''    definitely_not_purelib = len(fname_tags) > 1 and "any" in fname_tags
    if definitely_not_purelib:
        to_remove.append("any")
        fname_tags.remove("any")
'''), (WT, "    definitely_not_purelib = False\n\n", ""))
ref("wt-add-any2", (WT, '''        fname_tags.remove("any")
        to_remove.append("any")
''', '''        fname_tags = [tag for tag in fname_tags if tag != "any"]
        to_remove.append("any")
'''))
ref("wt-add-noelse", (WT, '''    if wheel_ctx.out_wheel is not None:
        out_dir = wheel_ctx.out_wheel.parent
        wheel_fname = wheel_ctx.out_wheel.name
    else:
        out_dir = Path.cwd()
        wheel_fname = wheel_ctx.in_wheel.name
''', '''    current_out = wheel_ctx.out_wheel
    out_dir = Path.cwd() if current_out is None else current_out.parent
    wheel_fname = (wheel_ctx.in_wheel if current_out is None else current_out).name
'''))
ref("wt-add-early", (WT, '''    if updated_tags != in_info_tags:
        del info["Tag"]''', '''    tags_changed = updated_tags != in_info_tags
    if tags_changed:
        del info["Tag"]'''))
ref("wt-arch-any", (WT, '''            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
''', '''            matching = {arch.baseline for arch in Architecture if platform.endswith(f"_{arch.value}")}
            result |= matching
            if not matching:
'''), (WT, "        found = False\n        pure_", "        pure_"))
ref("wt-arch-flow", (WT, '''        pure_ = platform == "any"
        pure = pure and pure_
        missed = missed or pure_
        if not pure_:
            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
                logger.warning(
                    "couldn't guess architecture for platform tag '%s'",
                    platform,
                )
                missed = True
''', '''        if platform == "any":
            missed = True
            continue
        pure = False
        for arch in Architecture:
            if platform.endswith(f"_{arch.value}"):
                result.add(arch.baseline)
                found = True
        if not found:
            logger.warning(
                "couldn't guess architecture for platform tag '%s'",
                platform,
            )
            missed = True
'''))
ref("wt-libc-comp", (WT, '''    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
''', '''    result = {
        libc
        for platform in get_wheel_platforms(filename)
        for libc in Libc
        if platform.startswith(libc.tag_prefix)
    }
'''))
ref("wt-libc-order", (WT, '''    if len(result) == 0:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    if len(result) > 1:
        msg = f"wheels with multiple libc are not supported, got {result}"
        raise WheelToolsError(msg)
    return result.pop()
''', '''    if len(result) > 1:
        msg = f"wheels with multiple libc are not supported, got {result}"
        raise WheelToolsError(msg)
    if not result:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    return next(iter(result))
'''))
ref("wt-android-if", (WT, '''    if match is None:
        msg = f"invalid tag: {tag}"
        raise ValueError(msg)
    return int(match[1])
''', '''    if match:
        return int(match.group(1))
    msg = f"invalid tag: {tag}"
    raise ValueError(msg)
'''))
ref("wt-distinfo", (WT, '''    if len(info_dirs) != 1:
        msg = "Should be exactly one `*.dist_info` directory"
        raise WheelToolsError(msg)
    return info_dirs[0]
''', '''    if len(info_dirs) == 1:
        return info_dirs[0]
    msg = "Should be exactly one `*.dist_info` directory"
    raise WheelToolsError(msg)
'''))
ref("to-unique-dict", (TO, '''    uniques = []
    for element in sequence:
        if element not in uniques:
            uniques.append(element)
    return uniques
''', '''    return list(dict.fromkeys(sequence))
'''))
ref("to-unique-continue", (TO, '''        if element not in uniques:
            uniques.append(element)
''', '''        if element in uniques:
            continue
        uniques.append(element)
'''))
ref("to-walk-comp", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            subdirs = [dir_ for dir_ in dirnames if not dir_.endswith(".dist-info")]
            dist_info = [dir_ for dir_ in dirnames if dir_.endswith(".dist-info")]
            dirnames[:] = subdirs + dist_info
'''))
ref("to-walk-key", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            dirnames.sort(key=lambda name: name.endswith(".dist-info"))
'''))
ref("to-walk-record", (TO, '''        if (
            dirpath.name.endswith(".dist-info")
            and dirpath.parent == topdir
            and "RECORD" in filenames
        ):
            filenames.remove("RECORD")
            filenames.append("RECORD")
''', '''        in_dist_info = dirpath.parent == topdir and dirpath.name.endswith(".dist-info")
        if in_dist_info and "RECORD" in filenames:
            filenames.remove("RECORD")
            filenames.append("RECORD")
'''))
ref("to-zip2dir-info", (TO, '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
                continue
            attr = member.external_attr >> 16
            if attr:
                extracted_path.chmod((attr & 0o777) | 0o600)
'''))
ref("to-dir2zip-helper", (TO, '''    if date_time is None:
        st = in_dir.stat()
        date_time = datetime.fromtimestamp(st.st_mtime, tz=timezone.utc)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    date_time_args = _zip_timestamp(in_dir, date_time)
'''), (TO, "def dir2zip(", '''def _zip_timestamp(in_dir: Path, date_time: datetime | None):
    if date_time is None:
        date_time = datetime.fromtimestamp(in_dir.stat().st_mtime, tz=timezone.utc)
    args = date_time.timetuple()[:6]
    if args >= (1980, 1, 1, 0, 0, 0):
        return args
    logger.warning("dir2zip, clipping timestamp to 1980-01-01")
    return (1980, 1, 1, 0, 0, 0)


def dir2zip('''))
ref("to-dir2zip-data", (TO, '''                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
''', '''                data = fname.read_bytes()
                z.writestr(zinfo, data, compresslevel=zip_compression_level)
'''))
ref("to-dir2zip-max", (TO, '''    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    earliest = (1980, 1, 1, 0, 0, 0)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < earliest:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = earliest
'''))
ref("to-subdir-any", (TO, "    return root == path or root in path.parents\n", "    if path == root:\n        return True\n    return any(parent == root for parent in path.parents)\n"))
ref("to-subdir-chain", (TO, "    return root == path or root in path.parents\n", "    return root in (path, *path.parents)\n"))
ref("to-env-msg", (TO, '''        if self.env_default is not None and choices is not None and self.env_default not in choices:
''', '''        has_choice = self.env_default is not None and choices is not None
        if has_choice and self.env_default not in choices:
'''))
# ---------------------------------------------------------------- patcher
ref("pa-none-helper", (PA, '''            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
''', '''            needs_patching = any(
                (
                    update_info.soname is not None,
                    update_info.remove_needed,
                    update_info.replace_needed,
                    update_info.clear_rpath,
                    update_info.rpath is not None,
                )
            )
            if needs_patching:
                errors.append(filepath)
'''))
ref("pa-args-helper", (PA, '''            args = []
            if update_info.soname is not None:
                args.extend(["--set-soname", update_info.soname])
            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
            if update_info.clear_rpath and update_info.rpath is None:
                args.append("--remove-rpath")
            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
            if args:
                check_call([self._patchelf_path, *args, filepath])
''', '''            args = self._patchelf_args(update_info)
            if args:
                check_call([self._patchelf_path, *args, filepath])
'''), (PA, '''    def apply_updates(self) -> None:
        elf_files = list(self._updates.keys())
        for filepath in elf_files:
            # prevent re-applying by removing from self._updates
            update_info = self._updates.pop(filepath)
            args''', '''    def _patchelf_args(self, update_info: ElfUpdateInfo) -> list[str]:
        args = []
        if update_info.soname is not None:
            args += ["--set-soname", update_info.soname]
        for soname in update_info.remove_needed:
            args += ["--remove-needed", soname]
        for old, new in update_info.replace_needed:
            args += ["--replace-needed", old, new]
        if update_info.rpath is None:
            if update_info.clear_rpath:
                args.append("--remove-rpath")
        else:
            # Android supports only RUNPATH, not RPATH.
            if not self.platform.startswith("android"):
                args.append("--force-rpath")
            args += ["--set-rpath", update_info.rpath]
        return args

    def apply_updates(self) -> None:
        elf_files = list(self._updates.keys())
        for filepath in elf_files:
            # prevent re-applying by removing from self._updates
            update_info = self._updates.pop(filepath)
            args'''))
ref("pa-args-rpath", (PA, '''            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
''', '''            if update_info.rpath is not None:
                if not self.platform.startswith("android"):
                    args.append("--force-rpath")
                args.extend(["--set-rpath", update_info.rpath])
'''))
ref("pa-args-elif", (PA, '''            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
''', '''            for soname in update_info.remove_needed:
                args.extend(("--remove-needed", soname))
'''))
ref("pa-overlap-loop", (PA, '''        replaced_sonames = set(chain.from_iterable(replaced))
        return next((name for name in removed if name in replaced_sonames), None)
''', '''        replaced_sonames = {name for pair in replaced for name in pair}
        for name in removed:
            if name in replaced_sonames:
                return name
        return None
'''))
ref("pa-overlap-no-walrus", (PA, '''        if overlap_soname := ElfPatcher._needed_overlap(sonames, update_info.replace_needed):
            msg''', '''        overlap_soname = self._needed_overlap(sonames, update_info.replace_needed)
        if overlap_soname:
            msg'''))
ref("pa-getrpath-flat", (PA, '''        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
''', '''        update_info = self._updates.get(key)
        if update_info is None:
            return self.get_rpath_direct(file_name)
        if update_info.rpath is not None:
            return update_info.rpath
        if update_info.clear_rpath:
            return ""
        return self.get_rpath_direct(file_name)
'''))
ref("pa-getpatcher-if", (PA, '''        match patcher:
            case "patchelf" | "lief-patchelf":
                return _Patchelf(variant=patcher, platform=platform)
            case "none":
                return _NonePatcher(platform=platform)
            case _:
                msg = f"Unknown patcher {patcher!r}"
                raise ValueError(msg)
''', '''        if patcher == "none":
            return _NonePatcher(platform=platform)
        if patcher in ("patchelf", "lief-patchelf"):
            return _Patchelf(variant=patcher, platform=platform)
        msg = f"Unknown patcher {patcher!r}"
        raise ValueError(msg)
'''))
ref("pa-verify-helper", (PA, '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg =''', '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m is not None:
        version_info = tuple(map(int, m.group(1).split(".")))
        if version_info >= (0, 14, 5):
            return Path(patchelf_path)
    msg ='''))
ref("pa-apply-while", (PA, '''            if args:
                check_call([self._patchelf_path, *args, filepath])
        assert''', '''            if not args:
                continue
            command = [self._patchelf_path, *args, filepath]
            check_call(command)
        assert'''))
ref("pa-setrpath", (PA, '''        if self.platform.startswith("android") and android_api_level(self.platform) < 24:
            msg''', '''        is_android = self.platform.startswith("android")
        if is_android and android_api_level(self.platform) < 24:
            msg'''))
ref("pa-keys", (PA, '''        elf_files = list(self._updates.keys())
        errors = []
        for filepath in elf_files:
''', '''        errors = []
        for filepath in list(self._updates):
'''))
# ---------------------------------------------------------------- main_repair / main_show / others
ref("mr-plat-next", (MR, '''    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            requested_architecture = a
            plat_base = plat_base.removesuffix(suffix)
            break
'''))
ref("mr-plat-helper", (MR, '''    requested_architecture: Architecture | None = None

    plat_base: str = args.PLAT
    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    plat_base, requested_architecture = _split_platform(args.PLAT)
'''), (MR, "def execute(", '''def _split_platform(plat: str) -> tuple[str, Architecture | None]:
    for a in Architecture:
        suffix = f"_{a.value}"
        if plat.endswith(suffix):
            return plat[: -len(suffix)], a
    return plat, None


def execute('''))
ref("mr-checks-table", (MR, '''        if requested_policy > wheel_abi.sym_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the '
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
            parser.error(msg)
''', '''        if wheel_abi.sym_policy < requested_policy:
            parser.error(
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the presence of '
                "too-recent versioned symbols. You'll need to compile the wheel on an older toolchain."
            )
'''))
ref("mr-abis", (MR, '''            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
''', '''            overall = wheel_abi.overall_policy
            abis = [overall.name, *overall.aliases] + abis
'''))
ref("mr-plat-tern", (MR, '''            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
''', '''            is_linux = wheel_abi.overall_policy == policies.linux
            plat = (policies.lowest if is_linux else wheel_abi.overall_policy).name
'''))
ref("mr-pure", (MR, '''            if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                dest_fname = wheel_dir / wheel_file.name
                if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
                    shutil.copy2(wheel_file, dest_fname)
                # process next wheel
                continue
            return 1
''', '''            if not (is_pure_python and args.ALLOW_PURE_PY_WHEEL):
                return 1
            dest_fname = wheel_dir / wheel_filename
            already_there = dest_fname.is_file() and dest_fname.samefile(wheel_file)
            if not already_there:
                shutil.copy2(wheel_file, dest_fname)
            # process next wheel
            continue
'''))
ref("mr-libc-loop", (MR, '''            if plat_base.startswith(lc.tag_prefix):
                if libc is None:
                    libc = lc
                if libc != lc:
''', '''            if not plat_base.startswith(lc.tag_prefix):
                continue
            if libc is None:
                libc = lc
            elif libc != lc:
                if True:
'''))
ref("mr-libc-helper", (MR, '''        try:
            libc = get_wheel_libc(wheel_filename)
        except WheelToolsError:
            logger.debug("The libc could not be deduced from the wheel filename")
            libc = None
''', '''        libc = _libc_of(wheel_filename)
'''), (MR, "def execute(", '''def _libc_of(wheel_filename: str) -> Libc | None:
    try:
        return get_wheel_libc(wheel_filename)
    except WheelToolsError:
        logger.debug("The libc could not be deduced from the wheel filename")
        return None


def execute('''))
ref("mr-mkdir", (MR, '''        if not wheel_dir.exists():
            wheel_dir.mkdir(parents=True)
''', '''        if wheel_dir.exists() is False:
            wheel_dir.mkdir(parents=True)
'''))
ref("mr-names", (MR, '''    policy_names = [p.name for p in policies if p != policies.linux]
    policy_names += [alias for p in policies for alias in p.aliases]
    policy_names += ["auto"]
''', '''    policy_names = []
    for p in policies:
        if p != policies.linux:
            policy_names.append(p.name)
    for p in policies:
        policy_names.extend(p.aliases)
    policy_names.append("auto")
'''))
ref("mr-wheelfiles", (MR, '''    for wheel_file in wheel_files:
        if not wheel_file''', '''    for wheel_file in args.WHEEL_FILE:
        if not wheel_file'''), (MR, "    wheel_files: list[Path] = args.WHEEL_FILE\n", ""))
ref("mr-ispure", (MR, '''        except (WheelToolsError, NonPlatformWheelError) as e:
            logger.warning(
                "The architecture could not be deduced from the wheel filename",
            )
            is_pure_python = isinstance(e, NonPlatformWheelError)
''', '''        except NonPlatformWheelError:
            logger.warning("The architecture could not be deduced from the wheel filename")
            is_pure_python = True
        except WheelToolsError:
            logger.warning("The architecture could not be deduced from the wheel filename")
'''))
ref("ms-json-comp", (MS, '''            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
''', '''            reference = winfo.external_refs[p.name]
            if reference.libs:
                entry["libs_to_eliminate"] = sorted(reference.libs)
            blacklist = reference.blacklist
            if blacklist:
'''))
ref("ms-json-continue", (MS, '''        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
''', '''        if not p > winfo.overall_policy:
            continue
        entry: dict[str, Any] = {}
        p_libs = winfo.external_refs[p.name].libs
        if p_libs:
            entry["libs_to_eliminate"] = sorted(p_libs.keys())
        blacklist = winfo.external_refs[p.name].blacklist
        if blacklist:
            entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
        if entry:
            policy_upgrades[p.name] = entry
'''))
ref("ms-json-build", (MS, '''        "external_libs": {str(k): str(v) if v else None for k, v in sorted(libs.items())},
''', '''        "external_libs": {str(k): (None if not v else str(v)) for k, v in sorted(libs.items())},
'''))
ref("ms-exec-pure", (MS, '''        if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
            if args.JSON:
                print(json.dumps({"version": 1, "wheel": fn, "pure": True}))
            return 0
        if args.JSON:
            print(json.dumps({"version": 1, "wheel": fn, "error": e.message}))
        return 1
''', '''        accepted = is_pure_python and args.ALLOW_PURE_PY_WHEEL
        if args.JSON:
            payload: dict[str, Any] = {"version": 1, "wheel": fn}
            if accepted:
                payload["pure"] = True
            else:
                payload["error"] = e.message
            print(json.dumps(payload))
        return 0 if accepted else 1
'''))
ref("ms-exec-libs", (MS, '''    if len(libs) == 0:
        printp("The wheel requires no external shared libraries! :)")
    else:
        printp("The following external shared libraries are required by the wheel:")
        print(json.dumps(dict(sorted(libs.items()))))
''', '''    if libs:
        printp("The following external shared libraries are required by the wheel:")
        print(json.dumps(dict(sorted(libs.items()))))
    else:
        printp("The wheel requires no external shared libraries! :)")
'''))
ref("ms-exec-fn", (MS, '''    fn = wheel_file.name

    if not wheel_file.is_file():''', '''    if not wheel_file.is_file():'''))
ref("ms-exec-archhelper", (MS, '''    is_pure_python = False
    try:
        arch = get_wheel_architecture(fn)
    except (WheelToolsError, NonPlatformWheelError) as e:
        logger.warning("The architecture could not be deduced from the wheel filename")
        is_pure_python = isinstance(e, NonPlatformWheelError)
        arch = None
''', '''    arch = None
    is_pure_python = False
    try:
        arch = get_wheel_architecture(fn)
    except (NonPlatformWheelError, WheelToolsError) as e:
        if isinstance(e, NonPlatformWheelError):
            is_pure_python = True
        logger.warning("The architecture could not be deduced from the wheel filename")
'''))
ref("ha-walrus", (HA, '''    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return''', '''    while buf := afile.read(blocksize):
        hasher.update(buf)
    return'''))
ref("ha-true", (HA, '''    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return''', '''    while True:
        buf = afile.read(blocksize)
        if not buf:
            break
        hasher.update(buf)
    return'''))
ref("ha-iter", (HA, '''    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return''', '''    for chunk in iter(lambda: afile.read(blocksize), b""):
        hasher.update(chunk)
    return'''))
ref("ar-subset-merge", (AR, '''        if self.baseline != other.baseline:
            return False
        member_list = Architecture._member_list()
        return member_list.index(self) <= member_list.index(other)
''', '''        members = Architecture._member_list()
        return self.baseline == other.baseline and members.index(self) <= members.index(other)
'''))
ref("ar-superset", (AR, '''        if self.baseline != other.baseline:
            return False
        return other.is_subset(self)
''', '''        return self.baseline == other.baseline and other.is_subset(self)
'''))
ref("ar-baseline", (AR, '''        if self.value.startswith("arm64"):
            return Architecture.aarch64
        if self.value.startswith("x86_64"):
            return Architecture.x86_64
        return self
''', '''        value = self.value
        if value.startswith("x86_64"):
            result = Architecture.x86_64
        elif value.startswith("arm64"):
            result = Architecture.aarch64
        else:
            result = self
        return result
'''))
ref("ar-detect", (AR, '''        if machine in {"x86_64", "i686"}:
            machine = {64: "x86_64", 32: "i686"}[bits]
        elif machine in {"aarch64", "armv8l"}:
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            machine = {64: "aarch64", 32: "armv7l"}[bits]
''', '''        x86_names = {64: "x86_64", 32: "i686"}
        arm_names = {64: "aarch64", 32: "armv7l"}
        if machine in ("x86_64", "i686"):
            machine = x86_names[bits]
        elif machine in ("aarch64", "armv8l"):
            machine = arm_names[bits]
'''))
ref("lc-musl-len", (LC, '''    try:
        (dl_path,) = list(Path("/lib").glob("libc.musl-*.so.1"))
    except ValueError:
        msg = "musl libc not detected"
        logger.debug("%s", msg)
        raise InvalidLibcError(msg) from None

    return dl_path
''', '''    candidates = list(Path("/lib").glob("libc.musl-*.so.1"))
    if len(candidates) != 1:
        msg = "musl libc not detected"
        logger.debug("%s", msg)
        raise InvalidLibcError(msg)

    return candidates[0]
'''))
ref("lc-prefix-match", (LC, '''        return {
            Libc.GLIBC: "manylinux",
            Libc.MUSL: "musllinux",
            Libc.ANDROID: "android",
        }[self]
''', '''        if self == Libc.GLIBC:
            return "manylinux"
        if self == Libc.MUSL:
            return "musllinux"
        return "android"
'''))
ref("lc-detect-else", (LC, '''        try:
            _find_musl_libc()
            logger.debug("Detected musl libc")
            return Libc.MUSL  # noqa: TRY300
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
''', '''        try:
            _find_musl_libc()
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
        logger.debug("Detected musl libc")
        return Libc.MUSL
'''))
ref("lc-version-helper", (LC, '''    return LibcVersion(int(match.group("major")), int(match.group("minor")))


def _get_glibc_version''', '''    major, minor = match.group("major"), match.group("minor")
    return LibcVersion(major=int(major), minor=int(minor))


def _get_glibc_version'''))
ref("ge-order", (GE, '''    if in_path.name.endswith(".whl"):
        return InWheelCtx(in_path, out_path)
    if in_path.name.endswith(".tar.bz2"):
        if out_path is not None:
            raise NotImplementedError
        return InCondaPkgCtx(in_path)
''', '''    name = in_path.name
    if name.endswith(".tar.bz2"):
        if out_path is None:
            return InCondaPkgCtx(in_path)
        raise NotImplementedError
    if name.endswith(".whl"):
        return InWheelCtx(in_path, out_path)
'''))
ref("er-nonplat", (ER, '''        if architecture is None or not libraries:
            msg = (''', '''        unknown = architecture is None or not libraries
        if unknown:
            msg = ('''))
ref("js-encode", (JS, '''        if isinstance(o, dict):
            o = {str(k): v for k, v in o.items()}
        return super().encode(o)
''', '''        if not isinstance(o, dict):
            return super().encode(o)
        return super().encode({str(key): item for key, item in o.items()})
'''))
ref("js-default-order", (JS, '''        if isinstance(value, frozenset):
            return sorted(value)
        if isinstance(value, Enum):
            return repr(value)
        if isinstance(value, PurePath):
            return str(value)
        return super().default(value)
''', '''        if isinstance(value, PurePath):
            return str(value)
        if isinstance(value, Enum):
            return repr(value)
        if isinstance(value, frozenset):
            return sorted(value)
        return super().default(value)
'''))
ref("sb-components", (SB, '''    for filepath, provided_by in sorted(sbom_packages.items()):
        bom_ref = (
            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
        )
''', '''    for filepath in sorted(sbom_packages):
        provided_by = sbom_packages[filepath]
        path_hash = hashlib.sha256(filepath.encode(errors="ignore")).hexdigest()
        bom_ref = f"{provided_by.purl}#{path_hash}"
'''))
ref("sb-dep-helper", (SB, '''        sbom_components.append(
            {
                "type": "library",
                "bom-ref": bom_ref,
                "name": provided_by.package_name,
                "version": provided_by.package_version,
                "purl": provided_by.purl,
            },
        )
''', '''        sbom_components.append(_component(bom_ref, provided_by))
'''), (SB, "def create_sbom_for_wheel(", '''def _component(bom_ref: str, provided_by) -> dict[str, typing.Any]:
    return {
        "type": "library",
        "bom-ref": bom_ref,
        "name": provided_by.package_name,
        "version": provided_by.package_version,
        "purl": provided_by.purl,
    }


def create_sbom_for_wheel('''))
ref("sb-map", (SB, "whichprovides([str(f) for f in sbom_filepaths])", "whichprovides(list(map(str, sbom_filepaths)))"))
ref("sb-depends-late", (SB, '''        sbom_dependencies[0]["dependsOn"].append(bom_ref)  # type: ignore[attr-defined]
        sbom_dependencies.append({"ref": bom_ref})
''', '''        depends_on.append(bom_ref)
        sbom_dependencies.append({"ref": bom_ref})
'''), (SB, '''    sbom_dependencies = [{"ref": wheel_purl, "dependsOn": []}]
''', '''    depends_on: list[str] = []
    sbom_dependencies = [{"ref": wheel_purl, "dependsOn": depends_on}]
'''))
ref("td-exit-order", (TD, '''        self._pwd = Path.cwd()
        os.chdir(self._name)
        self._tmpdir.__enter__()
        return self._name
''', '''        self._pwd = Path.cwd()
        self._tmpdir.__enter__()
        os.chdir(self._name)
        return self._name
'''))
ref("co-iter", (CO, '''        files = self.path / "info" / "files"
        with files.open() as f:
            return [line.strip() for line in f.readlines()]
''', '''        files = self.path.joinpath("info", "files")
        with files.open() as f:
            return [line.strip() for line in f]
'''))
ref("ma-result", (MA, '''    result: int | None = args.func(args, p)
    return result
''', '''    return args.func(args, p)
'''))
ref("ma-level", (MA, '''    if args.verbose >= 1:
        logging.basicConfig(level=logging.DEBUG)
    else:
        logging.basicConfig(level=logging.INFO)
''', '''    level = logging.DEBUG if args.verbose >= 1 else logging.INFO
    logging.basicConfig(level=level)
'''))
ref("ml-exec", (ML, '''    logger.info(json.dumps(ldd(args.file, ldpaths=ld_paths_from_arg(args.LDPATHS))))
''', '''    ldpaths = ld_paths_from_arg(args.LDPATHS)
    tree = ldd(args.file, ldpaths=ldpaths)
    logger.info(json.dumps(tree))
'''))


# ---------------------------------------------------------------- second batch
ref("h-wa-purelib-early", (WA, '''            if any(p.name == "purelib" for p in fn.parents):
                shared_libraries_in_purelib.append(so_name)
''', '''            if "purelib" in {p.name for p in fn.parents}:
                shared_libraries_in_purelib.append(so_name)
'''))
ref("h-wa-libs-loop", (WA, '''        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
''', '''        needed_libs = set()
        for trees in (full_elftree, nonpy_elftree):
            for tree in trees.values():
                needed_libs.update(tree.needed)
'''))
ref("h-wa-ctx-helper", (WA, '''                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
''', '''                if libc is None:
                    if elftree.libc is not None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                elif elftree.libc not in (None, libc):
                    log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                    continue
'''))
ref("h-wa-record-externals", (WA, '''        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension ELF file is not needed by something else
            # inside the wheel, then it was not checked by the logic above and
            # we should walk its elftree.
            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

            # Even if a non-pyextension ELF file is not needed, we
            # should include it as an external reference, because
            # it might require additional external libraries.
            full_external_refs[fn] = policies.lddtree_external_references(
                elf_tree,
                ctx.path,
            )
''', '''        full_elftree.update(
            {fn: tree for fn, tree in nonpy_elftree.items() if fn.name not in needed_libs}
        )
        for fn, elf_tree in nonpy_elftree.items():
            full_external_refs[fn] = policies.lddtree_external_references(elf_tree, ctx.path)
'''))
ref("h-wa-uses-flags", (WA, '''                    uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)
                    if py_ver == 2:
                        uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
''', '''                    if elf_references_pyfpe_jbuf(elf):
                        uses_pyfpe_jbuf = True
                    if py_ver == 2 and any(True for _ in elf_find_ucs2_symbols(elf)):
                        uses_ucs2_symbols = True
'''))
ref("h-wa-extlibs-filter", (WA, '''    for external_ref in external_refs.values():
        # linux tag (priority 0) has no white-list, do not analyze it
        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
''', '''    non_linux = (ref for ref in external_refs.values() if ref.policy.priority != 0)
    for external_ref in non_linux:
        for libname, realpath in external_ref.libs.items():
            if not realpath or realpath in result:
                continue
            result[Path(realpath)] = libname
    return result
'''))
ref("h-wa-extlibs-chain", (WA, '''    for external_ref in external_refs.values():
        # linux tag (priority 0) has no white-list, do not analyze it
        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
''', '''    pairs = itertools.chain.from_iterable(
        ref.libs.items() for ref in external_refs.values() if ref.policy.priority != 0
    )
    for libname, realpath in pairs:
        if realpath and realpath not in result:
            result[Path(realpath)] = libname
    return result
'''))
ref("h-wa-sympol-helper", (WA, '''        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''        policy_symbols = _merge_symbols(
            versioned_symbols, external_ref.libs, external_versioned_symbols
        )
'''), (WA, "def get_symbol_policies(", '''def _merge_symbols(versioned_symbols, sonames, external_versioned_symbols):
    merged = deepcopy(versioned_symbols)
    for soname in sonames:
        if soname in external_versioned_symbols:
            ext_symbols = external_versioned_symbols[soname]
            for k in ext_symbols:
                merged[k].update(ext_symbols[k])
    return merged


def get_symbol_policies('''))
ref("h-wa-mach-found", (WA, '''            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies.linux.priority < found_policy.priority:
''', '''            found_policy = max(
                (policy for policy in policies if soname in policy.whitelist),
                default=policies.linux,
            )
            if policies.linux < found_policy:
'''))
ref("h-wa-mach-deps", (WA, '''        for dependency in dynamic_executable.libraries.values():
            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert dependency.platform is not None  # noqa: S101
            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
                dependency.soname,
                dependency.platform.extended_architecture,
            )
''', '''        for dependency in dynamic_executable.libraries.values():
            realpath = dependency.realpath
            if realpath is None or dependency.soname not in external_so_names:
                continue
            if realpath not in machine_to_check:
                assert dependency.platform is not None  # noqa: S101
                machine_to_check[realpath] = (
                    dependency.soname,
                    dependency.platform.extended_architecture,
                )
'''))
ref("h-wa-graft-expr", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    auto = requested_policy_base_name in (None, "auto")
    prefix = f"{requested_policy_base_name}_"
    counts = [
        len(e.libs)
        for e in external_refs.values()
        if (e.policy != policies.linux if auto else e.policy.name.startswith(prefix))
    ]
    graft_lib_count = min(counts, default=0)
'''))
ref("h-wa-overall-steps", (WA, '''    overall_policy = min(
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
''', '''    constraints = [symbol_policy, ucs_policy, pyfpe_policy, blacklist_policy, machine_policy]
    if requested_policy_base_name is not None:
        constraints.append(graft_policy)
    if not allow_graft:
        constraints.append(ref_policy)
    overall_policy = min(constraints)
'''))
ref("h-wa-abiinfo-kw", (WA, '''    return WheelAbIInfo(
        policies,
        external_refs_by_fn,
        overall_policy,
        external_refs,
        ref_policy,
        versioned_symbols,
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
        graft_policy,
    )
''', '''    return WheelAbIInfo(
        policies=policies,
        full_external_refs=external_refs_by_fn,
        overall_policy=overall_policy,
        external_refs=external_refs,
        ref_policy=ref_policy,
        versioned_symbols=versioned_symbols,
        sym_policy=symbol_policy,
        ucs_policy=ucs_policy,
        pyfpe_policy=pyfpe_policy,
        blacklist_policy=blacklist_policy,
        machine_policy=machine_policy,
        graft_policy=graft_policy,
    )
'''))
ref("h-wa-update-flip", (WA, '''            for lib, symbols in v.blacklist.items():
                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''            blacklist = d[k].blacklist
            for lib, symbols in v.blacklist.items():
                merged = set(symbols)
                if lib in blacklist:
                    merged |= set(blacklist[lib])
                blacklist[lib] = sorted(merged)
'''))
ref("h-wa-update-get", (WA, '''                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''                d[k].blacklist[lib] = sorted(set(d[k].blacklist.get(lib, ())) | set(symbols))
'''))
ref("h-rp-process-lib", (RP, '''                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
''', '''                new_soname, new_path = _graft(src_path, dest_dir, patcher)
                sbom_filepaths.append(src_path)
                soname_map[soname] = new_soname, new_path
                replacements.append((soname, new_soname))
'''), (RP, "def strip_symbols(", '''def _graft(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, Path]:
    if not dest_dir.exists():
        dest_dir.mkdir()
    return copylib(src_path, dest_dir, patcher)


def strip_symbols('''))
ref("h-rp-fix-internal", (RP, '''        for _, path in soname_map.values():
            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''        for _, path in soname_map.values():
            _link_grafted(path, soname_map, patcher)
'''), (RP, "def strip_symbols(", '''def _link_grafted(path, soname_map, patcher) -> None:
    internal = [n for n in elf_read_dt_needed(path) if n in soname_map]
    if not internal:
        patcher.clear_rpath(path)
        return
    patcher.replace_needed(path, *((n, soname_map[n][0]) for n in internal))
    patcher.set_rpath(path, "$ORIGIN")


def strip_symbols('''))
ref("h-rp-extlibs-first", (RP, '''            if len(ext_libs) > 0:
                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)
                append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
''', '''            if not ext_libs:
                continue
            if _path_is_script(fn):
                new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                patcher.update_elf_path(fn, new_fn)
                script_shims[fn] = new_fn
            else:
                new_fn = fn
            rel_dest = os.path.relpath(dest_dir, new_fn.parent)
            append_rpath_within_wheel(new_fn, str(Path("$ORIGIN", rel_dest)), ctx.name, patcher)
'''))
ref("h-rp-libpython-guard", (RP, '''                if LIBPYTHON_RE.match(soname):
                    logger.warning(
                        "Removing %s dependency from %s. "
                        "Linking with libpython is forbidden for manylinux/musllinux wheels.",
                        soname,
                        str(fn),
                    )
                    patcher.remove_needed(fn, soname)
                    continue

                if src_path is None:
                    msg = (
                        "Cannot repair wheel, because required "
                        f'library "{soname}" could not be located'
                    )
                    raise ValueError(msg)
''', '''                is_libpython = LIBPYTHON_RE.match(soname) is not None
                if src_path is None and not is_libpython:
                    msg = (
                        "Cannot repair wheel, because required "
                        f'library "{soname}" could not be located'
                    )
                    raise ValueError(msg)
                if is_libpython:
                    logger.warning(
                        "Removing %s dependency from %s. "
                        "Linking with libpython is forbidden for manylinux/musllinux wheels.",
                        soname,
                        str(fn),
                    )
                    patcher.remove_needed(fn, soname)
                    continue
'''))
ref("h-rp-strip-loop", (RP, '''            libs_to_strip = [path for (_, path) in soname_map.values()]
            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(libs_to_strip, extensions))
''', '''            to_strip = [path for _, path in soname_map.values()]
            for path in external_refs_by_fn:
                to_strip.append(script_shims.get(path, path))
            strip_symbols(to_strip)
'''))
ref("h-rp-copylib-names", (RP, '''    base, ext = src_name.split(".", 1)
    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
''', '''    base, ext = src_name.split(".", 1)
    suffix = f"-{shorthash}"
    if base.endswith(suffix):
        new_soname = src_name
    else:
        new_soname = base + suffix + "." + ext
'''))
ref("h-rp-copylib-mode", (RP, '''    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)
''', '''    mode = dest_path.stat().st_mode
    writable = mode & stat.S_IWRITE
    if writable == 0:
        dest_path.chmod(mode | stat.S_IWRITE)
'''))
ref("h-rp-valid-and", (RP, '''    if not Path(full_rpath_entry).is_absolute():
        logger.debug(
            "rpath entry %s could not be resolved to an absolute path -- discarding it.",
            rpath,
        )
        return False
    if not is_subdir(full_rpath_entry, wheel_base_dir):
        logger.debug("rpath entry %s points outside the wheel -- discarding it.", rpath)
        return False
    logger.debug("Preserved rpath entry %s", rpath)
    return True
''', '''    keep = Path(full_rpath_entry).is_absolute() and is_subdir(full_rpath_entry, wheel_base_dir)
    logger.debug("%s rpath entry %s", "Preserved" if keep else "Discarding", rpath)
    return keep
'''))
ref("h-rp-shim-textwrap", (RP, '''    with orig_path.open("w", newline="\\n") as f:
        f.write(_script_shim(new_path))
    orig_path.chmod(new_path.stat().st_mode)
''', '''    mode = new_path.stat().st_mode
    shim = _script_shim(new_path)
    with orig_path.open("w", newline="\\n") as f:
        f.write(shim)
    orig_path.chmod(mode)
'''))
ref("h-rp-script-tuple", (RP, '''    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
''', '''    if len(path.parts) != 3:
        return False
    data_dir, scheme, _ = path.parts
    return scheme == "scripts" and data_dir.endswith(".data")
'''))
ref("h-po-init-policy-helper", (PO, '''                policy_ = Policy(
                    name=name,
                    aliases=aliases,
                    priority=policy["priority"],
                    symbol_versions=symbol_versions,
                    whitelist=whitelist,
                    blacklist=blacklist,
                )
                self._policies.append(policy_)
''', '''                self._policies.append(
                    Policy(name, aliases, policy["priority"], symbol_versions, whitelist, blacklist)
                )
'''))
ref("h-po-init-islinux", (PO, '''            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = f"{policy['name']}_{base_arch}"
                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
''', '''            is_linux = policy["name"] == "linux"
            if is_linux or arch.value in policy["symbol_versions"]:
                name = f"{policy['name']}_{base_arch}"
                symbol_versions = {}
                if not is_linux:
                    for k, v in policy["symbol_versions"][base_arch].items():
                        symbol_versions[k] = frozenset(v)
'''))
ref("h-po-init-musl-helper", (PO, '''            if musl_policy is None:
                try:
                    musl_version = libc.get_current_version()
                    musl_policy = f"musllinux_{musl_version.major}_{musl_version.minor}"
                except InvalidLibcError:
                    logger.warning(
                        "can't determine musl libc version, latest known version will be used.",
                    )
''', '''            if musl_policy is None:
                musl_policy = _host_musl_policy(libc)
'''), (PO, "def _validate_pep600_compliance(", '''def _host_musl_policy(libc: Libc) -> str | None:
    try:
        version = libc.get_current_version()
    except InvalidLibcError:
        logger.warning("can't determine musl libc version, latest known version will be used.")
        return None
    return f"musllinux_{version.major}_{version.minor}"


def _validate_pep600_compliance('''))
ref("h-po-android-helper", (PO, '''            platforms = get_wheel_platforms(wheel_fn.name)
            if len(platforms) != 1:
                msg = f"Android wheels must have exactly one platform tag, got {platforms}"
                raise ValueError(msg)
            platform = platforms[0]
            api_level = android_api_level(platform)
''', '''            platform = self._android_platform(wheel_fn)
            api_level = android_api_level(platform)
'''), (PO, '''    def __iter__(self) -> Generator[Policy]:
''', '''    @staticmethod
    def _android_platform(wheel_fn: Path) -> str:
        platforms = get_wheel_platforms(wheel_fn.name)
        if len(platforms) == 1:
            return platforms[0]
        msg = f"Android wheels must have exactly one platform tag, got {platforms}"
        raise ValueError(msg)

    def __iter__(self) -> Generator[Policy]:
'''))
ref("h-po-required-comp", (PO, '''        for symbols in versioned_symbols.values():
            for symbol in symbols:
                sym_name, _, _ = symbol.partition("_")
                required_vers.setdefault(sym_name, set()).add(symbol)
''', '''        for symbols in versioned_symbols.values():
            for symbol in symbols:
                sym_name = symbol.partition("_")[0]
                if sym_name not in required_vers:
                    required_vers[sym_name] = set()
                required_vers[sym_name].add(symbol)
'''))
ref("h-po-sat-return", (PO, '''            policy_satisfied = True
            for name in set(required_vers) & set(policy_sym_vers):
                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
            return policy_satisfied
''', '''            for name, required in required_vers.items():
                if name not in policy_sym_vers:
                    continue
                missing = required - policy_sym_vers[name]
                if missing:
                    logger.debug("Package requires %s, incompatible with policy %s", missing, policy_name)
                    return False
            return True
'''))
ref("h-po-filter-flat", (PO, '''                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
                    # always exclude ELF dynamic linker/loader
                    # 'ld64.so.2' on s390x
                    # 'ld64.so.1' on ppc64le
                    # 'ld-linux*' on other platforms
                    continue
                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
''', '''                is_loader = "ld-linux" in lib or lib in ("ld64.so.1", "ld64.so.2")
                is_android_python = self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib)
                if not (is_loader or is_android_python or lib in whitelist):
                    yield lib
'''))
ref("h-po-reqs-rec", (PO, '''            libs = libs.copy()
            reqs = set()
            while libs:
                lib = libs.pop()
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
            return reqs
''', '''            pending = set(libs)
            reqs: set[str] = set()
            while pending:
                lib = pending.pop()
                reqs.add(lib)
                deps = filter_libs(lddtree.libraries[lib].needed, whitelist)
                pending.update(dep for dep in deps if dep not in reqs)
            return reqs
'''))
ref("h-po-reqs-diff", (PO, '''                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
''', '''                libs |= set(filter_libs(lddtree.libraries[lib].needed, whitelist)) - reqs
'''))
ref("h-po-ext-realpath", (PO, '''            for lib in sorted(needed_external_libs):
                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
            ret[p.name] = ExternalReference(pol_ext_deps, blacklist, p)
''', '''            for lib in sorted(needed_external_libs):
                realpath = lddtree.libraries[lib].realpath
                if not is_subdir(realpath, wheel_path):
                    pol_ext_deps[lib] = realpath
                else:
                    logger.debug("RPATH FTW: %s", lib)
            ret[p.name] = ExternalReference(libs=pol_ext_deps, blacklist=blacklist, policy=p)
'''))
ref("h-po-byname-match", (PO, '''        if len(matches) == 0:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return matches[0]
''', '''        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        for match in matches:
            return match
        msg = f"no policy named {name!r} found"
        raise LookupError(msg)
'''))
ref("h-po-replace-prefix", (PO, '''    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
''', '''    skip = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    arch = "_".join(name.split("_")[skip:])
    return [f"linux_{arch}"]
'''))
ref("h-ld-find-helper", (LD, '''        path = os.path.join(ldpath, lib)
        target = Path(readlink(path, root, prefixed=True))

        if target.exists():
            with open(target, "rb") as f:
                libelf = ELFFile(f)
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
''', '''        path = os.path.join(ldpath, lib)
        target = Path(readlink(path, root, prefixed=True))
        if target.exists() and _compatible(platform, target):
            return target, path
'''), (LD, "def find_lib(", '''def _compatible(platform: Platform, target: Path) -> bool:
    with open(target, "rb") as f:
        return platform.is_compatible(_get_platform(ELFFile(f)))


def find_lib('''))
ref("h-ld-conf-strip", (LD, '''                line = input_line.split("#", 1)[0].strip()
                if not line:
                    continue
                if line.startswith("include "):
                    line = line[8:]
                    if line[0] == "/":
                        line = root + line.lstrip("/")
                    else:
                        line = os.path.dirname(ldso_conf) + "/" + line
                    log.debug("%s  glob: %s", dbg_pfx, line)
                    for path in sorted(glob.glob(line)):
                        paths += parse_ld_so_conf(path, root=root, _first=False)
                else:
                    paths += [normpath(root + line)]
''', '''                line = input_line.split("#", 1)[0].strip()
                if line.startswith("include "):
                    pattern = line[8:]
                    if pattern[0] == "/":
                        pattern = root + pattern.lstrip("/")
                    else:
                        pattern = f"{os.path.dirname(ldso_conf)}/{pattern}"
                    log.debug("%s  glob: %s", dbg_pfx, pattern)
                    for path in sorted(glob.glob(pattern)):
                        paths.extend(parse_ld_so_conf(path, root=root, _first=False))
                elif line:
                    paths.append(normpath(root + line))
'''))
ref("h-ld-load-env2", (LD, '''    ld_library_path = os.environ.get("LD_LIBRARY_PATH")
    if root != "/" and ld_library_path is not None:
        log.warning("ignoring LD_LIBRARY_PATH due to ROOT usage")
        ld_library_path = None

    # Load up $AUDITWHEEL_LD_LIBRARY_PATH and $LD_LIBRARY_PATH
    env_ldpath = ":".join(
        filter(None, (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)),
    )
''', '''    env_values = [os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH")]
    ld_library_path = os.environ.get("LD_LIBRARY_PATH")
    if root == "/":
        env_values.append(ld_library_path)
    elif ld_library_path is not None:
        log.warning("ignoring LD_LIBRARY_PATH due to ROOT usage")
    env_ldpath = ":".join(value for value in env_values if value)
'''))
ref("h-ld-load-musl2", (LD, '''            ldpaths["conf"] = []
            for ldpath in ld_musl[0].read_text().split(":"):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
''', '''            entries = (entry.strip() for entry in ld_musl[0].read_text().split(":"))
            ldpaths["conf"] = [root + entry for entry in entries if entry]
'''))
ref("h-ld-ldd-allpaths", (LD, '''    all_ldpaths = (
        ldpaths["rpath"]
        + rpaths
        + runpaths
        + ldpaths["env"]
        + ldpaths["runpath"]
        + ldpaths["conf"]
        + ldpaths["interp"]
    )
''', '''    all_ldpaths = [
        *ldpaths["rpath"],
        *rpaths,
        *runpaths,
        *(p for key in ("env", "runpath", "conf", "interp") for p in ldpaths[key]),
    ]
'''))
ref("h-ld-ldd-excluded", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
        if _is_excluded(soname, exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
'''), (LD, '''        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):
''', '''        if realpath is not None and _is_excluded(str(realpath), exclude):
'''), (LD, "def ldd(\n", '''def _is_excluded(name: str, patterns: frozenset[str]) -> bool:
    for pattern in patterns:
        if fnmatch(name, pattern):
            return True
    return False


def ldd(
'''))
ref("h-ld-ldd-musl-libc", (LD, '''            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
''', '''            if soname.startswith(("libc.musl-", "ld-musl-")):
                wanted = Libc.MUSL
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                wanted = Libc.GLIBC
            else:
                continue
            if libc is None:
                libc = wanted
            elif libc != wanted:
                msg = f"found a dependency on {wanted.name} but the libc is already set to {libc}"
                raise InvalidLibcError(msg)
'''))
ref("h-ld-plat-isa", (LD, '''                    data = prop.pr_data
                    data -= data & 1  # clear baseline
                    if data & 8 == 8:
                        ext_arch = Architecture.x86_64_v4
                        break
                    if data & 4 == 4:
                        ext_arch = Architecture.x86_64_v3
                        break
                    if data & 2 == 2:
                        ext_arch = Architecture.x86_64_v2
                        break
                    if data != 0:
                        error_msg = "unknown x86_64 ISA"
                break
''', '''                    data = prop.pr_data
                    data -= data & 1  # clear baseline
                    if data & 8:
                        ext_arch = Architecture.x86_64_v4
                        break
                    elif data & 4:
                        ext_arch = Architecture.x86_64_v3
                        break
                    elif data & 2:
                        ext_arch = Architecture.x86_64_v2
                        break
                    elif data:
                        error_msg = "unknown x86_64 ISA"
                break
'''))
ref("h-ld-platform-lookup", (LD, '''    base_arch = {
        ("EM_386", 32, True): Architecture.i686,
        ("EM_X86_64", 64, True): Architecture.x86_64,
        ("EM_PPC64", 64, True): Architecture.ppc64le,
        ("EM_PPC64", 64, False): Architecture.ppc64,
        ("EM_RISCV", 64, True): Architecture.riscv64,
        ("EM_AARCH64", 64, True): Architecture.aarch64,
        ("EM_S390", 64, False): Architecture.s390x,
        ("EM_ARM", 32, True): Architecture.armv7l,
        ("EM_LOONGARCH", 64, True): Architecture.loongarch64,
    }.get((elf_machine, elf_class, elf_little_endian))
''', '''    base_arch = _MACHINES.get((elf_machine, elf_class, elf_little_endian))
'''), (LD, "def _get_platform(", '''_MACHINES = {
    ("EM_386", 32, True): Architecture.i686,
    ("EM_X86_64", 64, True): Architecture.x86_64,
    ("EM_PPC64", 64, True): Architecture.ppc64le,
    ("EM_PPC64", 64, False): Architecture.ppc64,
    ("EM_RISCV", 64, True): Architecture.riscv64,
    ("EM_AARCH64", 64, True): Architecture.aarch64,
    ("EM_S390", 64, False): Architecture.s390x,
    ("EM_ARM", 32, True): Architecture.armv7l,
    ("EM_LOONGARCH", 64, True): Architecture.loongarch64,
}


def _get_platform('''))
ref("h-ld-readlink-pfx", (LD, '''    root = root.rstrip("/")
    if prefixed:
        path = path[len(root) :]

    while os.path.islink(root + path):
        path = os.path.join(os.path.dirname(path), os.readlink(root + path))

    return normpath((root + path) if prefixed else path)
''', '''    root = root.rstrip("/")
    if prefixed:
        path = path[len(root) :]

    while os.path.islink(root + path):
        target = os.readlink(root + path)
        parent = os.path.dirname(path)
        path = os.path.join(parent, target)

    if prefixed:
        path = root + path
    return normpath(path)
'''))
ref("h-wt-record-gen", (WT, '''    def files() -> Generator[Path]:
        for dir_, _, files in walk(bdist_dir):
            for file in files:
                yield dir_ / file
''', '''    all_files = (dir_ / file for dir_, _, files in walk(bdist_dir) for file in files)
'''), (WT, '''        for path in files():
''', '''        for path in all_files:
'''))
ref("h-wt-record-hashhelper", (WT, '''                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''                data = path.read_bytes()
                hash_ = _record_hash(data)
                size = str(len(data))
            writer.writerow((relative_path.as_posix(), hash_, size))
'''), (WT, "def rewrite_record(", '''def _record_hash(data: bytes) -> str:
    digest = urlsafe_b64encode(hashlib.sha256(data).digest())
    return "sha256=" + digest.rstrip(b"=").decode("ascii")


def rewrite_record('''))
ref("h-wt-exit-early", (WT, '''        try:
            if exc is None and self.out_wheel is not None:
                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
''', '''        try:
            if self.out_wheel is not None and exc is None:
                date_time = _source_date_epoch()
                rewrite_record(self.name)
'''), (WT, "class InWheel(", '''def _source_date_epoch() -> datetime | None:
    timestamp = os.environ.get("SOURCE_DATE_EPOCH")
    if not timestamp:
        return None
    return datetime.fromtimestamp(int(timestamp), tz=timezone.utc)


class InWheel('''))
ref("h-wt-exit-order2", (WT, '''                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
''', '''                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                date_time = (
                    datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
                )
                rewrite_record(self.name)
                try:
'''))
ref("h-wt-add-fname2", (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    prefix, _, _ = wheel_fname.rpartition("-")
    plat = ".".join(sorted(fname_tags))
    ext = Path(wheel_fname).suffix
    out_wheel = out_dir / f"{prefix}-{plat}{ext}"
'''))
ref("h-wt-add-tagset", (WT, '''    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
    # Add new platform tags for each Python version, C-API combination
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
''', '''    pyc_apis = unique_by_index(["-".join(tag.split("-")[:2]) for tag in in_info_tags])
    unwanted_tags = {f"{api}-{plat}" for api in pyc_apis for plat in to_remove}
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    for api, plat in product(pyc_apis, platforms):
        tag = f"{api}-{plat}"
        if tag not in in_info_tags:
            updated_tags.append(tag)
'''))
ref("h-wt-arch-helper", (WT, '''            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
''', '''            archs = [arch for arch in Architecture if platform.endswith(f"_{arch.value}")]
            result.update(arch.baseline for arch in archs)
            found = bool(archs)
            if not found:
'''))
ref("h-wt-arch-skipany", (WT, '''        found = False
        pure_ = platform == "any"
        pure = pure and pure_
        missed = missed or pure_
        if not pure_:
            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
                logger.warning(
                    "couldn't guess architecture for platform tag '%s'",
                    platform,
                )
                missed = True
''', '''        if platform == "any":
            missed = True
            continue
        pure = False
        found = False
        for arch in Architecture:
            if platform.endswith(f"_{arch.value}"):
                result.add(arch.baseline)
                found = True
        if not found:
            logger.warning("couldn't guess architecture for platform tag '%s'", platform)
            missed = True
'''))
ref("h-wt-libc-set", (WT, '''    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
    if len(result) == 0:
''', '''    platforms = get_wheel_platforms(filename)
    result = {
        libc for libc in Libc if any(platform.startswith(libc.tag_prefix) for platform in platforms)
    }
    if not result:
'''))
ref("h-to-unique", (TO, '''    uniques = []
''', '''    uniques: list[_T] = []
'''))
ref("h-to-walk-sortkey", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            dist_info = [d for d in dirnames if d.endswith(".dist-info")]
            dirnames[:] = [d for d in dirnames if not d.endswith(".dist-info")] + dist_info
'''))
ref("h-to-zip2dir-loop", (TO, '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            mode = _member_mode(member)
            if mode is not None:
                extracted_path.chmod(mode)
'''), (TO, "def zip2dir(", '''def _member_mode(member: zipfile.ZipInfo) -> int | None:
    if member.is_dir():
        return 0o755
    attr = member.external_attr >> 16
    if attr == 0:
        return None
    return (attr & 0o777) | 0o600


def zip2dir('''))
ref("h-to-dir2zip-zinfo", (TO, '''            if dname != in_dir:
                out_dname = f"{dname.relative_to(in_dir)}/"
                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
                fname = dname / file
                out_fname = fname.relative_to(in_dir)
                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
                zinfo.date_time = date_time_args
                zinfo.compress_type = compression
''', '''            relative_dir = dname.relative_to(in_dir)
            if dname != in_dir:
                zinfo = zipfile.ZipInfo.from_file(dname, f"{relative_dir}/")
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
                fname = dname / file
                zinfo = zipfile.ZipInfo.from_file(fname, relative_dir / file)
                zinfo.compress_type = compression
                zinfo.date_time = date_time_args
'''))
ref("h-to-dir2zip-clip", (TO, '''    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    earliest = (1980, 1, 1, 0, 0, 0)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < earliest:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = earliest
'''))
ref("h-pa-apply-helper", (PA, '''            if update_info.clear_rpath and update_info.rpath is None:
                args.append("--remove-rpath")
            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
''', '''            args.extend(self._rpath_args(update_info))
'''), (PA, '''    def get_rpath_direct(self, file_name: Path) -> str:
        output =''', '''    def _rpath_args(self, update_info: ElfUpdateInfo) -> list[str]:
        if update_info.rpath is None:
            return ["--remove-rpath"] if update_info.clear_rpath else []
        if self.platform.startswith("android"):
            # Android supports only RUNPATH, not RPATH.
            return ["--set-rpath", update_info.rpath]
        return ["--force-rpath", "--set-rpath", update_info.rpath]

    def get_rpath_direct(self, file_name: Path) -> str:
        output ='''))
ref("h-pa-apply-loops", (PA, '''            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
''', '''            for soname in update_info.remove_needed:
                args.extend(["--remove-needed", soname])
            for old, new in update_info.replace_needed:
                args.extend(["--replace-needed", old, new])
'''))
ref("h-pa-verify-inv", (PA, '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
    raise ValueError(msg)
''', '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    found = tuple(map(int, m.group(1).split("."))) if m else ()
    if found < (0, 14, 5):
        msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
        raise ValueError(msg)
    return Path(patchelf_path)
'''))
ref("h-pa-getrpath2", (PA, '''        key = file_name.resolve(strict=True)
        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
''', '''        key = file_name.resolve(strict=True)
        if key not in self._updates:
            return self.get_rpath_direct(file_name)
        update_info = self._updates[key]
        if update_info.rpath is not None:
            return update_info.rpath
        return "" if update_info.clear_rpath else self.get_rpath_direct(file_name)
'''))
ref("h-mr-requested-loop", (MR, '''    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    for a in Architecture:
        if plat_base.endswith(f"_{a.value}"):
            requested_architecture = a
            plat_base = plat_base.removesuffix(f"_{a.value}")
            break
'''))
ref("h-mr-check-fn", (MR, '''        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)
''', '''        if wheel_abi.ucs_policy < requested_policy:
            parser.error(
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )

        if wheel_abi.blacklist_policy < requested_policy:
            parser.error(
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
'''))
ref("h-mr-abis2", (MR, '''        abis = [requested_policy.name, *requested_policy.aliases]
        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:
''', '''        abis = _tags(requested_policy)
        overall_policy = wheel_abi.overall_policy
        upgrade = overall_policy > requested_policy and not args.ONLY_PLAT
        if upgrade:
'''), (MR, '''            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
''', '''            abis = _tags(overall_policy) + abis
'''), (MR, "def execute(", '''def _tags(policy: Policy) -> list[str]:
    return [policy.name, *policy.aliases]


def execute('''), (MR, "from auditwheel.policy import WheelPolicies", "from auditwheel.policy import Policy, WheelPolicies"))
ref("h-mr-pure-helper", (MR, '''            if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                dest_fname = wheel_dir / wheel_file.name
                if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
                    shutil.copy2(wheel_file, dest_fname)
                # process next wheel
                continue
            return 1
''', '''            if not (is_pure_python and args.ALLOW_PURE_PY_WHEEL):
                return 1
            _copy_pure(wheel_file, wheel_dir)
            continue
'''), (MR, "def execute(", '''def _copy_pure(wheel_file: Path, wheel_dir: Path) -> None:
    dest_fname = wheel_dir / wheel_file.name
    if dest_fname.is_file() and dest_fname.samefile(wheel_file):
        return
    shutil.copy2(wheel_file, dest_fname)


def execute('''))
ref("h-mr-epilog", (MR, '''    for p in policies:
        epilog += f"- {p.name}"
        if len(p.aliases) > 0:
            epilog += f" (aliased by {', '.join(p.aliases)})"
        epilog += "\\n"
''', '''    for p in policies:
        aliases = f" (aliased by {', '.join(p.aliases)})" if p.aliases else ""
        epilog += f"- {p.name}{aliases}\\n"
'''))
ref("h-mr-onewheel", (MR, '''        try:
            libc = get_wheel_libc(wheel_filename)
        except WheelToolsError:
            logger.debug("The libc could not be deduced from the wheel filename")
            libc = None

        for lc in Libc:
            if plat_base.startswith(lc.tag_prefix):
                if libc is None:
                    libc = lc
                if libc != lc:
                    msg = (
                        f"can't repair wheel {wheel_filename} with {libc.name} libc to a wheel "
                        f"targeting {lc.name}"
                    )
                    parser.error(msg)
''', '''        libc = None
        try:
            libc = get_wheel_libc(wheel_filename)
        except WheelToolsError:
            logger.debug("The libc could not be deduced from the wheel filename")

        for lc in Libc:
            if not plat_base.startswith(lc.tag_prefix):
                continue
            if libc is None:
                libc = lc
            elif libc != lc:
                parser.error(
                    f"can't repair wheel {wheel_filename} with {libc.name} libc to a wheel "
                    f"targeting {lc.name}"
                )
'''))
ref("h-ms-json-helper", (MS, '''            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
''', '''            entry = _upgrade_entry(winfo.external_refs[p.name])
            if entry:
                policy_upgrades[p.name] = entry
'''), (MS, "def _output_json(", '''def _upgrade_entry(ref: Any) -> dict[str, Any]:
    entry: dict[str, Any] = {}
    if ref.libs:
        entry["libs_to_eliminate"] = sorted(ref.libs)
    if ref.blacklist:
        entry["blacklisted_symbols"] = {k: sorted(ref.blacklist[k]) for k in sorted(ref.blacklist)}
    return entry


def _output_json('''))
ref("h-ms-nonplat", (MS, '''        if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
            if args.JSON:
                print(json.dumps({"version": 1, "wheel": fn, "pure": True}))
            return 0
        if args.JSON:
            print(json.dumps({"version": 1, "wheel": fn, "error": e.message}))
        return 1
''', '''        accepted = is_pure_python and args.ALLOW_PURE_PY_WHEEL
        if args.JSON:
            outcome = {"pure": True} if accepted else {"error": e.message}
            print(json.dumps({"version": 1, "wheel": fn, **outcome}))
        return 0 if accepted else 1
'''))
ref("h-ha-for", (HA, '''    hasher = hashlib.sha256()
    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return hasher.hexdigest()
''', '''    digest = hashlib.sha256()
    while True:
        chunk = afile.read(blocksize)
        if not chunk:
            return digest.hexdigest()
        digest.update(chunk)
'''))
ref("h-ar-detect-table", (AR, '''        if machine in {"x86_64", "i686"}:
            machine = {64: "x86_64", 32: "i686"}[bits]
        elif machine in {"aarch64", "armv8l"}:
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            machine = {64: "aarch64", 32: "armv7l"}[bits]

        return Architecture(machine)
''', '''        by_bits = None
        if machine in ("x86_64", "i686"):
            by_bits = {64: "x86_64", 32: "i686"}
        elif machine in ("aarch64", "armv8l"):
            by_bits = {64: "aarch64", 32: "armv7l"}
        if by_bits is not None:
            machine = by_bits[bits]

        return Architecture(machine)
'''))
ref("h-lc-glibc", (LC, '''    m = re.match(r"(?P<major>[0-9]+)\\.(?P<minor>[0-9]+)", version)
    if not m:
        msg = f"failed to parse glibc version from string {version!r}"
        raise InvalidLibcError(msg)

    return LibcVersion(int(m.group("major")), int(m.group("minor")))
''', '''    if m := re.match(r"(?P<major>[0-9]+)\\.(?P<minor>[0-9]+)", version):
        major, minor = m.group("major", "minor")
        return LibcVersion(int(major), int(minor))

    msg = f"failed to parse glibc version from string {version!r}"
    raise InvalidLibcError(msg)
'''))
ref("h-sb-loop", (SB, '''    for filepath, provided_by in sorted(sbom_packages.items()):
        bom_ref = (
            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
        )
''', '''    for filepath in sorted(sbom_packages):
        provided_by = sbom_packages[filepath]
        digest = hashlib.sha256(filepath.encode(errors="ignore")).hexdigest()
        bom_ref = f"{provided_by.purl}#{digest}"
'''))
ref("h-el-ext-order", (EL, '''    sect = _get_section_by_type(elf, SymbolTableSection)
    if sect is None:
        return False, None

    for sym in sect.iter_symbols():
        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]

    return False, None
''', '''    sect = _get_section_by_type(elf, SymbolTableSection)
    if sect is not None:
        for sym in sect.iter_symbols():
            version = module_init_f.get(sym.name)
            if version is None or sym["st_shndx"] == "SHN_UNDEF":
                continue
            if sym["st_info"]["type"] == "STT_FUNC":
                return True, version

    return False, None
'''))
ref("h-el-undefined-helper", (EL, '''            if (
                "PyUnicodeUCS2_" in sym.name
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] == "STT_FUNC"
            ):
                yield sym.name
''', '''            if "PyUnicodeUCS2_" in sym.name and _is_undefined(sym, "STT_FUNC"):
                yield sym.name
'''), (EL, '''            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
''', '''            if sym.name not in offending_symbol_names:
                continue
            if _is_undefined(sym, "STT_FUNC", "STT_NOTYPE"):
                return True
'''), (EL, "def elf_find_ucs2_symbols(", '''def _is_undefined(sym, *types: str) -> bool:
    return sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["type"] in types


def elf_find_ucs2_symbols('''))
ref("h-el-vers-tuple", (EL, '''            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''            name = verneed.name
            is_loader = name.startswith("ld-linux") or name in ("ld64.so.1", "ld64.so.2")
            if not is_loader:
                yield from ((name, vernaux.name) for vernaux in verneed_iter)
'''))


def make(id, dst):
    shutil.copytree("/repo/src", dst / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    for rel, old, new in R[id]:
        f = dst / "src/auditwheel" / rel
        t = f.read_text()
        if t.count(old) != 1:
            return f"{id}: {t.count(old)} occurrences in {rel}: {old[:80]!r}"
        f.write_text(t.replace(old, new))
    for rel, *_ in R[id]:
        try:
            compile((dst / "src/auditwheel" / rel).read_text(), rel, "exec")
        except SyntaxError as e:
            return f"{id}: {e}"



# ---------------------------------------------------------------- third hold-out batch
ref("k-wa-fixup-split", (WA, '''        need_resolution = any(
            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
        )
        if not need_resolution:
            continue
        reference = _get_reference(elf_executable.realpath)
        if reference is None:
            continue
        ref_name = reference.realpath.name
''', '''        if not _has_unresolved(elf_executable):
            continue
        if (reference := _get_reference(elf_executable.realpath)) is None:
            continue
        ref_name = reference.realpath.name
'''), (WA, '''def _fixup_elf_trees(
''', '''def _has_unresolved(tree: DynamicExecutable) -> bool:
    for lib in tree.libraries.values():
        if lib.realpath is None:
            return True
    return False


def _fixup_elf_trees(
'''))
ref("k-wa-fixup-inverted", (WA, '''            if elf_library.realpath is None and soname in reference.libraries:
                libraries_new[soname] = reference.libraries[soname]
''', '''            if elf_library.realpath is not None or soname not in reference.libraries:
                if elf_library.realpath is None:
                    log.warning("%s not found in %s ELF tree", soname, ref_name)
                libraries_new[soname] = elf_library
            else:
                libraries_new[soname] = reference.libraries[soname]
'''), (WA, '''            else:
                if elf_library.realpath is None:
                    log.warning("%s not found in %s ELF tree", soname, ref_name)
                libraries_new[soname] = elf_library
        nonpy_elftree[elf_path]''', '''        nonpy_elftree[elf_path]'''))
ref("k-wa-fixup-found", (WA, '''                        if soname_needed in reference.libraries:
                            libraries_new[soname_needed] = reference.libraries[soname_needed]
                            needed_new.update(libraries_new[soname_needed].needed)
                        else:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
''', '''                        if soname_needed not in reference.libraries:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                            continue
                        found = reference.libraries[soname_needed]
                        libraries_new[soname_needed] = found
                        needed_new |= set(found.needed)
'''))
ref("k-wa-elfdata-purelib", (WA, '''            # Check for invalid binary wheel format: no shared library should
            # be found in purelib
            so_name = fn.name

            # If this is in purelib, add it to the list of shared libraries in
            # purelib
            if any(p.name == "purelib" for p in fn.parents):
                shared_libraries_in_purelib.append(so_name)
''', '''            so_name = fn.name
            if _in_purelib(fn):
                shared_libraries_in_purelib.append(so_name)
'''), (WA, '''@functools.lru_cache
def get_wheel_elfdata(''', '''def _in_purelib(path: Path) -> bool:
    return "purelib" in [parent.name for parent in path.parents]


@functools.lru_cache
def get_wheel_elfdata('''))
ref("k-wa-elfdata-archmatch", (WA, '''                if architecture is None:
                    log.info("setting architecture to %s", elf_arch.value)
                    architecture = elf_arch
                elif elf_arch != architecture.baseline:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue
''', '''                if architecture is not None and elf_arch != architecture.baseline:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue
                if architecture is None:
                    log.info("setting architecture to %s", elf_arch.value)
                    architecture = elf_arch
'''))
ref("k-wa-elfdata-libc", (WA, '''                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
''', '''                tree_libc = elftree.libc
                if tree_libc is not None and libc is not None and tree_libc != libc:
                    log.warning("ignoring: %s with %s libc", so_name, tree_libc)
                    continue
                if tree_libc is not None and libc is None:
                    log.info("setting libc to %s", tree_libc)
                    libc = tree_libc
'''))
ref("k-wa-elfdata-raise", (WA, '''        # If at least one shared library exists in purelib, raise an error
        if shared_libraries_in_purelib:
            libraries = "\\n\\t".join(shared_libraries_in_purelib)
            msg = (
                "Invalid binary wheel, found the following shared library/libraries "
                f"in purelib folder:\\n\\t{libraries}\\n"
                "The wheel has to be platlib compliant in order to be repaired by "
                "auditwheel."
            )
            raise RuntimeError(msg)

        if not platform_wheel:
            arch = None if architecture is None else architecture.value
            raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
''', '''        _reject_purelib(shared_libraries_in_purelib)

        if not platform_wheel:
            arch = architecture.value if architecture is not None else None
            raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
'''), (WA, '''@functools.lru_cache
def get_wheel_elfdata(''', '''def _reject_purelib(names: list[str]) -> None:
    """Raise if shared libraries were found in purelib"""
    if not names:
        return
    listing = "\\n\\t".join(names)
    msg = (
        "Invalid binary wheel, found the following shared library/libraries "
        f"in purelib folder:\\n\\t{listing}\\n"
        "The wheel has to be platlib compliant in order to be repaired by "
        "auditwheel."
    )
    raise RuntimeError(msg)


@functools.lru_cache
def get_wheel_elfdata('''))
ref("k-wa-elfdata-pyext", (WA, '''                is_py_ext, py_ver = elf_is_python_extension(fn, elf)

                # If the ELF is a Python extention, we definitely need to
                # include its external dependencies.
                if is_py_ext:
                    if policies is None:
''', '''                is_py_ext, py_ver = elf_is_python_extension(fn, elf)

                if not is_py_ext:
                    # may be vendored already: looked at below
                    nonpy_elftree[fn] = elftree
                else:
                    if policies is None:
'''), (WA, '''                else:
                    # If the ELF is not a Python extension, it might be
                    # included in the wheel already because auditwheel repair
                    # vendored it, so we will check whether we should include
                    # its internal references later.
                    nonpy_elftree[fn] = elftree

''', '''
'''))
ref("k-wa-elfdata-needed", (WA, '''        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
''', '''        needed_libs: set[str] = set()
        for tree in (*full_elftree.values(), *nonpy_elftree.values()):
            needed_libs.update(tree.needed)
'''))
ref("k-wa-elfdata-nonpy", (WA, '''        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension ELF file is not needed by something else
            # inside the wheel, then it was not checked by the logic above and
            # we should walk its elftree.
            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

            # Even if a non-pyextension ELF file is not needed, we
            # should include it as an external reference, because
            # it might require additional external libraries.
            full_external_refs[fn] = policies.lddtree_external_references(
                elf_tree,
                ctx.path,
            )
''', '''        full_elftree.update(
            {fn: elf_tree for fn, elf_tree in nonpy_elftree.items() if fn.name not in needed_libs}
        )
        for fn, elf_tree in nonpy_elftree.items():
            full_external_refs[fn] = policies.lddtree_external_references(elf_tree, ctx.path)
'''))
ref("k-wa-extlibs-flat", (WA, '''        # linux tag (priority 0) has no white-list, do not analyze it
        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
''', '''        if external_ref.policy.priority != 0:
            for libname, realpath in external_ref.libs.items():
                if not realpath or realpath in result:
                    continue
                result[Path(realpath)] = libname
'''))
ref("k-wa-versym-comp", (WA, '''        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols[key].add(value)
        result[libs[path]] = elf_versioned_symbols
''', '''        elf_versioned_symbols: dict[str, set[str]] = {}
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols.setdefault(key, set()).add(value)
        soname = libs[path]
        result[soname] = elf_versioned_symbols
'''))
ref("k-wa-machine-collect", (WA, '''        for dependency in dynamic_executable.libraries.values():
            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert dependency.platform is not None  # noqa: S101
            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
                dependency.soname,
                dependency.platform.extended_architecture,
            )
''', '''        for dependency in dynamic_executable.libraries.values():
            realpath = dependency.realpath
            if dependency.soname in external_so_names and realpath is not None:
                assert dependency.platform is not None  # noqa: S101
                if realpath not in machine_to_check:
                    machine_to_check[realpath] = (
                        dependency.soname,
                        dependency.platform.extended_architecture,
                    )
'''))
ref("k-wa-machine-helper", (WA, '''        if soname is not None:
            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies.linux.priority < found_policy.priority:
''', '''        if soname is not None:
            found_policy = _best_whitelisting_policy(policies, soname)
            if found_policy.priority > policies.linux.priority:
'''), (WA, '''def _get_machine_policy(
''', '''def _best_whitelisting_policy(policies: WheelPolicies, soname: str) -> Policy:
    best = policies.linux
    for candidate in policies:
        if soname in candidate.whitelist and candidate > best:
            best = candidate
    return best


def _get_machine_policy(
'''))
ref("k-wa-machine-nested", (WA, '''        if extended_architecture is None:
            continue
        if policies.architecture.is_superset(extended_architecture):
            continue
        if soname is not None:
''', '''        covered = extended_architecture is None or policies.architecture.is_superset(
            extended_architecture
        )
        if covered:
            continue
        if soname is not None:
'''))
ref("k-wa-analyze-refs", (WA, '''    external_refs: dict[str, ExternalReference] = {
        p.name: ExternalReference({}, {}, p) for p in policies
    }

    for fn in elftree_by_fn:
        update(external_refs, external_refs_by_fn[fn])
''', '''    external_refs: dict[str, ExternalReference] = {}
    for p in policies:
        external_refs[p.name] = ExternalReference(libs={}, blacklist={}, policy=p)

    for fn in elftree_by_fn.keys():
        refs_of_file = external_refs_by_fn[fn]
        update(external_refs, refs_of_file)
'''))
ref("k-wa-analyze-graft", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    if requested_policy_base_name in (None, "auto"):
        considered = [e for e in external_refs.values() if e.policy != policies.linux]
    else:
        prefix = requested_policy_base_name + "_"
        considered = [e for e in external_refs.values() if e.policy.name.startswith(prefix)]
    graft_lib_count = min((len(e.libs) for e in considered), default=0)
'''))
ref("k-wa-analyze-best", (WA, '''    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
''', '''    def best(condition):
        return max((e.policy for e in external_refs.values() if condition(e)), default=policies.linux)

    ref_policy = best(lambda e: not e.libs)
    blacklist_policy = best(lambda e: not e.blacklist)
'''))
ref("k-wa-analyze-overall", (WA, '''    overall_policy = min(
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
''', '''    limits = [symbol_policy, ucs_policy, pyfpe_policy, blacklist_policy, machine_policy]
    if requested_policy_base_name is not None:
        limits.append(graft_policy)
    if not allow_graft:
        limits.append(ref_policy)
    overall_policy = min(limits)
'''))
ref("k-wa-analyze-machine", (WA, '''    if disable_isa_ext_check:
        machine_policy = policies.highest
    else:
        machine_policy = _get_machine_policy(
            policies,
            elftree_by_fn,
            frozenset(external_libs.values()),
        )

    ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
    pyfpe_policy = policies.linux if data.uses_pyfpe_jbuf else policies.highest
''', '''    machine_policy = policies.highest
    if not disable_isa_ext_check:
        external_sonames = frozenset(external_libs.values())
        machine_policy = _get_machine_policy(policies, elftree_by_fn, external_sonames)

    pyfpe_policy = policies.highest
    if data.uses_pyfpe_jbuf:
        pyfpe_policy = policies.linux
    ucs_policy = policies.highest
    if data.uses_ucs2_symbols:
        ucs_policy = policies.linux
'''))
ref("k-rp-graft-helper", (RP, '''            if replacements:
                patcher.replace_needed(fn, *replacements)

            if len(ext_libs) > 0:
                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)
                append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
''', '''            if replacements:
                patcher.replace_needed(fn, *replacements)

            if not ext_libs:
                continue
            new_fn = fn
            if _path_is_script(fn):
                new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                patcher.update_elf_path(fn, new_fn)
                script_shims[fn] = new_fn
            relative = os.path.relpath(dest_dir, start=new_fn.parent)
            new_rpath = Path("$ORIGIN", relative)
            append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
'''))
ref("k-rp-internal-loop", (RP, '''        for _, path in soname_map.values():
            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''        new_names = {old: new for old, (new, _) in soname_map.items()}
        for _, path in soname_map.values():
            replacements = [
                (n, new_names[n]) for n in elf_read_dt_needed(path) if n in new_names
            ]
            if not replacements:
                patcher.clear_rpath(path)
                continue
            patcher.set_rpath(path, "$ORIGIN")
            patcher.replace_needed(path, *replacements)
'''))
ref("k-rp-strip", (RP, '''            libs_to_strip = [path for (_, path) in soname_map.values()]
            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(libs_to_strip, extensions))
''', '''            to_strip: list[Path] = []
            for _, grafted in soname_map.values():
                to_strip.append(grafted)
            for original in external_refs_by_fn:
                to_strip.append(script_shims[original] if original in script_shims else original)
            strip_symbols(to_strip)
'''))
ref("k-rp-sbom", (RP, '''        sbom_data = create_sbom_for_wheel(
            wheel_fname=output_wheel.name,
            sbom_filepaths=sbom_filepaths,
        )
        if sbom_data:
            sbom_dir = Path(dist_info_dirs[0], "sboms")
            sbom_dir.mkdir(exist_ok=True)
            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
''', '''        _write_sbom(dist_info_dirs[0], output_wheel.name, sbom_filepaths)
'''), (RP, '''def strip_symbols(''', '''def _write_sbom(dist_info: Path, wheel_fname: str, sbom_filepaths: list[Path]) -> None:
    data = create_sbom_for_wheel(wheel_fname=wheel_fname, sbom_filepaths=sbom_filepaths)
    if not data:
        return
    folder = dist_info / "sboms"
    folder.mkdir(exist_ok=True)
    target = folder / "auditwheel.cdx.json"
    target.write_text(json.dumps(data))


def strip_symbols('''))
ref("k-rp-copylib-name", (RP, '''    src_name = src_path.name
    base, ext = src_name.split(".", 1)
    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name

    dest_path = dest_dir / new_soname
    if dest_path.exists():
        return new_soname, dest_path
''', '''    new_soname = _hashed_name(src_path.name, shorthash)
    dest_path = dest_dir.joinpath(new_soname)
    if dest_path.exists():
        return new_soname, dest_path
'''), (RP, '''def copylib(''', '''def _hashed_name(name: str, shorthash: str) -> str:
    base, ext = name.split(".", maxsplit=1)
    suffix = f"-{shorthash}"
    if base.endswith(suffix):
        return name
    return base + suffix + "." + ext


def copylib('''))
ref("k-rp-copylib-mode", (RP, '''    shutil.copy2(src_path, dest_path)
    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)
''', '''    shutil.copy2(src_path, dest_path)
    mode = dest_path.stat().st_mode
    if mode & stat.S_IWRITE == 0:
        dest_path.chmod(mode | stat.S_IWRITE)
'''))
ref("k-rp-rpath-comp", (RP, '''    def is_valid_rpath(rpath: str) -> bool:
        return _is_valid_rpath(rpath, lib_dir, wheel_base_dir)

    old_rpaths = patcher.get_rpath(lib_name)
    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
    patcher.set_rpath(lib_name, ":".join(rpaths))
''', '''    kept = [
        entry
        for entry in patcher.get_rpath(lib_name).split(":")
        if _is_valid_rpath(entry, lib_dir, wheel_base_dir)
    ]
    kept.append(rpath)
    patcher.set_rpath(lib_name, ":".join(unique_by_index(kept)))
'''))
ref("k-rp-rpath-base", (RP, '''    if not lib_name.is_absolute():
        lib_name = lib_name.absolute()
    lib_dir = lib_name.parent
    if not wheel_base_dir.is_absolute():
        wheel_base_dir = wheel_base_dir.absolute()
''', '''    lib_name = lib_name if lib_name.is_absolute() else lib_name.absolute()
    wheel_base_dir = wheel_base_dir if wheel_base_dir.is_absolute() else wheel_base_dir.absolute()
    lib_dir = lib_name.parent
'''))
ref("k-rp-validrpath", (RP, '''    if not Path(full_rpath_entry).is_absolute():
        logger.debug(
            "rpath entry %s could not be resolved to an absolute path -- discarding it.",
            rpath,
        )
        return False
    if not is_subdir(full_rpath_entry, wheel_base_dir):
        logger.debug("rpath entry %s points outside the wheel -- discarding it.", rpath)
        return False
    logger.debug("Preserved rpath entry %s", rpath)
    return True
''', '''    if not Path(full_rpath_entry).is_absolute():
        reason = "could not be resolved to an absolute path"
    elif not is_subdir(full_rpath_entry, wheel_base_dir):
        reason = "points outside the wheel"
    else:
        logger.debug("Preserved rpath entry %s", rpath)
        return True
    logger.debug("rpath entry %s %s -- discarding it.", rpath, reason)
    return False
'''))
ref("k-rp-tokens", (RP, '''    for token, target in token_replacements.items():
        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
    return rpath
''', '''    result = rpath
    for token in token_replacements:
        target = token_replacements[token]
        for spelling in ("$" + token, "${" + token + "}"):
            result = result.replace(spelling, target)
    return result
'''))
ref("k-rp-isscript", (RP, '''    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
''', '''    components = path.parts
    if len(components) != 3:
        return False
    top, middle, _ = components
    return middle == "scripts" and top.endswith(".data")
'''))
ref("k-rp-shim", (RP, '''    scripts_dir = Path(f"{package_name}.scripts")
    scripts_dir.mkdir(exist_ok=True)

    new_path = scripts_dir / orig_path.name
    orig_path.rename(new_path)

    with orig_path.open("w", newline="\\n") as f:
        f.write(_script_shim(new_path))
    orig_path.chmod(new_path.stat().st_mode)

    return new_path
''', '''    target_dir = Path(package_name + ".scripts")
    target_dir.mkdir(exist_ok=True)
    new_path = target_dir / orig_path.name
    orig_path.rename(new_path)
    shim = _script_shim(new_path)
    with open(orig_path, "w", newline="\\n") as f:
        f.write(shim)
    mode = new_path.stat().st_mode
    orig_path.chmod(mode)
    return new_path
'''))

ref("k-wt-distinfo", (WT, '''    info_dirs = list(bdist_dir.glob("*.dist-info"))
    if len(info_dirs) != 1:
        msg = "Should be exactly one `*.dist_info` directory"
        raise WheelToolsError(msg)
    return info_dirs[0]
''', '''    found = [*bdist_dir.glob("*.dist-info")]
    if len(found) == 1:
        return found[0]
    msg = "Should be exactly one `*.dist_info` directory"
    raise WheelToolsError(msg)
'''))
ref("k-wt-record-row", (WT, '''            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''            relative_path = path.relative_to(bdist_dir)
            hash_, size = ("", "") if skip(relative_path) else _hash_and_size(path)
            writer.writerow([relative_path.as_posix(), hash_, size])
'''), (WT, '''def rewrite_record(''', '''def _hash_and_size(path: Path) -> tuple[str, str]:
    content = path.read_bytes()
    encoded = urlsafe_b64encode(hashlib.sha256(content).digest())
    return "sha256=" + encoded.rstrip(b"=").decode("ascii"), str(len(content))


def rewrite_record('''))
ref("k-wt-record-files", (WT, '''    def files() -> Generator[Path]:
        for dir_, _, files in walk(bdist_dir):
            for file in files:
                yield dir_ / file

''', '''    def files() -> Generator[Path]:
        for dir_, _, names in walk(bdist_dir):
            yield from (dir_ / name for name in names)

'''), (WT, '''    sig_path = info_dir / "RECORD.jws"
    if sig_path.exists():
        sig_path.unlink()
''', '''    signature = info_dir.joinpath("RECORD.jws")
    if signature.exists():
        signature.unlink()
'''))
ref("k-wt-exit", (WT, '''            if exc is None and self.out_wheel is not None:
                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
                except BaseException:
                    # don't leave a truncated wheel behind
                    self.out_wheel.unlink(missing_ok=True)
                    raise
        finally:
            super().__exit__(exc, value, tb)
''', '''            if exc is None and self.out_wheel is not None:
                self._pack(self.out_wheel)
        finally:
            super().__exit__(exc, value, tb)

    def _pack(self, out_wheel: Path) -> None:
        rewrite_record(self.name)
        timestamp = os.environ.get("SOURCE_DATE_EPOCH")
        date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
        try:
            dir2zip(self.name, out_wheel, self.zip_compression_level, date_time)
        except BaseException:
            # don't leave a truncated wheel behind
            out_wheel.unlink(missing_ok=True)
            raise
'''))
ref("k-wt-iterfiles", (WT, '''        record_name = _dist_info_dir(self.path) / "RECORD"
        record = record_name.read_text()
        reader = csv.reader(r for r in record.splitlines())
        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        record = (_dist_info_dir(self.path) / "RECORD").read_text()
        for filename, *_ in csv.reader(record.splitlines()):
            yield Path(filename)
'''))
ref("k-wt-add-any", (WT, '''    # Can't be 'any' and another platform
    if "any" in fname_tags and len(fname_tags) > 1:
        fname_tags.remove("any")
        to_remove.append("any")
        definitely_not_purelib = True
''', '''    # Can't be 'any' and another platform
    definitely_not_purelib = len(fname_tags) > 1 and "any" in fname_tags
    if definitely_not_purelib:
        to_remove.append("any")
        fname_tags.remove("any")
'''), (WT, '''    definitely_not_purelib = False

''', ''))
ref("k-wt-add-name", (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    out_wheel = out_dir / _name_with_platforms(wheel_fname, fname_tags)
'''), (WT, '''def add_platforms(''', '''def _name_with_platforms(wheel_fname: str, tags: list[str]) -> str:
    prefix = wheel_fname.rsplit("-", 1)[0]
    plat = ".".join(sorted(tags))
    return f"{prefix}-{plat}{Path(wheel_fname).suffix}"


def add_platforms('''))
ref("k-wt-add-info", (WT, '''    # Python version, C-API version combinations
    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
    # Add new platform tags for each Python version, C-API combination
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
''', '''    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(["-".join(tag.split("-")[:2]) for tag in in_info_tags])

    def with_platforms(plats: list[str]) -> list[str]:
        return ["-".join(tup) for tup in product(pyc_apis, plats)]

    unwanted_tags = with_platforms(to_remove)
    kept = [tag for tag in in_info_tags if tag not in unwanted_tags]
    added = [tag for tag in with_platforms(platforms) if tag not in in_info_tags]
    updated_tags = kept + added
'''))
ref("k-wt-add-product", (WT, '''    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
''', '''    wanted_tags = [f"{api}-{platform}" for api in pyc_apis for platform in platforms]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = [f"{api}-{platform}" for api in pyc_apis for platform in to_remove]
'''))
ref("k-wt-arch-loop", (WT, '''    for platform in get_wheel_platforms(filename):
        found = False
        pure_ = platform == "any"
        pure = pure and pure_
        missed = missed or pure_
        if not pure_:
            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
                logger.warning(
                    "couldn't guess architecture for platform tag '%s'",
                    platform,
                )
                missed = True
''', '''    for platform in get_wheel_platforms(filename):
        if platform == "any":
            missed = True
            continue
        pure = False
        matching = [arch.baseline for arch in Architecture if platform.endswith(f"_{arch.value}")]
        result.update(matching)
        if not matching:
            logger.warning("couldn't guess architecture for platform tag '%s'", platform)
            missed = True
'''))
ref("k-wt-arch-errors", (WT, '''    if len(result) == 0:
        if pure:
            raise NonPlatformWheelError(None, None)
        msg = "unknown architecture"
        raise WheelToolsError(msg)
    if missed or len(result) > 1:
        if len(result) == 1:
            msg = "wheels with multiple architectures are not supported"
        else:
            msg = f"wheels with multiple architectures are not supported, got {result}"
        raise WheelToolsError(msg)
    return result.pop()
''', '''    count = len(result)
    if count == 1 and not missed:
        return result.pop()
    if count == 0 and pure:
        raise NonPlatformWheelError(None, None)
    if count == 0:
        msg = "unknown architecture"
    elif count == 1:
        msg = "wheels with multiple architectures are not supported"
    else:
        msg = f"wheels with multiple architectures are not supported, got {result}"
    raise WheelToolsError(msg)
'''))
ref("k-wt-libc-comp", (WT, '''    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
    if len(result) == 0:
''', '''    result = {
        libc
        for platform in get_wheel_platforms(filename)
        for libc in Libc
        if platform.startswith(libc.tag_prefix)
    }
    if not result:
'''))
ref("k-po-init-name", (PO, '''                name = f"{policy['name']}_{base_arch}"
                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
                aliases = tuple(f"{alias}_{base_arch}" for alias in policy["aliases"])
''', '''                suffix = "_" + base_arch
                name = policy["name"] + suffix
                symbol_versions = {}
                if policy["name"] != "linux":
                    for k, v in policy["symbol_versions"][base_arch].items():
                        symbol_versions[k] = frozenset(v)
                aliases = tuple([alias + suffix for alias in policy["aliases"]])
'''))
ref("k-po-init-skip", (PO, '''            if self._musl_policy is not None and policy["name"] not in {
                "linux",
                self._musl_policy,
            }:
                continue
            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = ''', '''            is_linux = policy["name"] == "linux"
            if self._musl_policy is not None and not is_linux and policy["name"] != self._musl_policy:
                continue
            if is_linux or arch.value in policy["symbol_versions"]:
                name = '''))
ref("k-po-init-musl", (PO, '''        if libc != Libc.MUSL and musl_policy is not None:
            msg = f"'musl_policy' shall be None for libc {libc.name}"
            raise ValueError(msg)
        if libc == Libc.MUSL:
            if musl_policy is None:
''', '''        if libc != Libc.MUSL:
            if musl_policy is not None:
                msg = f"'musl_policy' shall be None for libc {libc.name}"
                raise ValueError(msg)
        else:
            if musl_policy is None:
'''))
ref("k-po-byname-loop", (PO, '''        matches = [p for p in self._policies if p.name == name or name in p.aliases]
        if len(matches) == 0:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return matches[0]
''', '''        matches = []
        for policy in self._policies:
            if name == policy.name or name in policy.aliases:
                matches.append(policy)
        if not matches:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        first, *others = matches
        if others:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return first
'''))
ref("k-po-sat-early", (PO, '''            policy_satisfied = True
            for name in set(required_vers) & set(policy_sym_vers):
                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
            return policy_satisfied
''', '''            policy_satisfied = True
            for name in required_vers.keys() & policy_sym_vers.keys():
                missing = required_vers[name] - policy_sym_vers[name]
                for symbol in missing:
                    logger.debug(
                        "Package requires %s, incompatible with policy %s which requires %s",
                        symbol,
                        policy_name,
                        policy_sym_vers[name],
                    )
                if missing:
                    policy_satisfied = False
            return policy_satisfied
'''))
ref("k-po-vers-rev", (PO, '''        for p in self._policies[::-1]:
            policy_sym_vers = {
                sym_name: {sym_name + "_" + version for version in versions}
                for sym_name, versions in p.symbol_versions.items()
            }
            if policy_is_satisfied(p.name, policy_sym_vers):
                return p
''', '''        for p in reversed(self._policies):
            policy_sym_vers: dict[str, set[str]] = {}
            for sym_name, versions in p.symbol_versions.items():
                policy_sym_vers[sym_name] = {f"{sym_name}_{version}" for version in versions}
            if not policy_is_satisfied(p.name, policy_sym_vers):
                continue
            return p
'''))
ref("k-po-vers-req", (PO, '''        for symbols in versioned_symbols.values():
            for symbol in symbols:
                sym_name, _, _ = symbol.partition("_")
                required_vers.setdefault(sym_name, set()).add(symbol)
''', '''        for symbol in (s for symbols in versioned_symbols.values() for s in symbols):
            sym_name = symbol.partition("_")[0]
            if sym_name not in required_vers:
                required_vers[sym_name] = set()
            required_vers[sym_name].add(symbol)
'''))
ref("k-po-filter", (PO, '''            for lib in libs:
                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
                    # always exclude ELF dynamic linker/loader
                    # 'ld64.so.2' on s390x
                    # 'ld64.so.1' on ppc64le
                    # 'ld-linux*' on other platforms
                    continue
                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
''', '''            for lib in libs:
                is_loader = "ld-linux" in lib or lib in ("ld64.so.1", "ld64.so.2")
                is_android_python = self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib)
                if not (is_loader or is_android_python or lib in whitelist):
                    yield lib
'''))
ref("k-po-reqs", (PO, '''            libs = libs.copy()
            reqs = set()
            while libs:
                lib = libs.pop()
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
            return reqs
''', '''            pending = set(libs)
            reqs: set[str] = set()
            while pending:
                lib = pending.pop()
                reqs.add(lib)
                deps = set(filter_libs(lddtree.libraries[lib].needed, whitelist))
                pending |= deps - reqs
            return reqs
'''))
ref("k-po-refs-inv", (PO, '''                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
''', '''                location = lddtree.libraries[lib].realpath
                if not is_subdir(location, wheel_path):
                    pol_ext_deps[lib] = location
                else:
                    logger.debug("RPATH FTW: %s", lib)
'''))
ref("k-po-refs-black", (PO, '''                blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)
                blacklist_reduced = {k: p.blacklist[k] for k in blacklist_libs}
                blacklist = filter_undefined_symbols(
                    lddtree.realpath,
                    blacklist_reduced,
                )
''', '''                needed_directly = set(lddtree.needed)
                blacklist = filter_undefined_symbols(
                    lddtree.realpath,
                    {lib: names for lib, names in p.blacklist.items() if lib in needed_directly},
                )
'''))
ref("k-po-valid-helper", (PO, '''        if policy["name"] == "linux":
            continue
        if not lib_whitelist.issubset(set(policy["lib_whitelist"])):
            diff = lib_whitelist - set(policy["lib_whitelist"])
            msg = (
''', '''        if policy["name"] == "linux":
            continue
        current = set(policy["lib_whitelist"])
        diff = lib_whitelist - current
        if diff:
            msg = (
'''), (PO, '''        lib_whitelist.update(policy["lib_whitelist"])
''', '''        lib_whitelist |= current
'''))
ref("k-po-musl-comp", (PO, '''    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
''', '''    return frozenset(
        soname_map[soname][arch.baseline] if soname in soname_map else soname
        for soname in whitelist
    )
'''))
ref("k-po-replplat", (PO, '''    if name.startswith("linux"):
        return []
    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
''', '''    if name.startswith("linux"):
        return []
    skip = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    arch = "_".join(name.split("_")[skip:])
    return [f"linux_{arch}"]
'''))

ref("k-ld-compat", (LD, '''        os_abis = frozenset((self._elf_osabi, other._elf_osabi))
        compat_sets = (frozenset(f"ELFOSABI_{x}" for x in ("NONE", "SYSV", "GNU", "LINUX")),)
        return (
            (len(os_abis) == 1 or any(os_abis.issubset(x) for x in compat_sets))
            and self._elf_class == other._elf_class
            and self._elf_little_endian == other._elf_little_endian
            and self._elf_machine == other._elf_machine
        )
''', '''        if self._elf_machine != other._elf_machine or self._elf_class != other._elf_class:
            return False
        if self._elf_little_endian != other._elf_little_endian:
            return False
        if self._elf_osabi == other._elf_osabi:
            return True
        interchangeable = {"ELFOSABI_NONE", "ELFOSABI_SYSV", "ELFOSABI_GNU", "ELFOSABI_LINUX"}
        return self._elf_osabi in interchangeable and other._elf_osabi in interchangeable
'''))
ref("k-ld-plat-arm", (LD, '''        if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
            error_msg = "Invalid ARM EABI version for armv7l"
        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:
            error_msg = "armv7l shall use hard-float"
        if error_msg is not None:
            base_arch = None
''', '''        error_msg = _armv7l_error(flags)
        base_arch = base_arch if error_msg is None else None
'''), (LD, '''def _get_platform(elf: ELFFile)''', '''def _armv7l_error(flags: int) -> str | None:
    if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
        return "Invalid ARM EABI version for armv7l"
    if (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:
        return "armv7l shall use hard-float"
    return None


def _get_platform(elf: ELFFile)'''))
ref("k-ld-plat-note", (LD, '''                if note["n_type"] != "NT_GNU_PROPERTY_TYPE_0":
                    continue
                if note["n_name"] != "GNU":
                    continue
''', '''                if note["n_type"] != "NT_GNU_PROPERTY_TYPE_0" or note["n_name"] != "GNU":
                    continue
'''), (LD, '''                    if prop.pr_type != "GNU_PROPERTY_X86_ISA_1_NEEDED":
                        continue
                    if prop.pr_datasz != 4:
                        continue
''', '''                    relevant = prop.pr_type == "GNU_PROPERTY_X86_ISA_1_NEEDED" and prop.pr_datasz == 4
                    if not relevant:
                        continue
'''))
ref("k-ld-plat-table", (LD, '''    elf_machine = elf["e_machine"]
    base_arch = {
        ("EM_386", 32, True): Architecture.i686,
        ("EM_X86_64", 64, True): Architecture.x86_64,
        ("EM_PPC64", 64, True): Architecture.ppc64le,
        ("EM_PPC64", 64, False): Architecture.ppc64,
        ("EM_RISCV", 64, True): Architecture.riscv64,
        ("EM_AARCH64", 64, True): Architecture.aarch64,
        ("EM_S390", 64, False): Architecture.s390x,
        ("EM_ARM", 32, True): Architecture.armv7l,
        ("EM_LOONGARCH", 64, True): Architecture.loongarch64,
    }.get((elf_machine, elf_class, elf_little_endian))
''', '''    elf_machine = elf["e_machine"]
    base_arch = _BASELINES.get((elf_machine, elf_class, elf_little_endian))
'''), (LD, '''def _get_platform(elf: ELFFile)''', '''_BASELINES = {
    ("EM_386", 32, True): Architecture.i686,
    ("EM_AARCH64", 64, True): Architecture.aarch64,
    ("EM_ARM", 32, True): Architecture.armv7l,
    ("EM_LOONGARCH", 64, True): Architecture.loongarch64,
    ("EM_PPC64", 64, False): Architecture.ppc64,
    ("EM_PPC64", 64, True): Architecture.ppc64le,
    ("EM_RISCV", 64, True): Architecture.riscv64,
    ("EM_S390", 64, False): Architecture.s390x,
    ("EM_X86_64", 64, True): Architecture.x86_64,
}


def _get_platform(elf: ELFFile)'''))
ref("k-ld-paths", (LD, '''    ldpaths: list[str] = []
    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
''', '''    def expand(entry: str) -> str:
        if not entry:
            # The ldso treats "" paths as $PWD.
            return os.getcwd()
        if not ORIGIN_RE.search(entry):
            return root + entry
        if not path:
            msg = "can't expand $ORIGIN without a path"
            raise ValueError(msg)
        origin = os.path.dirname(os.path.abspath(path))
        return ORIGIN_RE.sub(origin, entry)

    ldpaths = [normpath(expand(entry)) for entry in str_ldpaths.split(":")]
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
'''))
ref("k-ld-conf", (LD, '''                if line.startswith("include "):
                    line = line[8:]
                    if line[0] == "/":
                        line = root + line.lstrip("/")
                    else:
                        line = os.path.dirname(ldso_conf) + "/" + line
                    log.debug("%s  glob: %s", dbg_pfx, line)
                    for path in sorted(glob.glob(line)):
                        paths += parse_ld_so_conf(path, root=root, _first=False)
                else:
                    paths += [normpath(root + line)]
''', '''                if not line.startswith("include "):
                    paths.append(normpath(root + line))
                    continue
                pattern = line[len("include ") :]
                if pattern[0] == "/":
                    pattern = root + pattern.lstrip("/")
                else:
                    pattern = f"{os.path.dirname(ldso_conf)}/{pattern}"
                log.debug("%s  glob: %s", dbg_pfx, pattern)
                for path in sorted(glob.glob(pattern)):
                    paths.extend(parse_ld_so_conf(path, root=root, _first=False))
'''))
ref("k-ld-loadenv", (LD, '''    ld_library_path = os.environ.get("LD_LIBRARY_PATH")
    if root != "/" and ld_library_path is not None:
        log.warning("ignoring LD_LIBRARY_PATH due to ROOT usage")
        ld_library_path = None

    # Load up $AUDITWHEEL_LD_LIBRARY_PATH and $LD_LIBRARY_PATH
    env_ldpath = ":".join(
        filter(None, (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)),
    )
''', '''    candidates = [os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH")]
    ld_library_path = os.environ.get("LD_LIBRARY_PATH")
    if root == "/":
        candidates.append(ld_library_path)
    elif ld_library_path is not None:
        log.warning("ignoring LD_LIBRARY_PATH due to ROOT usage")
    env_ldpath = ":".join(value for value in candidates if value)
'''))
ref("k-ld-musl-conf", (LD, '''        if len(ld_musl) == 0:
            ldpaths["conf"] = [
                root + "/lib",
                root + "/usr/local/lib",
                root + "/usr/lib",
            ]
        else:
            ldpaths["conf"] = []
            for ldpath in ld_musl[0].read_text().split(":"):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
''', '''        if ld_musl:
            stripped = (entry.strip() for entry in ld_musl[0].read_text().split(":"))
            ldpaths["conf"] = [root + entry for entry in stripped if entry]
        else:
            ldpaths["conf"] = [root + d for d in ("/lib", "/usr/local/lib", "/usr/lib")]
'''))
ref("k-ld-conf-list", (LD, '''        ldpaths["conf"] = list(parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root))
        # the trusted directories are not necessarily in ld.so.conf
        ldpaths["conf"].extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])
''', '''        configured = parse_ld_so_conf(f"{root}{prefix}/etc/ld.so.conf", root=root)
        # the trusted directories are not necessarily in ld.so.conf
        trusted = ["/lib", "/lib64/", "/usr/lib", "/usr/lib64"]
        ldpaths["conf"] = [*configured, *trusted]
'''))
ref("k-ld-fromarg", (LD, '''    if args_ldpaths is None:
        # The option was not provided, so fall back on load_ld_paths.
        return None

    return {
        "conf": parse_ld_paths(args_ldpaths),
        "env": parse_ld_paths(os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", "")),
        "interp": [],
    }
''', '''    result: dict[str, list[str]] | None = None
    if args_ldpaths is not None:
        env = os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH", "")
        result = dict(conf=parse_ld_paths(args_ldpaths), env=parse_ld_paths(env), interp=[])
    return result
'''))
ref("k-ld-find", (LD, '''        if target.exists():
            with open(target, "rb") as f:
                libelf = ELFFile(f)
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path

    return None, None
''', '''        if not target.exists():
            continue
        with target.open("rb") as f:
            found_platform = _get_platform(ELFFile(f))
        if platform.is_compatible(found_platform):
            return target, path

    return None, None
'''))
ref("k-ld-ldd-needed", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
        if _is_excluded(soname, exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
'''), (LD, '''def ldd(
    path: Path,''', '''def _is_excluded(soname: str, patterns: frozenset[str]) -> bool:
    for pattern in patterns:
        if fnmatch(soname, pattern):
            return True
    return False


def ldd(
    path: Path,'''))
ref("k-ld-ldd-libc", (LD, '''            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
''', '''            if soname.startswith("libc.musl-") or soname.startswith("ld-musl-"):
                if libc not in (None, Libc.MUSL):
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
                libc = Libc.MUSL
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc not in (None, Libc.GLIBC):
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
                libc = Libc.GLIBC
'''))
ref("k-ld-ldd-allpaths", (LD, '''    all_ldpaths = (
        ldpaths["rpath"]
        + rpaths
        + runpaths
        + ldpaths["env"]
        + ldpaths["runpath"]
        + ldpaths["conf"]
        + ldpaths["interp"]
    )
''', '''    all_ldpaths = [
        *ldpaths["rpath"],
        *rpaths,
        *runpaths,
        *ldpaths["env"],
        *ldpaths["runpath"],
        *ldpaths["conf"],
        *ldpaths["interp"],
    ]
'''))
ref("k-ld-ldd-tags", (LD, '''                if t.entry.d_tag == "DT_RPATH":
                    rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                elif t.entry.d_tag == "DT_RUNPATH":
                    runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                elif t.entry.d_tag == "DT_NEEDED":
                    needed.append(t.needed)  # type: ignore[attr-defined]
''', '''                tag = t.entry.d_tag
                if tag == "DT_NEEDED":
                    needed.append(t.needed)  # type: ignore[attr-defined]
                if tag == "DT_RUNPATH":
                    runpaths = parse_ld_paths(t.runpath, str(path), root)  # type: ignore[attr-defined]
                if tag == "DT_RPATH":
                    rpaths = parse_ld_paths(t.rpath, str(path), root)  # type: ignore[attr-defined]
'''))
ref("k-pa-getrpath", (PA, '''        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
''', '''        pending = self._updates.get(key)
        if not pending:
            return self.get_rpath_direct(file_name)
        if pending.rpath is not None:
            return pending.rpath
        return "" if pending.clear_rpath else self.get_rpath_direct(file_name)
'''))
ref("k-pa-overlap", (PA, '''        replaced_sonames = set(chain.from_iterable(replaced))
        return next((name for name in removed if name in replaced_sonames), None)
''', '''        replaced_sonames = {name for pair in replaced for name in pair}
        for name in removed:
            if name in replaced_sonames:
                return name
        return None
'''))
ref("k-pa-apply-args", (PA, '''            args = []
            if update_info.soname is not None:
                args.extend(["--set-soname", update_info.soname])
            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
            if update_info.clear_rpath and update_info.rpath is None:
                args.append("--remove-rpath")
            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
            if args:
                check_call([self._patchelf_path, *args, filepath])
''', '''            args = self._arguments(update_info)
            if args:
                check_call([self._patchelf_path, *args, filepath])
'''), (PA, '''class _Patchelf(ElfPatcher):
''', '''class _Patchelf(ElfPatcher):
    def _arguments(self, info: ElfUpdateInfo) -> list[str]:
        args: list[str] = []
        if info.soname is not None:
            args += ["--set-soname", info.soname]
        for soname in info.remove_needed:
            args += ["--remove-needed", soname]
        for old, new in info.replace_needed:
            args += ["--replace-needed", old, new]
        if info.rpath is not None:
            # Android supports only RUNPATH, not RPATH.
            if not self.platform.startswith("android"):
                args.append("--force-rpath")
            args += ["--set-rpath", info.rpath]
        elif info.clear_rpath:
            args.append("--remove-rpath")
        return args

'''))
ref("k-pa-none-any", (PA, '''            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
''', '''            if _has_updates(update_info):
                errors.append(filepath)
'''), (PA, '''class _NonePatcher(ElfPatcher):''', '''def _has_updates(info: ElfUpdateInfo) -> bool:
    if info.soname is not None or info.rpath is not None:
        return True
    return bool(info.remove_needed) or bool(info.replace_needed) or info.clear_rpath


class _NonePatcher(ElfPatcher):'''))
ref("k-pa-getpatcher", (PA, '''        match patcher:
            case "patchelf" | "lief-patchelf":
                return _Patchelf(variant=patcher, platform=platform)
            case "none":
                return _NonePatcher(platform=platform)
            case _:
                msg = f"Unknown patcher {patcher!r}"
                raise ValueError(msg)
''', '''        if patcher == "none":
            return _NonePatcher(platform)
        if patcher not in ("patchelf", "lief-patchelf"):
            msg = f"Unknown patcher {patcher!r}"
            raise ValueError(msg)
        return _Patchelf(patcher, platform)
'''))
ref("k-pa-verify-order", (PA, '''    if variant == "lief-patchelf":
        return Path(patchelf_path)
    try:
''', '''    result = Path(patchelf_path)
    if variant == "lief-patchelf":
        return result
    try:
'''), (PA, '''    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
    raise ValueError(msg)
''', '''    if not m or tuple(int(x) for x in m.group(1).split(".")) < (0, 14, 5):
        msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
        raise ValueError(msg)
    return result
'''))
ref("k-to-walk", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            subdirs = [name for name in dirnames if not name.endswith(".dist-info")]
            dist_info = [name for name in dirnames if name.endswith(".dist-info")]
            dirnames[:] = [*subdirs, *dist_info]
'''))
ref("k-to-walk-record", (TO, '''        if (
            dirpath.name.endswith(".dist-info")
            and dirpath.parent == topdir
            and "RECORD" in filenames
        ):
            filenames.remove("RECORD")
            filenames.append("RECORD")
''', '''        in_dist_info = dirpath.parent == topdir and dirpath.name.endswith(".dist-info")
        if in_dist_info and "RECORD" in filenames:
            filenames.append(filenames.pop(filenames.index("RECORD")))
'''))
ref("k-to-zip2dir", (TO, '''            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
                continue
            unix_mode = member.external_attr >> 16
            if unix_mode == 0:
                continue
            extracted_path.chmod((unix_mode & 0o777) | 0o600)
'''))
ref("k-to-dir2zip-add", (TO, '''            if dname != in_dir:
                out_dname = f"{dname.relative_to(in_dir)}/"
                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
''', '''            if dname != in_dir:
                zinfo = zipfile.ZipInfo.from_file(dname, str(dname.relative_to(in_dir)) + "/")
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
'''), (TO, '''                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
''', '''                z.writestr(zinfo, fname.read_bytes(), compresslevel=zip_compression_level)
'''))
ref("k-to-date", (TO, '''    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    earliest = (1980, 1, 1, 0, 0, 0)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < earliest:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = earliest
'''))
ref("k-mr-suffix", (MR, '''    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    for a in Architecture:
        if plat_base.endswith("_" + a.value):
            requested_architecture = a
            plat_base = plat_base.removesuffix("_" + a.value)
            break
'''))
ref("k-mr-plat", (MR, '''        if plat_base == "auto":
            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
        requested_policy = policies.get_policy_by_name(plat)
''', '''        plat = _target_platform(plat_base, wheel_abi)
        requested_policy = policies.get_policy_by_name(plat)
'''), (MR, '''def execute(args''', '''def _target_platform(plat_base, wheel_abi) -> str:
    policies = wheel_abi.policies
    if plat_base != "auto":
        return f"{plat_base}_{policies.architecture.value}"
    best = wheel_abi.overall_policy
    # we're getting 'linux', override
    return policies.lowest.name if best == policies.linux else best.name


def execute(args'''))
ref("k-mr-checks", (MR, '''        if requested_policy > wheel_abi.sym_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the '
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.machine_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on unsupported ISA extensions."
            )
            parser.error(msg)
''', '''        reason = None
        if requested_policy > wheel_abi.sym_policy:
            reason = (
                "because of the "
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
        elif requested_policy > wheel_abi.ucs_policy:
            reason = (
                "because it was "
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
        elif requested_policy > wheel_abi.blacklist_policy:
            reason = "because it depends on black-listed symbols."
        elif requested_policy > wheel_abi.machine_policy:
            reason = "because it depends on unsupported ISA extensions."
        if reason is not None:
            parser.error(f'cannot repair "{wheel_file}" to "{plat}" ABI {reason}')
'''))
ref("k-mr-abis", (MR, '''            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
''', '''            better = wheel_abi.overall_policy
            abis = [better.name, *better.aliases] + abis
'''))
ref("k-mr-pure", (MR, '''            logger.info(e.message)
            if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                dest_fname = wheel_dir / wheel_file.name
                if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
                    shutil.copy2(wheel_file, dest_fname)
                # process next wheel
                continue
            return 1
''', '''            logger.info(e.message)
            if not (is_pure_python and args.ALLOW_PURE_PY_WHEEL):
                return 1
            dest_fname = wheel_dir / wheel_filename
            already_there = dest_fname.is_file() and dest_fname.samefile(wheel_file)
            if not already_there:
                shutil.copy2(wheel_file, dest_fname)
            # process next wheel
            continue
'''))
ref("k-mr-libc", (MR, '''            if plat_base.startswith(lc.tag_prefix):
                if libc is None:
                    libc = lc
                if libc != lc:
                    msg = (
''', '''            if plat_base.startswith(lc.tag_prefix):
                libc = lc if libc is None else libc
                if lc != libc:
                    msg = (
'''))
ref("k-ms-json", (MS, '''        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
''', '''        if not p > winfo.overall_policy:
            continue
        ref = winfo.external_refs[p.name]
        entry: dict[str, Any] = {}
        if ref.libs:
            entry["libs_to_eliminate"] = sorted(ref.libs)
        if ref.blacklist:
            entry["blacklisted_symbols"] = {
                k: sorted(ref.blacklist[k]) for k in sorted(ref.blacklist)
            }
        if entry:
            policy_upgrades[p.name] = entry
'''))
ref("k-ms-nonplat", (MS, '''        if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
            if args.JSON:
                print(json.dumps({"version": 1, "wheel": fn, "pure": True}))
            return 0
        if args.JSON:
            print(json.dumps({"version": 1, "wheel": fn, "error": e.message}))
        return 1
''', '''        accepted = is_pure_python and args.ALLOW_PURE_PY_WHEEL
        if args.JSON:
            outcome = {"pure": True} if accepted else {"error": e.message}
            print(json.dumps({"version": 1, "wheel": fn, **outcome}))
        return 0 if accepted else 1
'''))
ref("k-el-versym", (EL, '''            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''            name = verneed.name
            is_loader = name in {"ld64.so.1", "ld64.so.2"} or name.startswith("ld-linux")
            if not is_loader:
                yield from ((name, vernaux.name) for vernaux in verneed_iter)
'''))
ref("k-el-pyfpe", (EL, '''    offending_symbol_names = ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter")
    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
''', '''    offending = {"PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"}
    section = _get_section_by_type(elf, SymbolTableSection)
    if not section:
        return False
    # look for symbols that are externally referenced
    return any(
        sym["st_shndx"] == "SHN_UNDEF"
        and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
        and sym.name in offending
        for sym in section.iter_symbols()
    )
'''))
ref("k-el-undef", (EL, '''    undef_symbols = set()
    with path.open("rb") as f:
        elf = ELFFile(f)
        if section := _get_section_by_type(elf, SymbolTableSection):
            # look for all undef symbols
            # if the symbol is weak don't consider it as undefined, it's "optional"
            for sym in section.iter_symbols():
                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":
                    undef_symbols.add(sym.name)
    return undef_symbols
''', '''    with path.open("rb") as f:
        section = _get_section_by_type(ELFFile(f), SymbolTableSection)
        if not section:
            return set()
        # if the symbol is weak don't consider it as undefined, it's "optional"
        return {
            sym.name
            for sym in section.iter_symbols()
            if sym["st_info"]["bind"] != "STB_WEAK" and sym["st_shndx"] == "SHN_UNDEF"
        }
'''))
ref("k-el-filter", (EL, '''    undef_symbols = set("*") | get_undefined_symbols(path)
    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
''', '''    undef_symbols = {"*", *get_undefined_symbols(path)}
    common = {lib: sym_list & undef_symbols for lib, sym_list in symbols.items()}
    return {lib: sorted(found) for lib, found in common.items() if found}
'''))
ref("k-el-isext", (EL, '''    for sym in sect.iter_symbols():
        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]

    return False, None
''', '''    for sym in sect.iter_symbols():
        version = module_init_f.get(sym.name)
        if version is None or sym["st_shndx"] == "SHN_UNDEF":
            continue
        if sym["st_info"]["type"] == "STT_FUNC":
            return True, version

    return False, None
'''))

exec((Path(__file__).resolve().parent / "refsn.py").read_text())
exec((Path(__file__).resolve().parent / "refso.py").read_text())
exec((Path(__file__).resolve().parent / "refsp.py").read_text())
exec((Path(__file__).resolve().parent / "refsq.py").read_text())
exec((Path(__file__).resolve().parent / "refsr.py").read_text())
exec((Path(__file__).resolve().parent / "refss.py").read_text())


def run(id):
    d = Path(tempfile.mkdtemp(prefix="ref"))
    try:
        err = make(id, d)
        if err:
            return id, None, err
        r = subprocess.run([sys.executable, str(Path(__file__).resolve().parent / "allprops.py"), str(d), "-v"], capture_output=True, text=True)
        try:
            return id, json.loads(r.stdout.splitlines()[-1]), ""
        except Exception:
            return id, None, r.stderr[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ids = [i for i in R if not sys.argv[1:] or any(a in i for a in sys.argv[1:])]
    n = {"quiet": 0, "ALARM": 0, "undec": 0, "ERROR": 0}
    with ThreadPoolExecutor(8) as ex:
        for id, res, err in ex.map(run, ids):
            if res is None:
                n["ERROR"] += 1
                print("ERROR", id, err)
                continue
            mark = "ALARM" if res["viol"] else "undec" if res["und"] else "quiet"
            n[mark] += 1
            if mark != "quiet":
                print(mark, id, ",".join(sorted(res["viol"])))
                src = res["viol"] if mark == "ALARM" else res["und"]
                for m in sorted({m for v in src.values() for m in v})[:6]:
                    print("      ", m[:330])
    print(n)
