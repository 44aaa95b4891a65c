# hold-out batch p-
ref("p-po-find-android", (PO, '''            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    # Rename the policy to match the existing tag, and remove all other policies.
                    self._policies = [self.linux, replace(p, name=platform)]
                    break
            else:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
''', '''            base = self._android_base(api_level)
            if base is None:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
            # Rename the policy to match the existing tag, and remove all other policies.
            self._policies = [self.linux, replace(base, name=platform)]
'''), (PO, '''    def __iter__(self) -> Generator[Policy]:
''', '''    def _android_base(self, api_level: int) -> Policy | None:
        for p in self._policies:
            if not p.name.startswith("android"):
                continue
            if android_api_level(p.name) <= api_level:
                return p
        return None

    def __iter__(self) -> Generator[Policy]:
'''))
ref("p-po-wanted", (PO, '''            if self._musl_policy is not None and policy["name"] not in {
                "linux",
                self._musl_policy,
            }:
                continue
            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = f"{policy['name']}_{base_arch}"
                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
''', '''            policy_name = policy["name"]
            is_linux = policy_name == "linux"
            if self._musl_policy is not None and not is_linux and policy_name != self._musl_policy:
                continue
            if is_linux or arch.value in policy["symbol_versions"]:
                name = f"{policy_name}_{base_arch}"
                symbol_versions = (
                    {}
                    if is_linux
                    else {
                        prefix: frozenset(versions)
                        for prefix, versions in policy["symbol_versions"][base_arch].items()
                    }
                )
'''))
ref("p-po-byname-try", (PO, '''        matches = [p for p in self._policies if p.name == name or name in p.aliases]
        if len(matches) == 0:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        if len(matches) > 1:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return matches[0]
''', '''        matches = []
        for p in self._policies:
            if name == p.name or name in p.aliases:
                matches.append(p)
        if not matches:
            msg = f"no policy named {name!r} found"
            raise LookupError(msg)
        first, *others = matches
        if others:
            msg = "Internal error. Policies should be unique"
            raise RuntimeError(msg)
        return first
'''))
ref("p-po-required", (PO, '''        required_vers: dict[str, set[str]] = {}
        for symbols in versioned_symbols.values():
            for symbol in symbols:
                sym_name, _, _ = symbol.partition("_")
                required_vers.setdefault(sym_name, set()).add(symbol)
        for p in self._policies[::-1]:
''', '''        required_vers: dict[str, set[str]] = defaultdict(set)
        for symbols in versioned_symbols.values():
            for symbol in symbols:
                required_vers[symbol.split("_", 1)[0]].add(symbol)
        for p in reversed(self._policies):
'''))
ref("p-po-satisfied", (PO, '''                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
''', '''                missing = required_vers[name] - policy_sym_vers[name]
                for symbol in missing:
                    logger.debug(
                        "Package requires %s, incompatible with policy %s which requires %s",
                        symbol,
                        policy_name,
                        policy_sym_vers[name],
                    )
                if missing:
                    policy_satisfied = False
'''))
ref("p-po-extdeps", (PO, '''            pol_ext_deps: dict[str, Path | None] = {}
            for lib in sorted(needed_external_libs):
                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
''', '''            pol_ext_deps: dict[str, Path | None] = {
                lib: lddtree.libraries[lib].realpath
                for lib in sorted(needed_external_libs)
                # libs that resolved via RPATH inside the wheel are not "external"
                if not is_subdir(lddtree.libraries[lib].realpath, wheel_path)
            }
'''))
ref("p-po-closure-stack", (PO, '''            libs = libs.copy()
            reqs = set()
            while libs:
                lib = libs.pop()
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
            return reqs
''', '''            reqs = set(libs)
            todo = list(libs)
            while todo:
                current = todo.pop()
                for dep in filter_libs(lddtree.libraries[current].needed, whitelist):
                    if dep in reqs:
                        continue
                    reqs.add(dep)
                    todo.append(dep)
            return reqs
'''))
ref("p-po-validate-diff", (PO, '''        if not lib_whitelist.issubset(set(policy["lib_whitelist"])):
            diff = lib_whitelist - set(policy["lib_whitelist"])
            msg = (
''', '''        diff = lib_whitelist.difference(policy["lib_whitelist"])
        if diff:
            msg = (
'''))
ref("p-po-soname-get", (PO, '''    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
''', '''    def fixup(soname: str) -> str:
        per_arch = soname_map.get(soname)
        if per_arch is None:
            return soname
        new_soname = per_arch[arch.baseline]
        logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
        return new_soname

    return frozenset(fixup(soname) for soname in whitelist)
'''))
ref("p-el-needed-loop", (EL, '''        needed.extend(t.needed for t in section.iter_tags() if t.entry.d_tag == "DT_NEEDED")  # type: ignore[attr-defined]
''', '''        for tag in section.iter_tags():
            if tag.entry.d_tag != "DT_NEEDED":
                continue
            needed.append(tag.needed)  # type: ignore[attr-defined]
'''))
ref("p-el-ucs2-guard", (EL, '''    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for UCS2 symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                "PyUnicodeUCS2_" in sym.name
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] == "STT_FUNC"
            ):
                yield sym.name
''', '''    section = _get_section_by_type(elf, SymbolTableSection)
    if not section:
        return
    # look for UCS2 symbols that are externally referenced
    for sym in section.iter_symbols():
        if "PyUnicodeUCS2_" not in sym.name:
            continue
        if sym["st_shndx"] != "SHN_UNDEF" or sym["st_info"]["type"] != "STT_FUNC":
            continue
        yield sym.name
'''))
ref("p-el-undef-helper", (EL, '''            for sym in section.iter_symbols():
                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":
                    undef_symbols.add(sym.name)
    return undef_symbols
''', '''            undef_symbols = {
                sym.name for sym in section.iter_symbols() if _is_strong_undefined(sym)
            }
    return undef_symbols


def _is_strong_undefined(sym) -> bool:  # noqa: ANN001
    return sym["st_shndx"] == "SHN_UNDEF" and not sym["st_info"]["bind"] == "STB_WEAK"
'''))
ref("p-el-filter-walrus", (EL, '''    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
''', '''    return {
        lib: sorted(found)
        for lib, sym_list in symbols.items()
        if (found := undef_symbols.intersection(sym_list))
    }
'''))
ref("p-el-pyfpe-any", (EL, '''    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
''', '''    section = _get_section_by_type(elf, SymbolTableSection)
    if section is None:
        return False
    # look for symbols that are externally referenced
    return any(
        sym.name in offending_symbol_names
        and sym["st_shndx"] == "SHN_UNDEF"
        and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
        for sym in section.iter_symbols()
    )
'''))
ref("p-el-pyext-match", (EL, '''        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]
''', '''        python_major = module_init_f.get(sym.name)
        if python_major is None or sym["st_shndx"] == "SHN_UNDEF":
            continue
        if sym["st_info"]["type"] == "STT_FUNC":
            return True, python_major
'''))
ref("p-sb-component", (SB, '''        bom_ref = (
            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
        )
        sbom_components.append(
            {
                "type": "library",
                "bom-ref": bom_ref,
                "name": provided_by.package_name,
                "version": provided_by.package_version,
                "purl": provided_by.purl,
            },
        )
''', '''        digest = hashlib.sha256(filepath.encode(errors="ignore")).hexdigest()
        bom_ref = f"{provided_by.purl}#{digest}"
        component = {
            "type": "library",
            "bom-ref": bom_ref,
            "name": provided_by.package_name,
            "version": provided_by.package_version,
            "purl": provided_by.purl,
        }
        sbom_components.append(component)
'''))
ref("p-sb-helper", (SB, '''    wheel_purl = (
        f"pkg:pypi/{quote(wheel_name, safe='')}@{quote(wheel_version, safe='')}"
        f"?file_name={quote(wheel_fname, safe='')}"
    )
''', '''    def quoted(text: str) -> str:
        return quote(text, safe="")

    wheel_purl = (
        f"pkg:pypi/{quoted(wheel_name)}@{quoted(wheel_version)}?file_name={quoted(wheel_fname)}"
    )
'''))
ref("p-ms-upgrades", (MS, '''    for p in policies:
        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
''', '''    for p in policies:
        if p <= winfo.overall_policy:
            continue
        refs = winfo.external_refs[p.name]
        entry: dict[str, Any] = {}
        if refs.libs:
            entry["libs_to_eliminate"] = sorted(refs.libs)
        if refs.blacklist:
            entry["blacklisted_symbols"] = {
                lib: sorted(refs.blacklist[lib]) for lib in sorted(refs.blacklist)
            }
        if entry:
            policy_upgrades[p.name] = entry
'''))
ref("p-ms-brief", (MS, '''    policies = winfo.policies

    libs_with_versions =''', '''    policies = winfo.policies
    brief = args.verbose < 1

    libs_with_versions ='''), (MS, '''        printp("This wheel depends on unsupported ISA extensions.")
        if args.verbose < 1:
''', '''        printp("This wheel depends on unsupported ISA extensions.")
        if brief:
'''), (MS, '''            "a recent manylinux image.",
        )
        if args.verbose < 1:
''', '''            "a recent manylinux image.",
        )
        if brief:
'''))
ref("p-ms-identify", (MS, '''    fn = wheel_file.name
    is_pure_python = False
    try:
        arch = get_wheel_architecture(fn)
    except (WheelToolsError, NonPlatformWheelError) as e:
        logger.warning("The architecture could not be deduced from the wheel filename")
        is_pure_python = isinstance(e, NonPlatformWheelError)
        arch = None
''', '''    fn = wheel_file.name
    is_pure_python = False
    arch = None
    try:
        arch = get_wheel_architecture(fn)
    except NonPlatformWheelError:
        logger.warning("The architecture could not be deduced from the wheel filename")
        is_pure_python = True
    except WheelToolsError:
        logger.warning("The architecture could not be deduced from the wheel filename")
'''))
ref("p-ms-missing-libs", (MS, '''    libs_with_versions = [f"{k} with versions {v}" for k, v in winfo.versioned_symbols.items()]
''', '''    libs_with_versions = []
    for lib, versions in winfo.versioned_symbols.items():
        libs_with_versions.append(f"{lib} with versions {versions}")
'''))
ref("p-ms-toeliminate", (MS, '''    for p in policies:
        if p > winfo.overall_policy:
            libs = winfo.external_refs[p.name].libs
            if len(libs):
                printp(
                    f"In order to achieve the tag platform tag {p.name!r} "
                    "the following shared library dependencies "
                    "will need to be eliminated:",
                )
                printp(", ".join(sorted(libs.keys())))
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                printp(
                    f"In order to achieve the tag platform tag {p.name!r} "
                    "the following black-listed symbol dependencies "
                    "will need to be eliminated:",
                )
                for key in sorted(blacklist.keys()):
                    printp(f"From {key}: " + ", ".join(sorted(blacklist[key])))
    return 0
''', '''    for p in policies:
        if p > winfo.overall_policy:
            _print_upgrade(p.name, winfo.external_refs[p.name])
    return 0


def _print_upgrade(name: str, refs: Any) -> None:  # noqa: ANN401
    if refs.libs:
        printp(
            f"In order to achieve the tag platform tag {name!r} "
            "the following shared library dependencies "
            "will need to be eliminated:",
        )
        printp(", ".join(sorted(refs.libs)))
    if refs.blacklist:
        printp(
            f"In order to achieve the tag platform tag {name!r} "
            "the following black-listed symbol dependencies "
            "will need to be eliminated:",
        )
        for library, symbols in sorted(refs.blacklist.items()):
            printp(f"From {library}: " + ", ".join(sorted(symbols)))
'''))
ref("p-mr-check-table", (MR, '''        if requested_policy > wheel_abi.sym_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the '
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.machine_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on unsupported ISA extensions."
            )
            parser.error(msg)
''', '''        for limit, reason in (
            (
                wheel_abi.sym_policy,
                "of the presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain.",
            ),
            (
                wheel_abi.ucs_policy,
                "it was compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python.",
            ),
            (wheel_abi.blacklist_policy, "it depends on black-listed symbols."),
            (wheel_abi.machine_policy, "it depends on unsupported ISA extensions."),
        ):
            if requested_policy > limit:
                parser.error(f'cannot repair "{wheel_file}" to "{plat}" ABI because {reason}')
'''))
ref("p-mr-plat-helper", (MR, '''        if plat_base == "auto":
            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
        requested_policy = policies.get_policy_by_name(plat)
''', '''        plat = _requested_platform(plat_base, wheel_abi)
        requested_policy = policies.get_policy_by_name(plat)
'''), (MR, '''def execute(args: argparse.Namespace, parser''', '''def _requested_platform(plat_base: str, wheel_abi) -> str:  # noqa: ANN001
    policies = wheel_abi.policies
    if plat_base != "auto":
        return f"{plat_base}_{policies.architecture.value}"
    best = wheel_abi.overall_policy
    if best == policies.linux:
        # we're getting 'linux', override
        best = policies.lowest
    return best.name


def execute(args: argparse.Namespace, parser'''))
ref("p-mr-abis", (MR, '''        abis = [requested_policy.name, *requested_policy.aliases]
        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:
''', '''        abis: list[str] = [requested_policy.name]
        abis.extend(requested_policy.aliases)
        upgradable = requested_policy < wheel_abi.overall_policy
        if upgradable and not args.ONLY_PLAT:
'''), (MR, '''            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
''', '''            best = wheel_abi.overall_policy
            abis = [best.name, *best.aliases] + abis
'''))
ref("p-mr-libc", (MR, '''        for lc in Libc:
            if plat_base.startswith(lc.tag_prefix):
                if libc is None:
                    libc = lc
                if libc != lc:
                    msg = (
                        f"can't repair wheel {wheel_filename} with {libc.name} libc to a wheel "
                        f"targeting {lc.name}"
                    )
                    parser.error(msg)
''', '''        for lc in Libc:
            if not plat_base.startswith(lc.tag_prefix):
                continue
            if libc is None:
                libc = lc
            elif libc != lc:
                msg = (
                    f"can't repair wheel {wheel_filename} with {libc.name} libc to a wheel "
                    f"targeting {lc.name}"
                )
                parser.error(msg)
'''))
ref("p-mr-outdir-once", (MR, '''        if not wheel_dir.exists():
            wheel_dir.mkdir(parents=True)

        try:
            wheel_abi = analyze''', '''        _ensure_dir(wheel_dir)

        try:
            wheel_abi = analyze'''), (MR, '''def execute(args: argparse.Namespace, parser''', '''def _ensure_dir(path: Path) -> None:
    if path.exists():
        return
    path.mkdir(parents=True)


def execute(args: argparse.Namespace, parser'''))
ref("p-ld-musl-conf", (LD, '''        else:
            ldpaths["conf"] = []
            for ldpath in ld_musl[0].read_text().split(":"):
                ldpath_stripped = ldpath.strip()
                if ldpath_stripped == "":
                    continue
                ldpaths["conf"].append(root + ldpath_stripped)
''', '''        else:
            entries = (ldpath.strip() for ldpath in ld_musl[0].read_text().split(":"))
            ldpaths["conf"] = [root + entry for entry in entries if entry]
'''))
ref("p-ld-parse-generator", (LD, '''    ldpaths: list[str] = []
    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
''', '''    def expand(ldpath: str) -> str:
        if not ldpath:
            # The ldso treats "" paths as $PWD.
            return os.getcwd()
        if re.search(ORIGIN_RE, ldpath) is None:
            return root + ldpath
        if not path:
            msg = "can't expand $ORIGIN without a path"
            raise ValueError(msg)
        origin = os.path.dirname(os.path.abspath(path))
        return re.sub(ORIGIN_RE, origin, ldpath)

    ldpaths = [normpath(expand(ldpath)) for ldpath in str_ldpaths.split(":")]
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
'''))
ref("p-ld-findlib-guard", (LD, '''        if target.exists():
            with open(target, "rb") as f:
                libelf = ELFFile(f)
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
''', '''        if not target.exists():
            continue
        with open(target, "rb") as f:
            candidate = _get_platform(ELFFile(f))
        if platform.is_compatible(candidate):
            return target, path
'''))
ref("p-ld-ldd-excluded", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any(fnmatch(soname, e) for e in exclude):
''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
        if _matches_any(soname, exclude):
'''), (LD, '''        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):
''', '''        if realpath is not None and _matches_any(str(realpath), exclude):
'''), (LD, '''def ldd(
''', '''def _matches_any(name: str, patterns: frozenset[str]) -> bool:
    for pattern in patterns:
        if fnmatch(name, pattern):
            return True
    return False


def ldd(
'''))
ref("p-ld-ldd-libc", (LD, '''        # get the libc based on dependencies
        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:
                    libc = Libc.MUSL
                if libc != Libc.MUSL:
                    msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                if libc is None:
                    libc = Libc.GLIBC
                if libc != Libc.GLIBC:
                    msg = f"found a dependency on GLIBC but the libc is already set to {libc}"
                    raise InvalidLibcError(msg)
''', '''        # get the libc based on dependencies
        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                found = Libc.MUSL
            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
                found = Libc.GLIBC
            else:
                continue
            if libc is None:
                libc = found
            if libc != found:
                msg = f"found a dependency on {found.name} but the libc is already set to {libc}"
                raise InvalidLibcError(msg)
'''))
ref("p-ld-ldd-dyn", (LD, '''            if runpaths:
                # If both RPATH and RUNPATH are set, only the latter is used.
                rpaths = []
''', '''            # If both RPATH and RUNPATH are set, only the latter is used.
            rpaths = [] if runpaths else rpaths
'''))
ref("p-ld-env", (LD, '''    env_ldpath = ":".join(
        filter(None, (os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path)),
    )
''', '''    env_candidates = [os.environ.get("AUDITWHEEL_LD_LIBRARY_PATH"), ld_library_path]
    env_ldpath = ":".join(value for value in env_candidates if value)
'''))
