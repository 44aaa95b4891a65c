# hold-out batch s-
ref("s-wa-clean-policies", (WA, '''    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
''', '''    ref_policy = _highest((e.policy for e in external_refs.values() if not e.libs), policies)
    blacklist_policy = _highest(
        (e.policy for e in external_refs.values() if not e.blacklist), policies
    )
'''), (WA, '''        (e.policy for e in external_refs.values() if len(e.libs) <= graft_lib_count),
        default=policies.linux,
    )
''', '''        (e.policy for e in external_refs.values() if len(e.libs) <= graft_lib_count),
        default=policies.linux,
    )
'''), (WA, '''def analyze_wheel_abi(''', '''def _highest(candidates: Iterable[Policy], policies: WheelPolicies) -> Policy:
    """highest policy of the candidates, the linux policy if there are none"""
    return max(candidates, default=policies.linux)


def analyze_wheel_abi('''))
ref("s-wa-graft-candidates", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    if requested_policy_base_name in (None, "auto"):
        graft_refs = [e for e in external_refs.values() if e.policy != policies.linux]
    else:
        prefix = f"{requested_policy_base_name}_"
        graft_refs = [e for e in external_refs.values() if e.policy.name.startswith(prefix)]
    graft_lib_count = min((len(e.libs) for e in graft_refs), default=0)
'''))
ref("s-wa-flag-policy", (WA, '''    ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
    pyfpe_policy = policies.linux if data.uses_pyfpe_jbuf else policies.highest
''', '''    def flag_policy(flag: bool) -> Policy:
        return policies.linux if flag else policies.highest

    ucs_policy = flag_policy(data.uses_ucs2_symbols)
    pyfpe_policy = flag_policy(data.uses_pyfpe_jbuf)
'''))
ref("s-wa-min-once", (WA, '''    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)

''', '''    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
    if requested_policy_base_name is not None and graft_policy < overall_policy:
        overall_policy = graft_policy

'''))
ref("s-wa-return-kw", (WA, '''    return WheelAbIInfo(
        policies,
        external_refs_by_fn,
        overall_policy,
        external_refs,
        ref_policy,
        versioned_symbols,
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
        graft_policy,
    )
''', '''    return WheelAbIInfo(
        policies=policies,
        full_external_refs=external_refs_by_fn,
        overall_policy=overall_policy,
        external_refs=external_refs,
        ref_policy=ref_policy,
        versioned_symbols=versioned_symbols,
        sym_policy=symbol_policy,
        ucs_policy=ucs_policy,
        pyfpe_policy=pyfpe_policy,
        blacklist_policy=blacklist_policy,
        machine_policy=machine_policy,
        graft_policy=graft_policy,
    )
'''))
ref("s-wa-update-black", (WA, '''                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''                known = d[k].blacklist.get(lib, [])
                d[k].blacklist[lib] = sorted({*known, *symbols})
'''))
ref("s-wa-arch-helper", (WA, '''                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
''', '''                if libc is None and elftree.libc is not None:
                    log.info("setting libc to %s", elftree.libc)
                    libc = elftree.libc
                elif elftree.libc not in (None, libc):
                    log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                    continue
'''))
ref("s-wa-purelib", (WA, '''            if any(p.name == "purelib" for p in fn.parents):
                shared_libraries_in_purelib.append(so_name)
''', '''            in_purelib = "purelib" in [parent.name for parent in fn.parents]
            if in_purelib:
                shared_libraries_in_purelib.append(so_name)
'''))
ref("s-wa-ucs2-any", (WA, '''                    if py_ver == 2:
                        uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
''', '''                    if py_ver == 2 and next(elf_find_ucs2_symbols(elf), None) is not None:
                        uses_ucs2_symbols = True
'''))
ref("s-wa-machine-flip", (WA, '''        if extended_architecture is None:
            continue
        if policies.architecture.is_superset(extended_architecture):
            continue
''', '''        if extended_architecture is None or policies.architecture.is_superset(
            extended_architecture
        ):
            continue
'''))
ref("s-po-init-comp", (PO, '''                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
''', '''                is_linux = policy["name"] == "linux"
                raw_versions = {} if is_linux else policy["symbol_versions"][base_arch]
                symbol_versions = {k: frozenset(v) for k, v in raw_versions.items()}
'''))
ref("s-po-musl-name", (PO, '''                self._musl_policy = "_".join(self._policies[1].name.split("_")[0:3])
                self._policies = [self._policies[0], self._policies[1]]
''', '''                self._policies = self._policies[:2]
                self._musl_policy = "_".join(self._policies[1].name.split("_")[:3])
'''))
ref("s-po-satisfied-all", (PO, '''            if policy_is_satisfied(p.name, policy_sym_vers):
                return p
''', '''            if not policy_is_satisfied(p.name, policy_sym_vers):
                continue
            return p
'''), (PO, "for p in self._policies[::-1]:", "for p in reversed(self._policies):"))
ref("s-po-fixup-comp", (PO, '''    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
''', '''    return frozenset(
        soname_map[soname][arch.baseline] if soname in soname_map else soname
        for soname in whitelist
    )
'''))
ref("s-po-replace", (PO, '''    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
''', '''    skip = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    arch = "_".join(name.split("_")[skip:])
    return [f"linux_{arch}"]
'''))
ref("s-po-filter-yield", (PO, '''                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
''', '''                # libpython dependencies are normal on Android.
                is_libpython = LIBPYTHON_RE.match(lib) is not None
                if is_libpython and self.libc == Libc.ANDROID:
                    continue
                # exclude any libs in the whitelist
                if lib not in whitelist:
                    yield lib
'''))
ref("s-po-black-comp", (PO, '''                blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)
                blacklist_reduced = {k: p.blacklist[k] for k in blacklist_libs}
''', '''                blacklist_reduced = {
                    lib: symbols for lib, symbols in p.blacklist.items() if lib in lddtree.needed
                }
'''))
ref("s-lc-glibc", (LC, '''    m = re.match(r"(?P<major>[0-9]+)\\.(?P<minor>[0-9]+)", version)
    if not m:
        msg = f"failed to parse glibc version from string {version!r}"
        raise InvalidLibcError(msg)

    return LibcVersion(int(m.group("major")), int(m.group("minor")))
''', '''    m = re.match(r"(?P<major>[0-9]+)\\.(?P<minor>[0-9]+)", version)
    if m is None:
        msg = f"failed to parse glibc version from string {version!r}"
        raise InvalidLibcError(msg)

    return LibcVersion(major=int(m["major"]), minor=int(m["minor"]))
'''))
ref("s-lc-detect", (LC, '''        try:
            _find_musl_libc()
            logger.debug("Detected musl libc")
            return Libc.MUSL  # noqa: TRY300
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
''', '''        try:
            _find_musl_libc()
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
        logger.debug("Detected musl libc")
        return Libc.MUSL
'''))
ref("s-lc-prefix", (LC, '''        return {
            Libc.GLIBC: "manylinux",
            Libc.MUSL: "musllinux",
            Libc.ANDROID: "android",
        }[self]
''', '''        if self == Libc.GLIBC:
            return "manylinux"
        if self == Libc.MUSL:
            return "musllinux"
        return "android"
'''))
ref("s-ar-subset", (AR, '''        if self.baseline != other.baseline:
            return False
        member_list = Architecture._member_list()
        return member_list.index(self) <= member_list.index(other)
''', '''        members = Architecture._member_list()
        return self.baseline == other.baseline and members.index(self) <= members.index(other)
'''))
ref("s-ar-superset", (AR, '''        if self.baseline != other.baseline:
            return False
        return other.is_subset(self)
''', '''        return other.is_subset(self)
'''))
ref("s-ar-baseline", (AR, '''        if self.value.startswith("arm64"):
            return Architecture.aarch64
        if self.value.startswith("x86_64"):
            return Architecture.x86_64
        return self
''', '''        for prefix, base in (("arm64", Architecture.aarch64), ("x86_64", Architecture.x86_64)):
            if self.value.startswith(prefix):
                return base
        return self
'''))
