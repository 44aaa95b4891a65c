# hold-out batch r-
ref("r-ms-eliminate", (MS, '''    for p in policies:
        if p > winfo.overall_policy:
            libs = winfo.external_refs[p.name].libs
            if len(libs):
''', '''    for p in policies:
        if not winfo.overall_policy < p:
            continue
        else:
            libs = winfo.external_refs[p.name].libs
            if libs:
'''))
ref("r-ms-loop-pairs", (MS, '''                for key in sorted(blacklist.keys()):
                    printp(f"From {key}: " + ", ".join(sorted(blacklist[key])))
''', '''                for key, symbols in sorted(blacklist.items()):
                    printp(f"From {key}: {', '.join(sorted(symbols))}")
'''))
ref("r-ms-json-error", (MS, '''        logger.info("%s", e.message)
        if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
            if args.JSON:
                print(json.dumps({"version": 1, "wheel": fn, "pure": True}))
            return 0
        if args.JSON:
            print(json.dumps({"version": 1, "wheel": fn, "error": e.message}))
        return 1
''', '''        logger.info("%s", e.message)
        accepted = is_pure_python and args.ALLOW_PURE_PY_WHEEL
        if args.JSON:
            report: dict[str, Any] = {"version": 1, "wheel": fn}
            if accepted:
                report["pure"] = True
            else:
                report["error"] = e.message
            print(json.dumps(report))
        return 0 if accepted else 1
'''))
ref("r-ms-symbols-fn", (MS, '''    if len(libs_with_versions) == 0:
        printp(
            "The wheel references no external versioned symbols from "
            "system-provided shared libraries.",
        )
    else:
        printp(
            "The wheel references external versioned symbols in these "
            f"system-provided shared libraries: {', '.join(libs_with_versions)}",
        )
''', '''    if libs_with_versions:
        joined = ", ".join(libs_with_versions)
        printp(
            "The wheel references external versioned symbols in these "
            f"system-provided shared libraries: {joined}",
        )
    else:
        printp(
            "The wheel references no external versioned symbols from "
            "system-provided shared libraries.",
        )
'''))
ref("r-ms-unused-fn", (MS, '''    wheel_file: Path = args.WHEEL_FILE
    fn = wheel_file.name

    if not''', '''    wheel_file: Path = args.WHEEL_FILE

    if not'''))
ref("r-el-versions-guard", (EL, '''    if section := _get_section_by_type(elf, GNUVerNeedSection):
        for verneed, verneed_iter in section.iter_versions():
            if TYPE_CHECKING:
                # this should be enforced some other way in pyelftools
                assert verneed.name is not None
            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''    section = _get_section_by_type(elf, GNUVerNeedSection)
    if section is None:
        return
    for verneed, verneed_iter in section.iter_versions():
        if TYPE_CHECKING:
            # this should be enforced some other way in pyelftools
            assert verneed.name is not None
        if not _is_dynamic_loader(verneed.name):
            yield from ((verneed.name, vernaux.name) for vernaux in verneed_iter)
'''), (EL, '''def elf_find_ucs2''', '''def _is_dynamic_loader(name: str) -> bool:
    return name.startswith("ld-linux") or name in {"ld64.so.1", "ld64.so.2"}


def elf_find_ucs2'''))
ref("r-el-undefined-shared", (EL, '''            if (
                "PyUnicodeUCS2_" in sym.name
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] == "STT_FUNC"
            ):
                yield sym.name
''', '''            if "PyUnicodeUCS2_" in sym.name and _is_undefined(sym, "STT_FUNC"):
                yield sym.name
'''), (EL, '''            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
''', '''            if sym.name in offending_symbol_names and _is_undefined(sym, "STT_FUNC", "STT_NOTYPE"):
                return True
'''), (EL, '''def elf_find_ucs2''', '''def _is_undefined(sym, *types: str) -> bool:  # noqa: ANN001
    return sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["type"] in types


def elf_find_ucs2'''))
ref("r-el-undef-comp", (EL, '''    undef_symbols = set()
    with path.open("rb") as f:
        elf = ELFFile(f)
        if section := _get_section_by_type(elf, SymbolTableSection):
            # look for all undef symbols
            # if the symbol is weak don't consider it as undefined, it's "optional"
            for sym in section.iter_symbols():
                if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK":
                    undef_symbols.add(sym.name)
    return undef_symbols
''', '''    with path.open("rb") as f:
        section = _get_section_by_type(ELFFile(f), SymbolTableSection)
        if not section:
            return set()
        # look for all undef symbols
        # if the symbol is weak don't consider it as undefined, it's "optional"
        return {
            sym.name
            for sym in section.iter_symbols()
            if sym["st_shndx"] == "SHN_UNDEF" and sym["st_info"]["bind"] != "STB_WEAK"
        }
'''))
ref("r-el-filter-comp", (EL, '''    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
''', '''    return {
        lib: sorted(sym_list & undef_symbols)
        for lib, sym_list in symbols.items()
        if not sym_list.isdisjoint(undef_symbols)
    }
'''))
ref("r-el-filefilter", (EL, '''        if path.name.endswith(".py"):
            continue
        else:
            try:
                with path.open("rb") as f:
                    candidate = ELFFile(f)
                    yield path, candidate
            except ELFError:
                # not an elf file
                continue
''', '''        if path.name.endswith(".py"):
            continue
        try:
            with path.open("rb") as f:
                yield path, ELFFile(f)
        except ELFError:
            # not an elf file
            pass
'''))
ref("r-sb-early", (SB, '''    match = WHEEL_INFO_RE(wheel_fname)
    if not match:
        msg = f"Failed to parse wheel file name: {wheel_fname}"
        raise ValueError(msg)
    wheel_name = match.group("name")
    wheel_version = match.group("ver")
    wheel_purl = (
        f"pkg:pypi/{quote(wheel_name, safe='')}@{quote(wheel_version, safe='')}"
        f"?file_name={quote(wheel_fname, safe='')}"
    )
''', '''    match = WHEEL_INFO_RE(wheel_fname)
    if match is None:
        msg = f"Failed to parse wheel file name: {wheel_fname}"
        raise ValueError(msg)
    wheel_name, wheel_version = match.group("name", "ver")
    quoted_name, quoted_version, quoted_file = (
        quote(value, safe="") for value in (wheel_name, wheel_version, wheel_fname)
    )
    wheel_purl = f"pkg:pypi/{quoted_name}@{quoted_version}?file_name={quoted_file}"
'''))
ref("r-sb-deps", (SB, '''    sbom_dependencies = [{"ref": wheel_purl, "dependsOn": []}]
''', '''    depends_on: list[str] = []
    sbom_dependencies: list[dict[str, typing.Any]] = [{"ref": wheel_purl, "dependsOn": depends_on}]
'''), (SB, '''        sbom_dependencies[0]["dependsOn"].append(bom_ref)  # type: ignore[attr-defined]
''', '''        depends_on.append(bom_ref)
'''))
ref("r-td-exit", (TD, '''        os.chdir(self._pwd)
        self._tmpdir.__exit__(exc, value, tb)
''', '''        try:
            os.chdir(self._pwd)
        finally:
            self._tmpdir.__exit__(exc, value, tb)
'''))
ref("r-to-envdefault-raise", (TO, '''            args = {
                "value": self.env_default,
                "choices": ", ".join(map(repr, choices)),
                "env": self.env,
            }
            msg = (
                "invalid choice: %(value)r from environment variable "
                "%(env)r (choose from %(choices)s)"
            )
            raise argparse.ArgumentError(self, msg % args)
''', '''            choose_from = ", ".join(repr(choice) for choice in choices)
            msg = (
                f"invalid choice: {self.env_default!r} from environment variable "
                f"{self.env!r} (choose from {choose_from})"
            )
            raise argparse.ArgumentError(self, msg)
'''))
ref("r-to-required", (TO, '''        if default is not None:
            required = False

        super().__init__(
            default=default,
            required=required,
''', '''        super().__init__(
            default=default,
            required=required and default is None,
'''))
ref("r-to-subdir-rel", (TO, '''    path = Path(path).resolve()
    root = Path(root).resolve()

    return root == path or root in path.parents
''', '''    return Path(path).resolve().is_relative_to(Path(root).resolve())
'''))
ref("r-ld-dedupe", (LD, '''    seen: dict[str, str] = {}
    return [seen.setdefault(x, x) for x in items if x not in seen]
''', '''    return list(dict.fromkeys(items))
'''))
ref("r-ld-parse-cond", (LD, '''        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
''', '''        ldpaths.append(normpath(_expand_ldpath(ldpath, path, root)))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]


def _expand_ldpath(ldpath: str, path: str, root: str) -> str:
    if not ldpath:
        # The ldso treats "" paths as $PWD.
        return os.getcwd()
    if ORIGIN_RE.search(ldpath) is None:
        return root + ldpath
    if not path:
        msg = "can't expand $ORIGIN without a path"
        raise ValueError(msg)
    return ORIGIN_RE.sub(os.path.dirname(os.path.abspath(path)), ldpath)
'''))
ref("r-ld-readlink", (LD, '''    while os.path.islink(root + path):
        path = os.path.join(os.path.dirname(path), os.readlink(root + path))

    return normpath((root + path) if prefixed else path)
''', '''    while os.path.islink(root + path):
        target = os.readlink(root + path)
        path = os.path.join(os.path.dirname(path), target)

    if prefixed:
        path = root + path
    return normpath(path)
'''))
ref("r-ld-excluded-fn", (LD, '''        if any(fnmatch(soname, e) for e in exclude):
''', '''        if is_excluded(soname):
'''), (LD, '''        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):
''', '''        if realpath is not None and is_excluded(str(realpath)):
'''), (LD, '''    _excluded_libs: set[str] = set()
    for soname in needed:
''', '''    def is_excluded(name: str) -> bool:
        return any(fnmatch(name, pattern) for pattern in exclude)

    _excluded_libs: set[str] = set()
    for soname in needed:
'''))
ref("r-ld-seen", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
'''))
ref("r-ld-tags", (LD, '''            for t in segment.iter_tags():
                if t.entry.d_tag == "DT_RPATH":
                    rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                elif t.entry.d_tag == "DT_RUNPATH":
                    runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                elif t.entry.d_tag == "DT_NEEDED":
                    needed.append(t.needed)  # type: ignore[attr-defined]
''', '''            for t in segment.iter_tags():
                match t.entry.d_tag:
                    case "DT_RPATH":
                        rpaths = parse_ld_paths(t.rpath, str(path), root)  # type: ignore[attr-defined]
                    case "DT_RUNPATH":
                        runpaths = parse_ld_paths(t.runpath, str(path), root)  # type: ignore[attr-defined]
                    case "DT_NEEDED":
                        needed.append(t.needed)  # type: ignore[attr-defined]
'''))
ref("r-ld-locate-fn", (LD, '''            if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
                libc = Libc.MUSL
            elif path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
                # before python 3.11, musl was also using gnu
                soabi = path.stem.split(".")[-1].split("-")
                valid_python = tuple(f"3{minor}" for minor in range(11, 100))
                if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
                    libc = Libc.GLIBC
''', '''            libc = _libc_from_filename(path)
'''), (LD, '''def ldd(''', '''def _libc_from_filename(path: Path) -> Libc | None:
    if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
        return Libc.MUSL
    if path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
        # before python 3.11, musl was also using gnu
        soabi = path.stem.split(".")[-1].split("-")
        valid_python = tuple(f"3{minor}" for minor in range(11, 100))
        if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
            return Libc.GLIBC
    return None


def ldd('''))
