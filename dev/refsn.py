# hold-out batch n-: larger edits of the sort a maintainer would send
ref("n-pa-args-method", (PA, '''            args = []
            if update_info.soname is not None:
                args.extend(["--set-soname", update_info.soname])
            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
            if update_info.clear_rpath and update_info.rpath is None:
                args.append("--remove-rpath")
            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
            if args:
                check_call([self._patchelf_path, *args, filepath])
''', '''            args = list(self._arguments(update_info))
            if not args:
                continue
            check_call([self._patchelf_path] + args + [filepath])
'''), (PA, '''    def get_rpath_direct(self, file_name: Path) -> str:
        output =''', '''    def _arguments(self, info: ElfUpdateInfo):
        if info.soname is not None:
            yield "--set-soname"
            yield info.soname
        for soname in info.remove_needed:
            yield "--remove-needed"
            yield soname
        for old, new in info.replace_needed:
            yield from ("--replace-needed", old, new)
        if info.rpath is None:
            if info.clear_rpath:
                yield "--remove-rpath"
        else:
            if not self.platform.startswith("android"):
                yield "--force-rpath"
            yield from ("--set-rpath", info.rpath)

    def get_rpath_direct(self, file_name: Path) -> str:
        output ='''))
ref("n-pa-rpath-args", (PA, '''                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
''', '''                # Android supports only RUNPATH, not RPATH.
                is_android = self.platform.startswith("android")
                force = [] if is_android else ["--force-rpath"]
                args += [*force, "--set-rpath", update_info.rpath]
'''))
ref("n-pa-while-popitem-keys", (PA, '''        elf_files = list(self._updates.keys())
        errors = []
        for filepath in elf_files:
            # prevent re-applying by removing from self._updates
            update_info = self._updates.pop(filepath)
            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
        assert len(self._updates) == 0  # noqa: S101
''', '''        pending = dict(self._updates)
        # prevent re-applying
        self._updates.clear()
        errors = [path for path, info in pending.items() if info.has_changes()]
'''), (PA, '''    clear_rpath: bool = False

''', '''    clear_rpath: bool = False

    def has_changes(self) -> bool:
        return bool(
            self.soname is not None
            or self.rpath is not None
            or self.clear_rpath
            or self.remove_needed
            or self.replace_needed
        )

'''))
ref("n-pa-verify-version-parse", (PA, '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
    raise ValueError(msg)
''', '''    match = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    supported = False
    if match is not None:
        components = [int(part) for part in match.group(1).split(".")]
        supported = tuple(components) >= MINIMUM_PATCHELF
    if not supported:
        required = ".".join(str(x) for x in MINIMUM_PATCHELF)
        msg = f"{version.strip()} found. auditwheel repair requires patchelf >= {required}."
        raise ValueError(msg)
    return Path(patchelf_path)
'''), (PA, '''@dataclasses.dataclass()
class ElfUpdateInfo''', '''MINIMUM_PATCHELF = (0, 14, 5)


@dataclasses.dataclass()
class ElfUpdateInfo'''))
ref("n-pa-getrpath-flat", (PA, '''        key = file_name.resolve(strict=True)
        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
''', '''        pending = self._updates.get(file_name.resolve(strict=True))
        if pending is None:
            return self.get_rpath_direct(file_name)
        if pending.rpath is None and not pending.clear_rpath:
            return self.get_rpath_direct(file_name)
        return "" if pending.rpath is None else pending.rpath
'''))
ref("n-pa-updates-setdefault", (PA, '''        self._updates: dict[Path, ElfUpdateInfo] = defaultdict(ElfUpdateInfo)
''', '''        self._updates: dict[Path, ElfUpdateInfo] = {}
'''), (PA, '''        return self._updates[file_name.resolve(strict=True)]
''', '''        key = file_name.resolve(strict=True)
        if key not in self._updates:
            self._updates[key] = ElfUpdateInfo()
        return self._updates[key]
'''))
ref("n-pa-overlap-loop", (PA, '''        replaced_sonames = set(chain.from_iterable(replaced))
        return next((name for name in removed if name in replaced_sonames), None)
''', '''        replaced_sonames = set()
        for old, new in replaced:
            replaced_sonames.add(old)
            replaced_sonames.add(new)
        for name in removed:
            if name in replaced_sonames:
                return name
        return None
'''))
ref("n-sb-component-helper", (SB, '''        sbom_components.append(
            {
                "type": "library",
                "bom-ref": bom_ref,
                "name": provided_by.package_name,
                "version": provided_by.package_version,
                "purl": provided_by.purl,
            },
        )
        sbom_dependencies[0]["dependsOn"].append(bom_ref)  # type: ignore[attr-defined]
        sbom_dependencies.append({"ref": bom_ref})
''', '''        sbom_components.append(
            _component(
                bom_ref,
                provided_by.package_name,
                provided_by.package_version,
                provided_by.purl,
            )
        )
        depends_on.append(bom_ref)
        sbom_dependencies.append({"ref": bom_ref})
'''), (SB, '''    sbom_components: list[dict[str, typing.Any]] = [
        {
            "type": "library",
            "bom-ref": wheel_purl,
            "name": wheel_name,
            "version": wheel_version,
            "purl": wheel_purl,
        },
    ]
    sbom_dependencies = [{"ref": wheel_purl, "dependsOn": []}]
''', '''    main_component = _component(wheel_purl, wheel_name, wheel_version, wheel_purl)
    sbom_components: list[dict[str, typing.Any]] = [main_component]
    depends_on: list[str] = []
    sbom_dependencies: list[dict[str, typing.Any]] = [
        {"ref": wheel_purl, "dependsOn": depends_on},
    ]
'''), (SB, '''            "component": sbom_components[0],
''', '''            "component": main_component,
'''), (SB, '''def create_sbom_for_wheel(''', '''def _component(bom_ref: str, name: str, version: str, purl: str) -> dict[str, typing.Any]:
    return {
        "type": "library",
        "bom-ref": bom_ref,
        "name": name,
        "version": version,
        "purl": purl,
    }


def create_sbom_for_wheel('''))
ref("n-sb-build-lists-first", (SB, '''    for filepath, provided_by in sorted(sbom_packages.items()):
        bom_ref = (
            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
        )
        sbom_components.append(
            {
                "type": "library",
                "bom-ref": bom_ref,
                "name": provided_by.package_name,
                "version": provided_by.package_version,
                "purl": provided_by.purl,
            },
        )
        sbom_dependencies[0]["dependsOn"].append(bom_ref)  # type: ignore[attr-defined]
        sbom_dependencies.append({"ref": bom_ref})
''', '''    refs = []
    for filepath in sorted(sbom_packages):
        provided_by = sbom_packages[filepath]
        digest = hashlib.sha256(filepath.encode(errors="ignore")).hexdigest()
        bom_ref = f"{provided_by.purl}#{digest}"
        refs.append(bom_ref)
        sbom_components.append(
            dict(
                [
                    ("type", "library"),
                    ("bom-ref", bom_ref),
                    ("name", provided_by.package_name),
                    ("version", provided_by.package_version),
                    ("purl", provided_by.purl),
                ]
            ),
        )
    sbom_dependencies[0]["dependsOn"] = refs
    sbom_dependencies.extend({"ref": ref} for ref in refs)
'''))
ref("n-to-walk-key", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            dist_info = [name for name in dirnames if name.endswith(".dist-info")]
            others = [name for name in dirnames if not name.endswith(".dist-info")]
            dirnames[:] = others + dist_info
'''))
ref("n-to-walk-record", (TO, '''        filenames.sort()
        # list any dist-info/RECORD file last
        if (
            dirpath.name.endswith(".dist-info")
            and dirpath.parent == topdir
            and "RECORD" in filenames
        ):
            filenames.remove("RECORD")
            filenames.append("RECORD")
        yield dirpath, dirnames, filenames
''', '''        filenames.sort()
        _record_last(topdir, dirpath, filenames)
        yield dirpath, dirnames, filenames
'''), (TO, '''def walk(topdir''', '''def _record_last(topdir: Path, dirpath: Path, filenames: list[str]) -> None:
    """list any dist-info/RECORD file last"""
    if dirpath.parent != topdir or not dirpath.name.endswith(".dist-info"):
        return
    if "RECORD" not in filenames:
        return
    filenames.remove("RECORD")
    filenames.append("RECORD")


def walk(topdir'''))
ref("n-to-zip2dir-infolist", (TO, '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            mode = _extracted_mode(member)
            if mode is not None:
                extracted_path.chmod(mode)
'''), (TO, '''def zip2dir(''', '''def _extracted_mode(member: zipfile.ZipInfo) -> int | None:
    if member.is_dir():
        return 0o755
    attr = member.external_attr >> 16
    if attr == 0:
        return None
    return (attr & 0o777) | 0o600


def zip2dir('''))
ref("n-to-dir2zip-clip", (TO, '''    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    earliest = (1980, 1, 1, 0, 0, 0)
    if earliest > date_time_args:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = earliest
'''), (TO, '''                zinfo.compress_type = compression
                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
''', '''                zinfo.compress_type = compression
                contents = fname.read_bytes()
                z.writestr(zinfo, contents, compresslevel=zip_compression_level)
'''))
ref("n-to-dir2zip-helper", (TO, '''            if dname != in_dir:
                out_dname = f"{dname.relative_to(in_dir)}/"
                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
                zinfo.date_time = date_time_args
                z.writestr(zinfo, b"")
            for file in files:
                fname = dname / file
                out_fname = fname.relative_to(in_dir)
                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
                zinfo.date_time = date_time_args
''', '''            if dname != in_dir:
                z.writestr(make_info(dname, f"{dname.relative_to(in_dir)}/"), b"")
            for file in files:
                fname = dname / file
                zinfo = make_info(fname, fname.relative_to(in_dir))
'''), (TO, '''    compression = zipfile.ZIP_DEFLATED
''', '''    compression = zipfile.ZIP_DEFLATED

    def make_info(source: Path, name: str | Path) -> zipfile.ZipInfo:
        info = zipfile.ZipInfo.from_file(source, name)
        info.date_time = date_time_args
        return info

'''))
ref("n-to-env-early", (TO, '''        if self.env_default:
            if type:
                try:
                    self.env_default = type(self.env_default)
                except Exception:  # noqa: BLE001
                    self.option_strings = kwargs["option_strings"]
                    args = {
                        "value": self.env_default,
                        "type": type,
                        "env": self.env,
                    }
                    msg = (
                        "invalid type: %(value)r from environment variable "
                        "%(env)r cannot be converted to %(type)r"
                    )
                    raise argparse.ArgumentError(self, msg % args) from None
            default = self.env_default
''', '''        if self.env_default and type:
            try:
                self.env_default = type(self.env_default)
            except Exception:  # noqa: BLE001
                self.option_strings = kwargs["option_strings"]
                msg = (
                    f"invalid type: {self.env_default!r} from environment variable "
                    f"{self.env!r} cannot be converted to {type!r}"
                )
                raise argparse.ArgumentError(self, msg) from None
            default = self.env_default
        elif self.env_default:
            default = self.env_default
'''))
ref("n-to-issubdir", (TO, '''    if path is None:
        return False

    path = Path(path).resolve()
    root = Path(root).resolve()

    return root == path or root in path.parents
''', '''    if path is not None:
        resolved_root = Path(root).resolve()
        resolved = Path(path).resolve()
        return resolved_root in (resolved, *resolved.parents)
    return False
'''))
ref("n-td-exit-finally", (TD, '''    def __enter__(self) -> Path:
        self._pwd = Path.cwd()
        os.chdir(self._name)
        self._tmpdir.__enter__()
        return self._name
''', '''    def __enter__(self) -> Path:
        self._pwd = Path.cwd()
        os.chdir(self.name)
        self._tmpdir.__enter__()
        return self.name
'''))
ref("n-td-given-mkdir", (TD, '''        if path is None:
            path = Path.cwd()
        self.name = path.absolute()
''', '''        directory = Path.cwd() if path is None else path
        self.name = directory.absolute()
'''))
ref("n-co-iter", (CO, '''        files = self.path / "info" / "files"
        with files.open() as f:
            return [line.strip() for line in f.readlines()]
''', '''        result = []
        with (self.path / "info" / "files").open() as f:
            for line in f:
                result.append(line.strip())
        return result
'''))
ref("n-lc-detect", (LC, '''        try:
            _find_musl_libc()
            logger.debug("Detected musl libc")
            return Libc.MUSL  # noqa: TRY300
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
''', '''        try:
            _find_musl_libc()
        except InvalidLibcError:
            logger.debug("Falling back to GNU libc")
            return Libc.GLIBC
        logger.debug("Detected musl libc")
        return Libc.MUSL
'''), (LC, '''        return {
            Libc.GLIBC: "manylinux",
            Libc.MUSL: "musllinux",
            Libc.ANDROID: "android",
        }[self]
''', '''        match self:
            case Libc.GLIBC:
                return "manylinux"
            case Libc.MUSL:
                return "musllinux"
        return "android"
'''))
ref("n-lc-findmusl-len", (LC, '''    try:
        (dl_path,) = list(Path("/lib").glob("libc.musl-*.so.1"))
    except ValueError:
        msg = "musl libc not detected"
        logger.debug("%s", msg)
        raise InvalidLibcError(msg) from None

    return dl_path
''', '''    candidates = list(Path("/lib").glob("libc.musl-*.so.1"))
    if len(candidates) == 1:
        return candidates[0]
    msg = "musl libc not detected"
    logger.debug("%s", msg)
    raise InvalidLibcError(msg) from None
'''))
ref("n-lc-version-helper", (LC, '''    return LibcVersion(int(match.group("major")), int(match.group("minor")))


def _get_glibc''', '''    return _version_from(match)


def _version_from(match: re.Match[str]) -> LibcVersion:
    major, minor = int(match.group("major")), int(match.group("minor"))
    return LibcVersion(major=major, minor=minor)


def _get_glibc'''), (LC, '''    return LibcVersion(int(m.group("major")), int(m.group("minor")))
''', '''    return _version_from(m)
'''))
ref("n-ar-subset", (AR, '''        if self.baseline != other.baseline:
            return False
        member_list = Architecture._member_list()
        return member_list.index(self) <= member_list.index(other)
''', '''        ranks = Architecture._member_list()
        return self.baseline == other.baseline and ranks.index(self) <= ranks.index(other)
'''), (AR, '''        if self.baseline != other.baseline:
            return False
        return other.is_subset(self)
''', '''        return other.is_subset(self)
'''))
ref("n-ar-detect-match", (AR, '''        if machine in {"x86_64", "i686"}:
            machine = {64: "x86_64", 32: "i686"}[bits]
        elif machine in {"aarch64", "armv8l"}:
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            machine = {64: "aarch64", 32: "armv7l"}[bits]
''', '''        families = {
            "x86_64": {64: "x86_64", 32: "i686"},
            "i686": {64: "x86_64", 32: "i686"},
            "aarch64": {64: "aarch64", 32: "armv7l"},
            # use armv7l policy for 64-bit arm kernel in 32-bit mode (armv8l)
            "armv8l": {64: "aarch64", 32: "armv7l"},
        }
        if machine in families:
            machine = families[machine][bits]
'''))
ref("n-el-verneed-helper", (EL, '''            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
            for vernaux in verneed_iter:
                yield (verneed.name, vernaux.name)
''', '''            if not _is_dynamic_loader(verneed.name):
                yield from ((verneed.name, vernaux.name) for vernaux in verneed_iter)
'''), (EL, '''def elf_find_versioned_symbols''', '''def _is_dynamic_loader(name: str) -> bool:
    return name in ("ld64.so.1", "ld64.so.2") or name.startswith("ld-linux")


def elf_find_versioned_symbols'''))
ref("n-el-symbols-iter", (EL, '''    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for UCS2 symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                "PyUnicodeUCS2_" in sym.name
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] == "STT_FUNC"
            ):
                yield sym.name
''', '''    # look for UCS2 symbols that are externally referenced
    for sym in _dynamic_symbols(elf):
        if "PyUnicodeUCS2_" not in sym.name:
            continue
        if sym["st_shndx"] != "SHN_UNDEF":
            continue
        if sym["st_info"]["type"] == "STT_FUNC":
            yield sym.name
'''), (EL, '''    if section := _get_section_by_type(elf, SymbolTableSection):
        # look for symbols that are externally referenced
        for sym in section.iter_symbols():
            if (
                sym.name in offending_symbol_names
                and sym["st_shndx"] == "SHN_UNDEF"
                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
            ):
                return True
    return False
''', '''    # look for symbols that are externally referenced
    return any(
        sym.name in offending_symbol_names
        and sym["st_shndx"] == "SHN_UNDEF"
        and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
        for sym in _dynamic_symbols(elf)
    )
'''), (EL, '''def elf_find_ucs2_symbols''', '''def _dynamic_symbols(elf: ELFFile):
    section = _get_section_by_type(elf, SymbolTableSection)
    if section:
        yield from section.iter_symbols()


def elf_find_ucs2_symbols'''))
ref("n-el-pyext", (EL, '''    modname = fn.name.split(".", 1)[0]
    module_init_f = {
        "init" + modname: 2,
        "PyInit_" + modname: 3,
        "_cffi_pypyinit_" + modname: 2,
    }

    sect = _get_section_by_type(elf, SymbolTableSection)
    if sect is None:
        return False, None

    for sym in sect.iter_symbols():
        if (
            sym.name in module_init_f
            and sym["st_shndx"] != "SHN_UNDEF"
            and sym["st_info"]["type"] == "STT_FUNC"
        ):
            return True, module_init_f[sym.name]

    return False, None
''', '''    sect = _get_section_by_type(elf, SymbolTableSection)
    if sect is not None:
        modname, _, _ = fn.name.partition(".")
        prefixes = (("init", 2), ("PyInit_", 3), ("_cffi_pypyinit_", 2))
        module_init_f = {prefix + modname: version for prefix, version in prefixes}
        for sym in sect.iter_symbols():
            version = module_init_f.get(sym.name)
            if version is None:
                continue
            defined = sym["st_shndx"] != "SHN_UNDEF"
            if defined and sym["st_info"]["type"] == "STT_FUNC":
                return True, version
    return False, None
'''))
ref("n-el-filterundef", (EL, '''    result = {}
    for lib, sym_list in symbols.items():
        intersection = sym_list & undef_symbols
        if intersection:
            result[lib] = sorted(intersection)
    return result
''', '''    return {
        lib: sorted(found)
        for lib, sym_list in symbols.items()
        if (found := sym_list.intersection(undef_symbols))
    }
'''))
ref("n-js-dispatch", (JS, '''        if isinstance(value, frozenset):
            return sorted(value)
        if isinstance(value, Enum):
            return repr(value)
        if isinstance(value, PurePath):
            return str(value)
        return super().default(value)
''', '''        for type_, convert in _CONVERTERS:
            if isinstance(value, type_):
                return convert(value)
        return super().default(value)
'''), (JS, '''class _CustomEncoder''', '''_CONVERTERS = (
    (frozenset, sorted),
    (Enum, repr),
    (PurePath, str),
)


class _CustomEncoder'''))
ref("n-ha-walrus", (HA, '''    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return hasher.hexdigest()
''', '''    while chunk := afile.read(blocksize):
        hasher.update(chunk)
    return hasher.hexdigest()
'''))
ref("n-ge-suffix-table", (GE, '''    if in_path.name.endswith(".whl"):
        return InWheelCtx(in_path, out_path)
    if in_path.name.endswith(".tar.bz2"):
        if out_path is not None:
            raise NotImplementedError
        return InCondaPkgCtx(in_path)
    msg = f"Invalid package: {in_path}. File formats supported: .whl, .tar.bz2"
    raise ValueError(msg)
''', '''    name = in_path.name
    is_wheel = name.endswith(".whl")
    is_conda = not is_wheel and name.endswith(".tar.bz2")
    if not is_wheel and not is_conda:
        msg = f"Invalid package: {in_path}. File formats supported: .whl, .tar.bz2"
        raise ValueError(msg)
    if is_conda and out_path is not None:
        raise NotImplementedError
    return InCondaPkgCtx(in_path) if is_conda else InWheelCtx(in_path, out_path)
'''))
ref("n-wt-record-row", (WT, '''        writer = csv.writer(record_file)
        for path in files():
            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''        writer = csv.writer(record_file)
        for dir_, _, names in walk(bdist_dir):
            for name in names:
                path = dir_ / name
                relative_path = path.relative_to(bdist_dir)
                is_record = relative_path == record_relpath
                hash_, size = ("", "") if is_record else _hash_and_size(path)
                writer.writerow((relative_path.as_posix(), hash_, size))
'''), (WT, '''    def files() -> Generator[Path]:
        for dir_, _, files in walk(bdist_dir):
            for file in files:
                yield dir_ / file

    def skip(path: Path) -> bool:
        """Wheel hashes every possible file."""
        return path == record_relpath

''', ''), (WT, '''def rewrite_record(''', '''def _hash_and_size(path: Path) -> tuple[str, str]:
    data = path.read_bytes()
    encoded = urlsafe_b64encode(hashlib.sha256(data).digest()).decode("ascii")
    return "sha256=" + encoded.rstrip("="), str(len(data))


def rewrite_record('''))
ref("n-wt-exit-extract", (WT, '''        try:
            if exc is None and self.out_wheel is not None:
                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
                except BaseException:
                    # don't leave a truncated wheel behind
                    self.out_wheel.unlink(missing_ok=True)
                    raise
        finally:
            super().__exit__(exc, value, tb)
''', '''        try:
            if exc is None and self.out_wheel is not None:
                self._write_wheel(self.out_wheel)
        finally:
            super().__exit__(exc, value, tb)

    def _write_wheel(self, out_wheel: Path) -> None:
        rewrite_record(self.name)
        timestamp = os.environ.get("SOURCE_DATE_EPOCH")
        date_time = (
            datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
        )
        try:
            dir2zip(self.name, out_wheel, self.zip_compression_level, date_time)
        except BaseException:
            # don't leave a truncated wheel behind
            out_wheel.unlink(missing_ok=True)
            raise
'''))
ref("n-wt-tags-helper", (WT, '''    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
    # Add new platform tags for each Python version, C-API combination
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
''', '''    updated_tags = _update_info_tags(in_info_tags, platforms, to_remove)
'''), (WT, '''def add_platforms(''', '''def _update_info_tags(
    tags: list[str],
    added: list[str],
    removed: list[str],
) -> list[str]:
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index("-".join(tag.split("-")[:2]) for tag in tags)
    unwanted = {f"{api}-{platform}" for api in pyc_apis for platform in removed}
    kept = [tag for tag in tags if tag not in unwanted]
    # Add new platform tags for each Python version, C-API combination
    wanted = [f"{api}-{platform}" for api in pyc_apis for platform in added]
    return kept + [tag for tag in wanted if tag not in tags]


def add_platforms('''))
ref("n-wt-fname", (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    prefix, _, _ = wheel_fname.rpartition("-")
    platform_tag = ".".join(sorted(fname_tags))
    out_wheel = out_dir / f"{prefix}-{platform_tag}{Path(wheel_fname).suffix}"
'''))
ref("n-wt-arch-flags", (WT, '''        found = False
        pure_ = platform == "any"
        pure = pure and pure_
        missed = missed or pure_
        if not pure_:
            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
                logger.warning(
                    "couldn't guess architecture for platform tag '%s'",
                    platform,
                )
                missed = True
''', '''        if platform == "any":
            missed = True
            continue
        pure = False
        matches = {arch.baseline for arch in Architecture if platform.endswith(f"_{arch.value}")}
        result |= matches
        if not matches:
            logger.warning(
                "couldn't guess architecture for platform tag '%s'",
                platform,
            )
            missed = True
'''))
ref("n-wt-libc-comp", (WT, '''    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
    if len(result) == 0:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    if len(result) > 1:
        msg = f"wheels with multiple libc are not supported, got {result}"
        raise WheelToolsError(msg)
    return result.pop()
''', '''    platforms = get_wheel_platforms(filename)
    result = {
        libc
        for libc in Libc
        if any(platform.startswith(libc.tag_prefix) for platform in platforms)
    }
    if not result:
        msg = "unknown libc used"
        raise WheelToolsError(msg)
    if len(result) != 1:
        msg = f"wheels with multiple libc are not supported, got {result}"
        raise WheelToolsError(msg)
    (found,) = result
    return found
'''))
ref("n-rp-graft-helper", (RP, '''                if src_path is None:
                    msg = (
                        "Cannot repair wheel, because required "
                        f'library "{soname}" could not be located'
                    )
                    raise ValueError(msg)

                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
''', '''                new_soname, new_path = _graft(soname, src_path, dest_dir, patcher)
                sbom_filepaths.append(src_path)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
'''), (RP, '''def strip_symbols(''', '''def _graft(
    soname: str,
    src_path: Path | None,
    dest_dir: Path,
    patcher: ElfPatcher,
) -> tuple[str, Path]:
    if src_path is None:
        msg = f'Cannot repair wheel, because required library "{soname}" could not be located'
        raise ValueError(msg)
    if not dest_dir.exists():
        dest_dir.mkdir()
    return copylib(src_path, dest_dir, patcher)


def strip_symbols('''))
ref("n-rp-internal-helper", (RP, '''        for _, path in soname_map.values():
            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''        _link_grafted(soname_map, patcher)
'''), (RP, '''def strip_symbols(''', '''def _link_grafted(soname_map: dict[str, tuple[str, Path]], patcher: ElfPatcher) -> None:
    renamed = {old: new for old, (new, _) in soname_map.items()}
    for _, path in soname_map.values():
        replacements = [(n, renamed[n]) for n in elf_read_dt_needed(path) if n in renamed]
        if not replacements:
            patcher.clear_rpath(path)
            continue
        patcher.set_rpath(path, "$ORIGIN")
        patcher.replace_needed(path, *replacements)


def strip_symbols('''))
ref("n-rp-split-libpython", (RP, '''            ext_libs = v[abis[0]].libs
            replacements: list[tuple[str, str]] = []
            for soname, src_path in ext_libs.items():
''', '''            ext_libs = v[abis[0]].libs
            if not ext_libs:
                continue
            replacements: list[tuple[str, str]] = []
            for soname, src_path in ext_libs.items():
'''), (RP, '''            if len(ext_libs) > 0:
                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)
                append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
''', '''            new_fn = fn
            if _path_is_script(fn):
                new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                patcher.update_elf_path(fn, new_fn)
                script_shims[fn] = new_fn
            new_rpath = Path("$ORIGIN", os.path.relpath(dest_dir, new_fn.parent))
            append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
'''))
ref("n-rp-copylib-names", (RP, '''    src_name = src_path.name
    base, ext = src_name.split(".", 1)
    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
''', '''    new_soname = _unique_soname(src_path.name, shorthash)
'''), (RP, '''def copylib(''', '''def _unique_soname(name: str, shorthash: str) -> str:
    base, ext = name.split(".", 1)
    suffix = "-" + shorthash
    if base.endswith(suffix):
        return name
    return base + suffix + "." + ext


def copylib('''))
ref("n-rp-rpath-tokens", (RP, '''    for token, target in token_replacements.items():
        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
    return rpath
''', '''    resolved = rpath
    for token, target in token_replacements.items():
        for pattern in ("$" + token, "${" + token + "}"):
            resolved = resolved.replace(pattern, target)
    return resolved
'''), (RP, '''    def is_valid_rpath(rpath: str) -> bool:
        return _is_valid_rpath(rpath, lib_dir, wheel_base_dir)

    old_rpaths = patcher.get_rpath(lib_name)
    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
''', '''    rpaths = [
        entry
        for entry in patcher.get_rpath(lib_name).split(":")
        if _is_valid_rpath(entry, lib_dir, wheel_base_dir)
    ]
    rpaths.append(rpath)
    rpaths = unique_by_index(rpaths)
'''))
ref("n-mr-check-table", (MR, '''        if requested_policy > wheel_abi.sym_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because of the '
                "presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.ucs_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it was '
                "compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.blacklist_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on black-listed symbols."
            )
            parser.error(msg)

        if requested_policy > wheel_abi.machine_policy:
            msg = (
                f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
                "depends on unsupported ISA extensions."
            )
            parser.error(msg)
''', '''        constraints = (
            (
                wheel_abi.sym_policy,
                "of the presence of too-recent versioned symbols. You'll need to compile "
                "the wheel on an older toolchain.",
            ),
            (
                wheel_abi.ucs_policy,
                "it was compiled against a UCS2 build of Python. You'll need to compile "
                "the wheel against a wide-unicode build of Python.",
            ),
            (wheel_abi.blacklist_policy, "it depends on black-listed symbols."),
            (wheel_abi.machine_policy, "it depends on unsupported ISA extensions."),
        )
        for policy, reason in constraints:
            if requested_policy > policy:
                parser.error(f'cannot repair "{wheel_file}" to "{plat}" ABI because {reason}')
'''))
ref("n-mr-resolve-plat", (MR, '''        policies = wheel_abi.policies
        if plat_base == "auto":
            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
        requested_policy = policies.get_policy_by_name(plat)
''', '''        plat = _target_platform(wheel_abi, plat_base)
        requested_policy = wheel_abi.policies.get_policy_by_name(plat)
'''), (MR, '''def execute(''', '''def _target_platform(wheel_abi, plat_base: str) -> str:
    policies = wheel_abi.policies
    if plat_base != "auto":
        return f"{plat_base}_{policies.architecture.value}"
    # if we're getting 'linux', override
    is_linux = wheel_abi.overall_policy == policies.linux
    return (policies.lowest if is_linux else wheel_abi.overall_policy).name


def execute('''))
ref("n-mr-abis-order", (MR, '''        abis = [requested_policy.name, *requested_policy.aliases]
        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:
            logger.info(
                (
                    "Wheel is eligible for a higher priority tag. "
                    "You requested %s but I have found this wheel is "
                    "eligible for %s."
                ),
                plat,
                wheel_abi.overall_policy.name,
            )
            abis = [
                wheel_abi.overall_policy.name,
                *wheel_abi.overall_policy.aliases,
                *abis,
            ]
''', '''        targets = [requested_policy]
        best = wheel_abi.overall_policy
        if requested_policy < best and not args.ONLY_PLAT:
            logger.info(
                "Wheel is eligible for a higher priority tag. "
                "You requested %s but I have found this wheel is "
                "eligible for %s.",
                plat,
                best.name,
            )
            targets.insert(0, best)
        abis = []
        for target in targets:
            abis.append(target.name)
            abis.extend(target.aliases)
'''))
ref("n-mr-arch-helper", (MR, '''    requested_architecture: Architecture | None = None

    plat_base: str = args.PLAT
    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    plat_base, requested_architecture = _split_platform(args.PLAT)
'''), (MR, '''def execute(''', '''def _split_platform(plat: str) -> tuple[str, Architecture | None]:
    for architecture in Architecture:
        suffix = f"_{architecture.value}"
        if plat.endswith(suffix):
            return plat.removesuffix(suffix), architecture
    return plat, None


def execute('''))
ref("n-ms-narrow-loop", (MS, '''    if args.JSON:
        _output_json(fn, winfo)
        return 0

    policies = winfo.policies
''', '''    if args.JSON:
        _output_json(fn, winfo)
    else:
        _output_text(fn, winfo, args.verbose)
    return 0


def _output_text(fn: str, winfo: WheelAbIInfo, verbose: int) -> None:
    from auditwheel import json

    policies = winfo.policies
'''), (MS, '''            "#fpectl-builds-vs-no-fpectl-builds)",
        )
        if args.verbose < 1:
            return 0
''', '''            "#fpectl-builds-vs-no-fpectl-builds)",
        )
        if verbose < 1:
            return
'''), (MS, '''            "manylinux/musllinux tags.",
        )
        if args.verbose < 1:
            return 0
''', '''            "manylinux/musllinux tags.",
        )
        if verbose < 1:
            return
'''), (MS, '''        printp("This wheel depends on unsupported ISA extensions.")
        if args.verbose < 1:
            return 0
''', '''        printp("This wheel depends on unsupported ISA extensions.")
        if verbose < 1:
            return
'''), (MS, '''            "a recent manylinux image.",
        )
        if args.verbose < 1:
            return 0
''', '''            "a recent manylinux image.",
        )
        if verbose < 1:
            return
'''), (MS, '''                    printp(f"From {key}: " + ", ".join(sorted(blacklist[key])))
    return 0
''', '''                    printp(f"From {key}: " + ", ".join(sorted(blacklist[key])))
'''))
ref("n-ms-json-upgrades", (MS, '''    policy_upgrades: dict[str, dict[str, Any]] = {}
    for p in policies:
        if p > winfo.overall_policy:
            entry: dict[str, Any] = {}
            p_libs = winfo.external_refs[p.name].libs
            if len(p_libs):
                entry["libs_to_eliminate"] = sorted(p_libs.keys())
            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry["blacklisted_symbols"] = {k: sorted(v) for k, v in sorted(blacklist.items())}
            if entry:
                policy_upgrades[p.name] = entry
''', '''    policy_upgrades: dict[str, dict[str, Any]] = {}
    for p in policies:
        if not p > winfo.overall_policy:
            continue
        if entry := _upgrade_entry(winfo.external_refs[p.name]):
            policy_upgrades[p.name] = entry
'''), (MS, '''def _output_json(''', '''def _upgrade_entry(reference: Any) -> dict[str, Any]:
    entry: dict[str, Any] = {}
    if reference.libs:
        entry["libs_to_eliminate"] = sorted(reference.libs)
    if reference.blacklist:
        entry["blacklisted_symbols"] = {
            lib: sorted(reference.blacklist[lib]) for lib in sorted(reference.blacklist)
        }
    return entry


def _output_json('''))
ref("n-wa-graft-count", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    if requested_policy_base_name in (None, "auto"):
        candidates = [e for e in external_refs.values() if e.policy != policies.linux]
    else:
        prefix = f"{requested_policy_base_name}_"
        candidates = [e for e in external_refs.values() if e.policy.name.startswith(prefix)]
    graft_lib_count = min((len(e.libs) for e in candidates), default=0)
'''), (WA, '''    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
''', '''    def best_policy(accept) -> Policy:
        return max((e.policy for e in external_refs.values() if accept(e)), default=policies.linux)

    ref_policy = best_policy(lambda e: not e.libs)
    blacklist_policy = best_policy(lambda e: not e.blacklist)
'''))
ref("n-wa-machine-helper", (WA, '''        if soname is not None:
            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies.linux.priority < found_policy.priority:
''', '''        if soname is not None:
            whitelisting = [policy for policy in policies if soname in policy.whitelist]
            found_policy = max([policies.linux, *whitelisting])
            if found_policy.priority > policies.linux.priority:
'''))
ref("n-wa-update-branches", (WA, '''            for lib, symbols in v.blacklist.items():
                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
''', '''            known = d[k].blacklist
            for lib, symbols in v.blacklist.items():
                known[lib] = sorted({*known.get(lib, ()), *symbols})
'''))
ref("n-wa-symbolpol", (WA, '''        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            ext_symbols = external_versioned_symbols.get(soname, {})
            for dependency, versions in ext_symbols.items():
                policy_symbols[dependency] |= versions
'''))
ref("n-wa-elfdata-purelib", (WA, '''            if any(p.name == "purelib" for p in fn.parents):
                shared_libraries_in_purelib.append(so_name)
''', '''            in_purelib = "purelib" in [parent.name for parent in fn.parents]
            if in_purelib:
                shared_libraries_in_purelib.append(so_name)
'''))
ref("n-wa-elfdata-libc", (WA, '''                if elftree.libc is not None:
                    if libc is None:
                        log.info("setting libc to %s", elftree.libc)
                        libc = elftree.libc
                    elif libc != elftree.libc:
                        log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                        continue
''', '''                if libc is None and elftree.libc is not None:
                    log.info("setting libc to %s", elftree.libc)
                    libc = elftree.libc
                if elftree.libc not in (None, libc):
                    log.warning("ignoring: %s with %s libc", so_name, elftree.libc)
                    continue
'''))
ref("n-wa-fixup-guard", (WA, '''        need_resolution = any(
            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
        )
        if not need_resolution:
            continue
        reference = _get_reference(elf_executable.realpath)
        if reference is None:
            continue
''', '''        if all(lib.realpath is not None for lib in elf_executable.libraries.values()):
            continue
        if (reference := _get_reference(elf_executable.realpath)) is None:
            continue
'''))
ref("n-ld-loop-skip", (LD, '''        if soname in _all_libs:
            continue
        if soname in _excluded_libs:
            continue
        if any(fnmatch(soname, e) for e in exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
''', '''        if soname in _all_libs or soname in _excluded_libs:
            continue
        if _is_excluded(soname, exclude):
            log.info("Excluding %s", soname)
            _excluded_libs.add(soname)
            continue
'''), (LD, '''        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):
''', '''        if realpath is not None and _is_excluded(str(realpath), exclude):
'''), (LD, '''def ldd(
''', '''def _is_excluded(name: str, patterns: frozenset[str]) -> bool:
    return any(fnmatch(name, pattern) for pattern in patterns)


def ldd(
'''))
ref("n-ld-guess-libc", (LD, '''        if libc is None:
            # try the filename as a last resort
            if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
                libc = Libc.MUSL
            elif path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
                # before python 3.11, musl was also using gnu
                soabi = path.stem.split(".")[-1].split("-")
                valid_python = tuple(f"3{minor}" for minor in range(11, 100))
                if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
                    libc = Libc.GLIBC
''', '''        if libc is None:
            # try the filename as a last resort
            libc = _libc_from_name(path)
'''), (LD, '''def ldd(
''', '''def _libc_from_name(path: Path) -> Libc | None:
    if path.name.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
        return Libc.MUSL
    if not path.name.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
        return None
    # before python 3.11, musl was also using gnu
    soabi = path.stem.split(".")[-1].split("-")
    valid_python = tuple(f"3{minor}" for minor in range(11, 100))
    if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
        return Libc.GLIBC
    return None


def ldd(
'''))
ref("n-ld-findlib", (LD, '''        if target.exists():
            with open(target, "rb") as f:
                libelf = ELFFile(f)
                if platform.is_compatible(_get_platform(libelf)):
                    return target, path
''', '''        if not target.exists():
            continue
        with target.open("rb") as f:
            found = _get_platform(ELFFile(f))
        if platform.is_compatible(found):
            return target, path
'''))
ref("n-ld-parse-split", (LD, '''    ldpaths: list[str] = []
    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":
            # The ldso treats "" paths as $PWD.
            ldpath_ = os.getcwd()
        elif re.search(ORIGIN_RE, ldpath):
            if not path:
                msg = "can't expand $ORIGIN without a path"
                raise ValueError(msg)
            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
        else:
            ldpath_ = root + ldpath
        ldpaths.append(normpath(ldpath_))
    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]
''', '''    def expand(ldpath: str) -> str:
        if not ldpath:
            # The ldso treats "" paths as $PWD.
            return os.getcwd()
        if not ORIGIN_RE.search(ldpath):
            return root + ldpath
        if not path:
            msg = "can't expand $ORIGIN without a path"
            raise ValueError(msg)
        return ORIGIN_RE.sub(os.path.dirname(os.path.abspath(path)), ldpath)

    ldpaths = [normpath(expand(ldpath)) for ldpath in str_ldpaths.split(":")]
    return list(filter(os.path.isdir, dedupe(ldpaths)))
'''))
ref("n-ld-conf-include", (LD, '''                if line.startswith("include "):
                    line = line[8:]
                    if line[0] == "/":
                        line = root + line.lstrip("/")
                    else:
                        line = os.path.dirname(ldso_conf) + "/" + line
                    log.debug("%s  glob: %s", dbg_pfx, line)
                    for path in sorted(glob.glob(line)):
                        paths += parse_ld_so_conf(path, root=root, _first=False)
                else:
                    paths += [normpath(root + line)]
''', '''                if not line.startswith("include "):
                    paths.append(normpath(root + line))
                    continue
                pattern = line[len("include ") :]
                if pattern[0] == "/":
                    pattern = root + pattern.lstrip("/")
                else:
                    pattern = f"{os.path.dirname(ldso_conf)}/{pattern}"
                log.debug("%s  glob: %s", dbg_pfx, pattern)
                for included in sorted(glob.glob(pattern)):
                    paths.extend(parse_ld_so_conf(included, root=root, _first=False))
'''))
ref("n-ld-platform-arm", (LD, '''    elif base_arch == Architecture.armv7l:
        if (flags & E_FLAGS.EF_ARM_EABIMASK) != E_FLAGS.EF_ARM_EABI_VER5:
            error_msg = "Invalid ARM EABI version for armv7l"
        elif (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) != E_FLAGS.EF_ARM_ABI_FLOAT_HARD:
            error_msg = "armv7l shall use hard-float"
        if error_msg is not None:
            base_arch = None
''', '''    elif base_arch == Architecture.armv7l:
        eabi5 = (flags & E_FLAGS.EF_ARM_EABIMASK) == E_FLAGS.EF_ARM_EABI_VER5
        hard_float = (flags & E_FLAGS.EF_ARM_ABI_FLOAT_HARD) == E_FLAGS.EF_ARM_ABI_FLOAT_HARD
        if not eabi5:
            base_arch, error_msg = None, "Invalid ARM EABI version for armv7l"
        elif not hard_float:
            base_arch, error_msg = None, "armv7l shall use hard-float"
'''))
ref("n-po-libs-sorted", (PO, '''            pol_ext_deps: dict[str, Path | None] = {}
            for lib in sorted(needed_external_libs):
                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
                    continue
                pol_ext_deps[lib] = lddtree.libraries[lib].realpath
            ret[p.name] = ExternalReference(pol_ext_deps, blacklist, p)
''', '''            pol_ext_deps: dict[str, Path | None] = {}
            for lib in sorted(needed_external_libs):
                realpath = lddtree.libraries[lib].realpath
                if not is_subdir(realpath, wheel_path):
                    pol_ext_deps[lib] = realpath
                else:
                    # we didn't filter libs that resolved via RPATH out
                    # earlier because we wanted to make sure to pick up
                    # our elf's indirect dependencies. But now we want to
                    # filter these ones out, since they're not "external".
                    logger.debug("RPATH FTW: %s", lib)
            ret[p.name] = ExternalReference(libs=pol_ext_deps, blacklist=blacklist, policy=p)
'''))
ref("n-po-req-stack", (PO, '''            libs = libs.copy()
            reqs = set()
            while libs:
                lib = libs.pop()
                reqs.add(lib)
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
                        libs.add(dep)
            return reqs
''', '''            pending = list(libs)
            reqs = set()
            while pending:
                lib = pending.pop()
                if lib in reqs:
                    continue
                reqs.add(lib)
                pending.extend(filter_libs(lddtree.libraries[lib].needed, whitelist))
            return reqs
'''))
ref("n-po-filter-pred", (PO, '''            for lib in libs:
                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
                    # always exclude ELF dynamic linker/loader
                    # 'ld64.so.2' on s390x
                    # 'ld64.so.1' on ppc64le
                    # 'ld-linux*' on other platforms
                    continue
                if self.libc == Libc.ANDROID and LIBPYTHON_RE.match(lib):
                    # libpython dependencies are normal on Android.
                    continue
                if lib in whitelist:
                    # exclude any libs in the whitelist
                    continue
                yield lib
''', '''            for lib in libs:
                # always exclude ELF dynamic linker/loader
                is_loader = "ld-linux" in lib or lib in {"ld64.so.2", "ld64.so.1"}
                # libpython dependencies are normal on Android.
                is_libpython = self.libc == Libc.ANDROID and bool(LIBPYTHON_RE.match(lib))
                if not (is_loader or is_libpython or lib in whitelist):
                    yield lib
'''))
ref("n-po-satisfied", (PO, '''            policy_satisfied = True
            for name in set(required_vers) & set(policy_sym_vers):
                if not required_vers[name].issubset(policy_sym_vers[name]):
                    for symbol in required_vers[name] - policy_sym_vers[name]:
                        logger.debug(
                            "Package requires %s, incompatible with policy %s which requires %s",
                            symbol,
                            policy_name,
                            policy_sym_vers[name],
                        )
                    policy_satisfied = False
            return policy_satisfied
''', '''            satisfied = True
            for name in required_vers.keys() & policy_sym_vers.keys():
                allowed = policy_sym_vers[name]
                for symbol in required_vers[name] - allowed:
                    logger.debug(
                        "Package requires %s, incompatible with policy %s which requires %s",
                        symbol,
                        policy_name,
                        allowed,
                    )
                    satisfied = False
            return satisfied
'''))
ref("n-po-init-build", (PO, '''            if arch.value in policy["symbol_versions"] or policy["name"] == "linux":
                name = f"{policy['name']}_{base_arch}"
                if policy["name"] != "linux":
                    symbol_versions = {
                        k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()
                    }
                else:
                    symbol_versions = {}
''', '''            is_linux = policy["name"] == "linux"
            if is_linux or arch.value in policy["symbol_versions"]:
                name = f"{policy['name']}_{base_arch}"
                versions = {} if is_linux else policy["symbol_versions"][base_arch]
                symbol_versions = {k: frozenset(v) for k, v in versions.items()}
'''))
ref("n-po-android-next", (PO, '''            for p in self._policies:
                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
                    # Rename the policy to match the existing tag, and remove all other policies.
                    self._policies = [self.linux, replace(p, name=platform)]
                    break
            else:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
''', '''            match = next(
                (
                    p
                    for p in self._policies
                    if p.name.startswith("android") and android_api_level(p.name) <= api_level
                ),
                None,
            )
            if match is None:
                # The minimum API level is 21, which was the first version to be officially
                # supported by Python (see PEP 738).
                msg = f"no Android policies match the platform tag {platform!r}"
                raise ValueError(msg)
            # Rename the policy to match the existing tag, and remove all other policies.
            self._policies = [self.linux, replace(match, name=platform)]
'''))
ref("n-po-replaceplat", (PO, '''    if name.startswith("manylinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    if name.startswith("musllinux_"):
        return ["linux_" + "_".join(name.split("_")[3:])]
    return ["linux_" + "_".join(name.split("_")[1:])]
''', '''    parts = name.split("_")
    skipped = 3 if name.startswith(("manylinux_", "musllinux_")) else 1
    return ["linux_" + "_".join(parts[skipped:])]
'''))
ref("n-po-musl-whitelist", (PO, '''    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
''', '''    result = set()
    for soname in whitelist:
        new_soname = soname
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
        result.add(new_soname)
    return frozenset(result)
'''))
