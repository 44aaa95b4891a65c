# hold-out batch q-
ref("q-mr-arch-split", (MR, '''    requested_architecture: Architecture | None = None

    plat_base: str = args.PLAT
    for a in Architecture:
        suffix = f"_{a.value}"
        if plat_base.endswith(suffix):
            plat_base = plat_base[: -len(suffix)]
            requested_architecture = a
            break
''', '''    plat_base, requested_architecture = _split_platform(args.PLAT)
'''), (MR, '''def execute(args''', '''def _split_platform(plat: str) -> tuple[str, Architecture | None]:
    for a in Architecture:
        suffix = f"_{a.value}"
        if plat.endswith(suffix):
            return plat.removesuffix(suffix), a
    return plat, None


def execute(args'''))
ref("q-mr-pure-copy", (MR, '''            if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                dest_fname = wheel_dir / wheel_file.name
                if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
                    shutil.copy2(wheel_file, dest_fname)
                # process next wheel
                continue
            return 1
''', '''            if not (is_pure_python and args.ALLOW_PURE_PY_WHEEL):
                return 1
            _copy_unless_same(wheel_file, wheel_dir / wheel_file.name)
            # process next wheel
            continue
'''), (MR, '''def execute(args''', '''def _copy_unless_same(source: Path, dest: Path) -> None:
    if dest.is_file() and dest.samefile(source):
        return
    shutil.copy2(source, dest)


def execute(args'''))
ref("q-mr-requested-plat", (MR, '''        if plat_base == "auto":
            if wheel_abi.overall_policy == policies.linux:
                # we're getting 'linux', override
                plat = policies.lowest.name
            else:
                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
''', '''        if plat_base != "auto":
            plat = f"{plat_base}_{policies.architecture.value}"
        elif wheel_abi.overall_policy == policies.linux:
            # we're getting 'linux', override
            plat = policies.lowest.name
        else:
            plat = wheel_abi.overall_policy.name
'''))
ref("q-mr-kwargs", (MR, '''            wheel_abi = analyze_wheel_abi(
                libc,
                arch,
                wheel_file,
                exclude,
                disable_isa_ext_check''', '''            wheel_abi = analyze_wheel_abi(
                libc=libc,
                architecture=arch,
                wheel_fn=wheel_file,
                exclude=exclude,
                disable_isa_ext_check'''))
ref("q-mr-mkdir", (MR, '''        if not wheel_dir.exists():
            wheel_dir.mkdir(parents=True)
''', '''        wheel_dir.mkdir(parents=True, exist_ok=True)
'''))
ref("q-wt-arch-next", (WT, '''    result: set[Libc] = set()
    for platform in get_wheel_platforms(filename):
        for libc in Libc:
            if platform.startswith(libc.tag_prefix):
                result.add(libc)
    if len(result) == 0:
''', '''    platforms = get_wheel_platforms(filename)
    result = {
        libc for libc in Libc if any(platform.startswith(libc.tag_prefix) for platform in platforms)
    }
    if not result:
'''))
ref("q-wt-record-entry", (WT, '''        for path in files():
            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''        for path in files():
            relative_path = path.relative_to(bdist_dir)
            hash_, size = ("", "") if skip(relative_path) else _hash_and_size(path)
            writer.writerow((relative_path.as_posix(), hash_, size))
'''), (WT, '''class InWheel(InT''', '''def _hash_and_size(path: Path) -> tuple[str, str]:
    data = path.read_bytes()
    encoded = urlsafe_b64encode(hashlib.sha256(data).digest())
    return "sha256=" + encoded.rstrip(b"=").decode("ascii"), str(len(data))


class InWheel(InT'''))
ref("q-wt-timestamp", (WT, '''                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
''', '''                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                date_time = (
                    datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
                )
                try:
'''))
ref("q-wt-any", (WT, '''    if "any" in fname_tags and len(fname_tags) > 1:
        fname_tags.remove("any")
        to_remove.append("any")
        definitely_not_purelib = True
''', '''    definitely_not_purelib = len(fname_tags) > 1 and "any" in fname_tags
    if definitely_not_purelib:
        fname_tags.remove("any")
        to_remove.append("any")
'''), (WT, '''    definitely_not_purelib = False

''', ''))
ref("q-wt-fname", (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    prefix, _ = wheel_fname.rsplit("-", maxsplit=1)
    plat = ".".join(sorted(fname_tags))
    ext = Path(wheel_fname).suffix
    out_wheel = out_dir / f"{prefix}-{plat}{ext}"
'''))
ref("q-wt-retags", (WT, '''    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
''', '''    def combine(plats: Iterable[str]) -> list[str]:
        return [f"{pyc_api}-{plat}" for pyc_api in pyc_apis for plat in plats]

    unwanted_tags = set(combine(to_remove))
    kept_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags = kept_tags + [tag for tag in combine(platforms) if tag not in in_info_tags]
'''))
ref("q-wt-iterfiles", (WT, '''        record = record_name.read_text()
        reader = csv.reader(r for r in record.splitlines())
        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        lines = record_name.read_text().splitlines()
        for filename, *_ in csv.reader(lines):
            yield Path(filename)
'''))
ref("q-rp-copylib-name", (RP, '''    src_name = src_path.name
    base, ext = src_name.split(".", 1)
    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name

    dest_path = dest_dir / new_soname
''', '''    new_soname = _hashed_name(src_path.name, shorthash)
    dest_path = dest_dir / new_soname
'''), (RP, '''def copylib(''', '''def _hashed_name(name: str, shorthash: str) -> str:
    base, ext = name.split(".", 1)
    suffix = f"-{shorthash}"
    if base.endswith(suffix):
        return name
    return f"{base}{suffix}.{ext}"


def copylib('''))
ref("q-rp-internal-comp", (RP, '''            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''            # TODO perf, we already read those at some point
            replacements = [
                (n, soname_map[n][0]) for n in elf_read_dt_needed(path) if n in soname_map
            ]
            if not replacements:
                patcher.clear_rpath(path)
                continue
            patcher.set_rpath(path, "$ORIGIN")
            patcher.replace_needed(path, *replacements)
'''))
ref("q-rp-strip-early", (RP, '''            libs_to_strip = [path for (_, path) in soname_map.values()]
            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(libs_to_strip, extensions))
''', '''            to_strip = [path for _, path in soname_map.values()]
            to_strip.extend(script_shims.get(path, path) for path in external_refs_by_fn)
            strip_symbols(to_strip)
'''))
ref("q-rp-sbom-fn", (RP, '''        if sbom_data:
            sbom_dir = Path(dist_info_dirs[0], "sboms")
            sbom_dir.mkdir(exist_ok=True)
            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))

    return output_wheel
''', '''        if sbom_data:
            _write_sbom(dist_info_dirs[0], sbom_data)

    return output_wheel


def _write_sbom(dist_info_dir: Path, sbom_data: dict[str, Any]) -> None:
    sbom_path = dist_info_dir / "sboms" / "auditwheel.cdx.json"
    sbom_path.parent.mkdir(exist_ok=True)
    sbom_path.write_text(json.dumps(sbom_data))
'''), (RP, "from typing import TYPE_CHECKING", "from typing import TYPE_CHECKING, Any"))
ref("q-rp-libs-loop-order", (RP, '''                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
''', '''                dest_dir.mkdir(exist_ok=True)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                sbom_filepaths.append(src_path)
                replacements.append((soname, new_soname))
                soname_map[soname] = new_soname, new_path
'''))

ref("q-pa-get-rpath", (PA, '''        key = file_name.resolve(strict=True)
        if update_info := self._updates.get(key, None):
            if update_info.rpath is not None:
                return update_info.rpath
            if update_info.clear_rpath:
                return ""
        return self.get_rpath_direct(file_name)
''', '''        update_info = self._updates.get(file_name.resolve(strict=True))
        if update_info is None:
            return self.get_rpath_direct(file_name)
        if update_info.rpath is not None:
            return update_info.rpath
        return "" if update_info.clear_rpath else self.get_rpath_direct(file_name)
'''))
ref("q-pa-pending", (PA, '''            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
''', '''            if update_info.is_pending():
                errors.append(filepath)
'''), (PA, '''    clear_rpath: bool = False
''', '''    clear_rpath: bool = False

    def is_pending(self) -> bool:
        return bool(
            self.soname is not None
            or self.rpath is not None
            or self.remove_needed
            or self.replace_needed
            or self.clear_rpath
        )
'''))
ref("q-pa-needed-args", (PA, '''            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
''', '''            for soname in update_info.remove_needed:
                args += ["--remove-needed", soname]
            for old, new in update_info.replace_needed:
                args += ["--replace-needed", old, new]
'''))
ref("q-pa-rpathflag", (PA, '''                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
''', '''                # Android supports only RUNPATH, not RPATH.
                if not self.platform.startswith("android"):
                    args.append("--force-rpath")
                args.extend(["--set-rpath", update_info.rpath])
'''))
ref("q-pa-while", (PA, '''        elf_files = list(self._updates.keys())
        for filepath in elf_files:
            # prevent re-applying by removing from self._updates
            update_info = self._updates.pop(filepath)
            args = []
''', '''        for filepath in tuple(self._updates):
            # prevent re-applying by removing from self._updates
            update_info = self._updates.pop(filepath)
            args: list[str] = []
'''))
ref("q-pa-version", (PA, '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    if m and tuple(int(x) for x in m.group(1).split(".")) >= (0, 14, 5):
        return Path(patchelf_path)
    msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
    raise ValueError(msg)
''', '''    m = re.match(r"patchelf\\s+(\\d+(.\\d+(.\\d+)?)?)", version)
    found = tuple(map(int, m.group(1).split("."))) if m else ()
    if found < (0, 14, 5):
        msg = f"{version.strip()} found. auditwheel repair requires patchelf >= 0.14.5."
        raise ValueError(msg)
    return Path(patchelf_path)
'''))
ref("q-to-walk-key", (TO, '''        dirnames.sort()
        # recurse into any top-level .dist-info subdirectory last
        if dirpath == topdir:
            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''        # recurse into any top-level .dist-info subdirectory last
        if dirpath == topdir:
            dirnames.sort(key=lambda dir_: (dir_.endswith(".dist-info"), dir_))
        else:
            dirnames.sort()
'''))
ref("q-to-zip-mode", (TO, '''            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''            mode = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif mode:
                # only keep permission bits, at least read/write for current user
                extracted_path.chmod((mode & 0o777) | 0o600)
'''))
ref("q-to-dir2zip-entry", (TO, '''                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
                zinfo.date_time = date_time_args
                zinfo.compress_type = compression
                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
''', '''                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
                zinfo.date_time = date_time_args
                z.writestr(zinfo, fname.read_bytes(), compression, zip_compression_level)
'''))
ref("q-to-clip", (TO, '''    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
''', '''    earliest = (1980, 1, 1, 0, 0, 0)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < earliest:
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = earliest
'''))
ref("q-wa-extlibs-setdefault", (WA, '''            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
''', '''            if realpath:
                result.setdefault(realpath, libname)
    return result
'''))
ref("q-wa-versions-comp", (WA, '''            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''            for dependency, versions in ext_symbols.items():
                policy_symbols[dependency] |= versions
'''))
ref("q-wa-sym-in", (WA, '''        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''        for soname in external_ref.libs:
            ext_symbols = external_versioned_symbols.get(soname)
            if ext_symbols is None:
                continue
            for k, v in ext_symbols.items():
                policy_symbols[k].update(v)
'''))
ref("q-wa-needed-loop", (WA, '''        needed_libs = {
            lib
            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
        }
''', '''        needed_libs: set[str] = set()
        for elf_tree in (*full_elftree.values(), *nonpy_elftree.values()):
            needed_libs.update(elf_tree.needed)
'''))
ref("q-wa-found-policy", (WA, '''            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies''', '''            found_policy = max(
                (policy for policy in policies if soname in policy.whitelist),
                default=policies.linux,
            )
            if policies'''))
