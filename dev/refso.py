# hold-out batch o-
ref("o-wt-record-rows", (WT, '''    def files() -> Generator[Path]:
        for dir_, _, files in walk(bdist_dir):
            for file in files:
                yield dir_ / file

    def skip(path: Path) -> bool:
        """Wheel hashes every possible file."""
        return path == record_relpath

    with record_path.open("w+", newline="", encoding="utf-8") as record_file:
        writer = csv.writer(record_file)
        for path in files():
            relative_path = path.relative_to(bdist_dir)
            if skip(relative_path):
                hash_ = ""
                size = ""
            else:
                data = path.read_bytes()
                digest = hashlib.sha256(data).digest()
                sha256 = urlsafe_b64encode(digest).rstrip(b"=").decode("ascii")
                hash_ = f"sha256={sha256}"
                size = f"{len(data)}"
            record_path_ = path.relative_to(bdist_dir).as_posix()
            writer.writerow((record_path_, hash_, size))
''', '''    def record_row(path: Path) -> tuple[str, str, str]:
        relative_path = path.relative_to(bdist_dir)
        name = relative_path.as_posix()
        if relative_path == record_relpath:
            # RECORD itself is neither hashed nor measured
            return name, "", ""
        content = path.read_bytes()
        encoded = urlsafe_b64encode(hashlib.sha256(content).digest())
        digest = encoded.rstrip(b"=").decode("ascii")
        return name, "sha256=" + digest, str(len(content))

    with record_path.open("w+", newline="", encoding="utf-8") as record_file:
        writer = csv.writer(record_file)
        for dir_, _, names in walk(bdist_dir):
            for name in names:
                writer.writerow(record_row(dir_ / name))
'''))
ref("o-wt-epoch-helper", (WT, '''                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
''', '''                date_time = _source_date_epoch()
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
'''), (WT, '''class InWheel(InTemporaryDirectory):
''', '''def _source_date_epoch() -> datetime | None:
    """Timestamp requested through SOURCE_DATE_EPOCH, None when unset or empty"""
    timestamp = os.environ.get("SOURCE_DATE_EPOCH", "")
    if not timestamp:
        return None
    return datetime.fromtimestamp(int(timestamp), tz=timezone.utc)


class InWheel(InTemporaryDirectory):
'''))
ref("o-wt-exit-guard", (WT, '''        try:
            if exc is None and self.out_wheel is not None:
                rewrite_record(self.name)
                date_time = None
                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
                if timestamp:
                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
                try:
                    dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
                except BaseException:
                    # don't leave a truncated wheel behind
                    self.out_wheel.unlink(missing_ok=True)
                    raise
        finally:
            super().__exit__(exc, value, tb)
''', '''        try:
            if exc is None:
                self._write_wheel()
        finally:
            super().__exit__(exc, value, tb)

    def _write_wheel(self) -> None:
        out_wheel = self.out_wheel
        if out_wheel is None:
            return
        rewrite_record(self.name)
        timestamp = os.environ.get("SOURCE_DATE_EPOCH")
        date_time = (
            datetime.fromtimestamp(int(timestamp), tz=timezone.utc) if timestamp else None
        )
        try:
            dir2zip(self.name, out_wheel, self.zip_compression_level, date_time)
        except BaseException:
            # don't leave a truncated wheel behind
            out_wheel.unlink(missing_ok=True)
            raise
'''))
ref("o-wt-iter-csv", (WT, '''        record = record_name.read_text()
        reader = csv.reader(r for r in record.splitlines())
        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        lines = record_name.read_text().splitlines()
        for filename, *_ in csv.reader(lines):
            yield Path(filename)
'''))
ref("o-wt-iter-yieldfrom", (WT, '''        record = record_name.read_text()
        reader = csv.reader(r for r in record.splitlines())
        for row in reader:
            filename = row[0]
            yield Path(filename)
''', '''        rows = csv.reader(record_name.read_text().splitlines())
        yield from map(Path, (row[0] for row in rows))
'''))
ref("o-wt-add-tags-fn", (WT, '''    in_info_tags = [tag for name, tag in info.items() if name == "Tag"]
    logger.info("Previous WHEEL info tags: %s", ", ".join(in_info_tags))
    # Python version, C-API version combinations
    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
    # Add new platform tags for each Python version, C-API combination
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
    updated_tags += new_tags
    if updated_tags != in_info_tags:
''', '''    in_info_tags = [tag for name, tag in info.items() if name == "Tag"]
    logger.info("Previous WHEEL info tags: %s", ", ".join(in_info_tags))
    updated_tags = _updated_info_tags(in_info_tags, platforms, to_remove)
    if updated_tags != in_info_tags:
'''), (WT, '''def add_platforms(
''', '''def _updated_info_tags(
    tags: list[str],
    add: list[str],
    remove: list[str],
) -> list[str]:
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(["-".join(tag.split("-")[:2]) for tag in tags])
    unwanted = {f"{api}-{platform}" for api in pyc_apis for platform in remove}
    wanted = [f"{api}-{platform}" for api in pyc_apis for platform in add]
    kept = [tag for tag in tags if tag not in unwanted]
    return kept + [tag for tag in wanted if tag not in tags]


def add_platforms(
'''))
ref("o-wt-add-fnametags-loop", (WT, '''    fname_tags = [tag for tag in original_fname_tags if tag not in to_remove]
    fname_tags = unique_by_index(fname_tags + platforms)
''', '''    kept_tags = []
    for tag in original_fname_tags:
        if tag in to_remove:
            continue
        kept_tags.append(tag)
    fname_tags = unique_by_index([*kept_tags, *platforms])
'''), (WT, '''    fparts = {
        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
        "plat": ".".join(sorted(fname_tags)),
        "ext": Path(wheel_fname).suffix,
    }
    out_wheel_fname = "{prefix}-{plat}{ext}".format(**fparts)
    out_wheel = out_dir / out_wheel_fname
''', '''    prefix, _, _ = wheel_fname.rpartition("-")
    plat = ".".join(sorted(fname_tags))
    ext = Path(wheel_fname).suffix
    out_wheel = out_dir / f"{prefix}-{plat}{ext}"
'''))
ref("o-wt-arch-candidates", (WT, '''        found = False
        pure_ = platform == "any"
        pure = pure and pure_
        missed = missed or pure_
        if not pure_:
            for arch in Architecture:
                if platform.endswith(f"_{arch.value}"):
                    result.add(arch.baseline)
                    found = True
            if not found:
                logger.warning(
                    "couldn't guess architecture for platform tag '%s'",
                    platform,
                )
                missed = True
''', '''        if platform == "any":
            missed = True
            continue
        pure = False
        candidates = {arch.baseline for arch in Architecture if platform.endswith(f"_{arch.value}")}
        if candidates:
            result |= candidates
        else:
            logger.warning("couldn't guess architecture for platform tag '%s'", platform)
            missed = True
'''), (WT, '''    if len(result) == 0:
        if pure:
            raise NonPlatformWheelError(None, None)
        msg = "unknown architecture"
        raise WheelToolsError(msg)
''', '''    if not result:
        if pure:
            raise NonPlatformWheelError(None, None)
        raise WheelToolsError("unknown architecture")
'''))
ref("o-wt-distinfo-unpack", (WT, '''    info_dirs = list(bdist_dir.glob("*.dist-info"))
    if len(info_dirs) != 1:
        msg = "Should be exactly one `*.dist_info` directory"
        raise WheelToolsError(msg)
    return info_dirs[0]
''', '''    candidates = [path for path in bdist_dir.glob("*.dist-info")]
    if len(candidates) == 1:
        return candidates.pop()
    msg = "Should be exactly one `*.dist_info` directory"
    raise WheelToolsError(msg)
'''))

ref("o-to-walk-split", (TO, '''            subdirs = []
            dist_info = []
            for dir_ in dirnames:
                if dir_.endswith(".dist-info"):
                    dist_info.append(dir_)
                else:
                    subdirs.append(dir_)
            dirnames[:] = subdirs
            dirnames.extend(dist_info)
            del dist_info
''', '''            dist_info = [name for name in dirnames if name.endswith(".dist-info")]
            others = [name for name in dirnames if not name.endswith(".dist-info")]
            dirnames[:] = others + dist_info
'''))
ref("o-to-walk-recordlast", (TO, '''        filenames.sort()
        # list any dist-info/RECORD file last
        if (
            dirpath.name.endswith(".dist-info")
            and dirpath.parent == topdir
            and "RECORD" in filenames
        ):
            filenames.remove("RECORD")
            filenames.append("RECORD")
        yield dirpath, dirnames, filenames
''', '''        filenames.sort()
        # list any dist-info/RECORD file last
        in_dist_info = dirpath.parent == topdir and dirpath.name.endswith(".dist-info")
        if in_dist_info and "RECORD" in filenames:
            filenames.remove("RECORD")
            filenames.append("RECORD")
        yield dirpath, dirnames, filenames
'''))
ref("o-to-zip2dir-infolist", (TO, '''        for name in z.namelist():
            member = z.getinfo(name)
            extracted_path = Path(z.extract(member, out_dir))
            attr = member.external_attr >> 16
            if member.is_dir():
                # this is always rebuilt as 755 by dir2zip
                extracted_path.chmod(0o755)
            elif attr != 0:
                attr &= 511  # only keep permission bits
                attr |= 6 << 6  # at least read/write for current user
                extracted_path.chmod(attr)
''', '''        for name in z.namelist():
            _extract_member(z, z.getinfo(name), out_dir)
'''), (TO, '''def zip2dir(zip''', '''def _extract_member(archive: zipfile.ZipFile, member: zipfile.ZipInfo, out_dir: Path) -> None:
    extracted_path = Path(archive.extract(member, out_dir))
    if member.is_dir():
        # this is always rebuilt as 755 by dir2zip
        extracted_path.chmod(0o755)
        return
    mode = member.external_attr >> 16
    if mode == 0:
        return
    # only keep permission bits, at least read/write for current user
    extracted_path.chmod((mode & 0o777) | 0o600)


def zip2dir(zip'''))
ref("o-to-dir2zip-stamp", (TO, '''    if date_time is None:
        st = in_dir.stat()
        date_time = datetime.fromtimestamp(st.st_mtime, tz=timezone.utc)
    date_time_args = date_time.timetuple()[:6]
    if date_time_args < (1980, 1, 1, 0, 0, 0):
        logger.warning("dir2zip, clipping timestamp to 1980-01-01")
        date_time_args = (1980, 1, 1, 0, 0, 0)
    compression''', '''    if date_time is None:
        mtime = in_dir.stat().st_mtime
        date_time = datetime.fromtimestamp(mtime, tz=timezone.utc)
    date_time_args = _zip_date_time(date_time)
    compression'''), (TO, '''def dir2zip(
''', '''_ZIP_EPOCH = (1980, 1, 1, 0, 0, 0)


def _zip_date_time(date_time: datetime):
    fields = date_time.timetuple()[:6]
    if fields >= _ZIP_EPOCH:
        return fields
    logger.warning("dir2zip, clipping timestamp to 1980-01-01")
    return _ZIP_EPOCH


def dir2zip(
'''))
ref("o-to-dir2zip-inner", (TO, '''            for file in files:
                fname = dname / file
                out_fname = fname.relative_to(in_dir)
                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
                zinfo.date_time = date_time_args
                zinfo.compress_type = compression
                with fname.open("rb") as fp:
                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
''', '''            for fname in [dname / file for file in files]:
                zinfo = zipfile.ZipInfo.from_file(fname, fname.relative_to(in_dir))
                zinfo.compress_type = compression
                zinfo.date_time = date_time_args
                data = fname.read_bytes()
                z.writestr(zinfo, data, compresslevel=zip_compression_level)
'''))
ref("o-to-unique-fromkeys", (TO, '''    uniques = []
    for element in sequence:
        if element not in uniques:
            uniques.append(element)
    return uniques
''', '''    uniques: list[_T] = []
    uniques.extend(element for element in dict.fromkeys(sequence))
    return uniques
'''))
ref("o-to-env-default", (TO, '''        if default is not None:
            required = False

        super().__init__(
            default=default,
            required=required,
''', '''        super().__init__(
            default=default,
            required=required and default is None,
'''))
ref("o-to-env-choice", (TO, '''        if self.env_default is not None and choices is not None and self.env_default not in choices:
            self.option_strings = kwargs["option_strings"]
            args = {
                "value": self.env_default,
                "choices": ", ".join(map(repr, choices)),
                "env": self.env,
            }
            msg = (
                "invalid choice: %(value)r from environment variable "
                "%(env)r (choose from %(choices)s)"
            )
            raise argparse.ArgumentError(self, msg % args)
''', '''        if choices is not None:
            allowed = self.env_default is None or self.env_default in choices
            if not allowed:
                self.option_strings = kwargs["option_strings"]
                msg = (
                    f"invalid choice: {self.env_default!r} from environment variable "
                    f"{self.env!r} (choose from {', '.join(map(repr, choices))})"
                )
                raise argparse.ArgumentError(self, msg)
'''))
ref("o-to-subdir", (TO, '''    if path is None:
        return False

    path = Path(path).resolve()
    root = Path(root).resolve()

    return root == path or root in path.parents
''', '''    if path is None:
        return False
    resolved, resolved_root = Path(path).resolve(), Path(root).resolve()
    return resolved_root in (resolved, *resolved.parents)
'''))
ref("o-rp-graft-fn", (RP, '''                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
                new_soname, new_path = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = (new_soname, new_path)
                replacements.append((soname, new_soname))
            if replacements:
                patcher.replace_needed(fn, *replacements)
''', '''                if not dest_dir.exists():
                    dest_dir.mkdir()
                grafted = copylib(src_path, dest_dir, patcher)
                soname_map[soname] = grafted
                replacements.append((soname, grafted[0]))
                sbom_filepaths.append(src_path)
            if len(replacements) != 0:
                patcher.replace_needed(fn, *replacements)
'''))
ref("o-rp-rpath-fn", (RP, '''            if len(ext_libs) > 0:
                new_fn = fn
                if _path_is_script(fn):
                    new_fn = _replace_elf_script_with_shim(match.group("name"), fn)
                    patcher.update_elf_path(fn, new_fn)
                    script_shims[fn] = new_fn
                new_rpath = Path("$ORIGIN") / os.path.relpath(dest_dir, new_fn.parent)
                append_rpath_within_wheel(new_fn, str(new_rpath), ctx.name, patcher)
''', '''            if not ext_libs:
                continue
            if _path_is_script(fn):
                elf_path = _replace_elf_script_with_shim(match["name"], fn)
                patcher.update_elf_path(fn, elf_path)
                script_shims[fn] = elf_path
            else:
                elf_path = fn
            append_rpath_within_wheel(
                elf_path,
                str(Path("$ORIGIN") / os.path.relpath(dest_dir, elf_path.parent)),
                ctx.name,
                patcher,
            )
'''))
ref("o-rp-internal-fn", (RP, '''        for _, path in soname_map.values():
            needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
            replacements = []
            for n in needed:
                if n in soname_map:
                    replacements.append((n, soname_map[n][0]))
            if replacements:
                patcher.set_rpath(path, "$ORIGIN")
                patcher.replace_needed(path, *replacements)
            else:
                patcher.clear_rpath(path)
''', '''        for _, path in soname_map.values():
            _link_grafted(path, soname_map, patcher)
'''), (RP, '''def strip_symbols(''', '''def _link_grafted(
    path: Path,
    soname_map: dict[str, tuple[str, Path]],
    patcher: ElfPatcher,
) -> None:
    """Make a grafted library refer to the other grafted libraries it needs"""
    # TODO perf, we already read those at some point
    replacements = [
        (soname, soname_map[soname][0])
        for soname in elf_read_dt_needed(path)
        if soname in soname_map
    ]
    if not replacements:
        patcher.clear_rpath(path)
        return
    patcher.set_rpath(path, "$ORIGIN")
    patcher.replace_needed(path, *replacements)


def strip_symbols('''))
ref("o-rp-strip-gen", (RP, '''            libs_to_strip = [path for (_, path) in soname_map.values()]
            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            strip_symbols(itertools.chain(libs_to_strip, extensions))
''', '''            to_strip = [path for (_, path) in soname_map.values()]
            for path in external_refs_by_fn:
                to_strip.append(script_shims[path] if path in script_shims else path)
            strip_symbols(to_strip)
'''))
ref("o-rp-sbom-write", (RP, '''        if sbom_data:
            sbom_dir = Path(dist_info_dirs[0], "sboms")
            sbom_dir.mkdir(exist_ok=True)
            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
''', '''        if sbom_data:
            _write_sbom(dist_info_dirs[0], sbom_data)
'''), (RP, '''def strip_symbols(''', '''def _write_sbom(dist_info_dir: Path, sbom_data: dict) -> None:
    sbom_dir = dist_info_dir / "sboms"
    sbom_dir.mkdir(exist_ok=True)
    content = json.dumps(sbom_data)
    sbom_dir.joinpath("auditwheel.cdx.json").write_text(content)


def strip_symbols('''))
ref("o-rp-copylib-chmod", (RP, '''    logger.debug("Grafting: %s -> %s", src_path, dest_path)
    shutil.copy2(src_path, dest_path)
    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)

    patcher.set_soname(dest_path, new_soname)

    return new_soname, dest_path
''', '''    logger.debug("Grafting: %s -> %s", src_path, dest_path)
    shutil.copy2(src_path, dest_path)
    _ensure_writable(dest_path)
    patcher.set_soname(dest_path, new_soname)
    return new_soname, dest_path


def _ensure_writable(path: Path) -> None:
    mode = path.stat().st_mode
    if mode & stat.S_IWRITE:
        return
    path.chmod(mode | stat.S_IWRITE)
'''))
ref("o-rp-copylib-flip", (RP, '''    if dest_path.exists():
        return new_soname, dest_path

    logger.debug("Grafting: %s -> %s", src_path, dest_path)
    shutil.copy2(src_path, dest_path)
    statinfo = dest_path.stat()
    if not statinfo.st_mode & stat.S_IWRITE:
        dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)

    patcher.set_soname(dest_path, new_soname)

    return new_soname, dest_path
''', '''    if not dest_path.exists():
        logger.debug("Grafting: %s -> %s", src_path, dest_path)
        shutil.copy2(src_path, dest_path)
        mode = dest_path.stat().st_mode
        writable_mode = mode | stat.S_IWRITE
        if mode != writable_mode:
            dest_path.chmod(writable_mode)
        patcher.set_soname(dest_path, new_soname)

    return new_soname, dest_path
'''))
ref("o-rp-rpath-loop", (RP, '''    if not lib_name.is_absolute():
        lib_name = lib_name.absolute()
    lib_dir = lib_name.parent
    if not wheel_base_dir.is_absolute():
        wheel_base_dir = wheel_base_dir.absolute()

    def is_valid_rpath(rpath: str) -> bool:
        return _is_valid_rpath(rpath, lib_dir, wheel_base_dir)

    old_rpaths = patcher.get_rpath(lib_name)
    rpaths = list(filter(is_valid_rpath, old_rpaths.split(":")))
    rpaths = unique_by_index([*rpaths, rpath])
    patcher.set_rpath(lib_name, ":".join(rpaths))
''', '''    if not lib_name.is_absolute():
        lib_name = lib_name.absolute()
    if not wheel_base_dir.is_absolute():
        wheel_base_dir = wheel_base_dir.absolute()

    rpaths: list[str] = []
    for entry in patcher.get_rpath(lib_name).split(":"):
        if _is_valid_rpath(entry, lib_name.parent, wheel_base_dir):
            rpaths.append(entry)
    rpaths.append(rpath)
    patcher.set_rpath(lib_name, ":".join(unique_by_index(rpaths)))
'''))
ref("o-rp-valid-single", (RP, '''    full_rpath_entry = _resolve_rpath_tokens(rpath, lib_dir)
    if not Path(full_rpath_entry).is_absolute():
        logger.debug(
            "rpath entry %s could not be resolved to an absolute path -- discarding it.",
            rpath,
        )
        return False
    if not is_subdir(full_rpath_entry, wheel_base_dir):
        logger.debug("rpath entry %s points outside the wheel -- discarding it.", rpath)
        return False
    logger.debug("Preserved rpath entry %s", rpath)
    return True
''', '''    resolved = Path(_resolve_rpath_tokens(rpath, lib_dir))
    if not resolved.is_absolute():
        reason = "could not be resolved to an absolute path"
    elif not is_subdir(resolved, wheel_base_dir):
        reason = "points outside the wheel"
    else:
        logger.debug("Preserved rpath entry %s", rpath)
        return True
    logger.debug("rpath entry %s %s -- discarding it.", rpath, reason)
    return False
'''))
ref("o-rp-tokens-pairs", (RP, '''    system_lib_dir = "lib64" if platform.architecture()[0] == "64bit" else "lib"
    system_processor_type = platform.machine()
    token_replacements = {
        "ORIGIN": str(lib_base_dir),
        "LIB": system_lib_dir,
        "PLATFORM": system_processor_type,
    }
    for token, target in token_replacements.items():
        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
    return rpath
''', '''    bits, _ = platform.architecture()
    token_replacements = (
        ("ORIGIN", str(lib_base_dir)),
        ("LIB", "lib64" if bits == "64bit" else "lib"),
        ("PLATFORM", platform.machine()),
    )
    for token, target in token_replacements:
        rpath = rpath.replace("$" + token, target).replace("${" + token + "}", target)
    return rpath
'''))
ref("o-rp-script", (RP, '''    components = path.parts
    return len(components) == 3 and components[0].endswith(".data") and components[1] == "scripts"
''', '''    if len(path.parts) != 3:
        return False
    data_dir, scheme, _ = path.parts
    return scheme == "scripts" and data_dir.endswith(".data")
'''))
ref("o-rp-shim", (RP, '''    new_path = scripts_dir / orig_path.name
    orig_path.rename(new_path)

    with orig_path.open("w", newline="\\n") as f:
        f.write(_script_shim(new_path))
    orig_path.chmod(new_path.stat().st_mode)

    return new_path
''', '''    new_path = scripts_dir / orig_path.name
    orig_path.rename(new_path)
    mode = new_path.stat().st_mode
    shim = _script_shim(new_path)
    with orig_path.open("w", newline="\\n") as stream:
        stream.write(shim)
    orig_path.chmod(mode)
    return new_path
'''))
ref("o-pa-args-fn", (PA, '''            args = []
            if update_info.soname is not None:
                args.extend(["--set-soname", update_info.soname])
            if update_info.remove_needed:
                args.extend(
                    chain.from_iterable(
                        ("--remove-needed", soname) for soname in update_info.remove_needed
                    ),
                )
            if update_info.replace_needed:
                args.extend(
                    chain.from_iterable(
                        ("--replace-needed", *pair) for pair in update_info.replace_needed
                    ),
                )
''', '''            args: list[str] = []
            if update_info.soname is not None:
                args += ["--set-soname", update_info.soname]
            for soname in update_info.remove_needed:
                args += ["--remove-needed", soname]
            for old_soname, new_soname in update_info.replace_needed:
                args += ["--replace-needed", old_soname, new_soname]
'''))
ref("o-pa-rpath-args", (PA, '''            if update_info.clear_rpath and update_info.rpath is None:
                args.append("--remove-rpath")
            if update_info.rpath is not None:
                set_args = ["--force-rpath", "--set-rpath", update_info.rpath]
                if self.platform.startswith("android"):
                    # Android supports only RUNPATH, not RPATH.
                    set_args.remove("--force-rpath")
                args.extend(set_args)
''', '''            if update_info.rpath is None:
                if update_info.clear_rpath:
                    args.append("--remove-rpath")
            else:
                # Android supports only RUNPATH, not RPATH.
                if not self.platform.startswith("android"):
                    args.append("--force-rpath")
                args.extend(("--set-rpath", update_info.rpath))
'''))
ref("o-pa-none-helper", (PA, '''            if (
                update_info.soname is not None
                or update_info.remove_needed
                or update_info.replace_needed
                or update_info.clear_rpath
                or update_info.rpath is not None
            ):
                errors.append(filepath)
''', '''            unchanged = (
                update_info.soname is None
                and update_info.rpath is None
                and not update_info.remove_needed
                and not update_info.replace_needed
                and not update_info.clear_rpath
            )
            if not unchanged:
                errors.append(filepath)
'''))
ref("o-wa-merge-libs", (WA, '''        libraries_new: dict[str, DynamicLibrary] = {}
        soname_all = set(elf_executable.libraries.keys())
        for soname, elf_library in elf_executable.libraries.items():
            if elf_library.realpath is None and soname in reference.libraries:
                libraries_new[soname] = reference.libraries[soname]
                # we need to add newly found dependencies as well
                needed_new = set(libraries_new[soname].needed) - soname_all
                while needed_new:
                    needed_new_copy = needed_new.copy()
                    soname_all |= needed_new_copy
                    for soname_needed in needed_new_copy:
                        if soname_needed in reference.libraries:
                            libraries_new[soname_needed] = reference.libraries[soname_needed]
                            needed_new.update(libraries_new[soname_needed].needed)
                        else:
                            log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                    needed_new -= soname_all
            else:
                if elf_library.realpath is None:
                    log.warning("%s not found in %s ELF tree", soname, ref_name)
                libraries_new[soname] = elf_library
''', '''        libraries_new: dict[str, DynamicLibrary] = {}
        soname_all = set(elf_executable.libraries)
        for soname, elf_library in elf_executable.libraries.items():
            if elf_library.realpath is not None:
                libraries_new[soname] = elf_library
                continue
            if soname not in reference.libraries:
                log.warning("%s not found in %s ELF tree", soname, ref_name)
                libraries_new[soname] = elf_library
                continue
            found = reference.libraries[soname]
            libraries_new[soname] = found
            # we need to add newly found dependencies as well
            needed_new = set(found.needed) - soname_all
            while needed_new:
                needed_new_copy = needed_new.copy()
                soname_all |= needed_new_copy
                for soname_needed in needed_new_copy:
                    if soname_needed not in reference.libraries:
                        log.warning("%s not found in %s ELF tree", soname_needed, ref_name)
                        continue
                    libraries_new[soname_needed] = reference.libraries[soname_needed]
                    needed_new.update(libraries_new[soname_needed].needed)
                needed_new -= soname_all
'''))
ref("o-wa-resolved-fn", (WA, '''    resolved_executables = [
        executable
        for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values())
        if all(library.realpath is not None for library in executable.libraries.values())
    ]
''', '''    def _is_resolved(executable: DynamicExecutable) -> bool:
        return not any(library.realpath is None for library in executable.libraries.values())

    resolved_executables = list(
        filter(_is_resolved, itertools.chain(py_elf_trees.values(), nonpy_elftree.values())),
    )
'''), (WA, '''        need_resolution = any(
            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
        )
        if not need_resolution:
            continue
''', '''        if _is_resolved(elf_executable):
            continue
'''))
ref("o-wa-versions-fn", (WA, '''                for key, value in elf_find_versioned_symbols(elf):
                    log.debug("key %s, value %s", key, value)
                    versioned_symbols[key].add(value)
''', '''                for depname, versions in _versions_by_dependency(elf).items():
                    versioned_symbols[depname] |= versions
'''), (WA, '''        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
        for key, value in elf_find_versioned_symbols(elf):
            log.debug("path %s, key %s, value %s", path, key, value)
            elf_versioned_symbols[key].add(value)
        result[libs[path]] = elf_versioned_symbols
''', '''        result[libs[path]] = _versions_by_dependency(elf)
'''), (WA, '''@functools.lru_cache
def get_wheel_elfdata(''', '''def _versions_by_dependency(elf: ELFFile) -> dict[str, set[str]]:
    """{depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}"""
    versions: dict[str, set[str]] = defaultdict(set)
    for depname, version in elf_find_versioned_symbols(elf):
        log.debug("key %s, value %s", depname, version)
        versions[depname].add(version)
    return versions


@functools.lru_cache
def get_wheel_elfdata('''))
ref("o-wa-purelib-fn", (WA, '''        # If at least one shared library exists in purelib, raise an error
        if shared_libraries_in_purelib:
            libraries = "\\n\\t".join(shared_libraries_in_purelib)
            msg = (
                "Invalid binary wheel, found the following shared library/libraries "
                f"in purelib folder:\\n\\t{libraries}\\n"
                "The wheel has to be platlib compliant in order to be repaired by "
                "auditwheel."
            )
            raise RuntimeError(msg)

        if not platform_wheel:
''', '''        _reject_purelib(shared_libraries_in_purelib)

        if not platform_wheel:
'''), (WA, '''@functools.lru_cache
def get_wheel_elfdata(''', '''def _reject_purelib(names: list[str]) -> None:
    """If at least one shared library exists in purelib, raise an error"""
    if not names:
        return
    libraries = "\\n\\t".join(names)
    raise RuntimeError(
        "Invalid binary wheel, found the following shared library/libraries "
        f"in purelib folder:\\n\\t{libraries}\\n"
        "The wheel has to be platlib compliant in order to be repaired by "
        "auditwheel.",
    )


@functools.lru_cache
def get_wheel_elfdata('''))
ref("o-wa-nonpy-split", (WA, '''        for fn, elf_tree in nonpy_elftree.items():
            # If a non-pyextension ELF file is not needed by something else
            # inside the wheel, then it was not checked by the logic above and
            # we should walk its elftree.
            if fn.name not in needed_libs:
                full_elftree[fn] = elf_tree

            # Even if a non-pyextension ELF file is not needed, we
            # should include it as an external reference, because
            # it might require additional external libraries.
            full_external_refs[fn] = policies.lddtree_external_references(
                elf_tree,
                ctx.path,
            )
''', '''        # Even if a non-pyextension ELF file is not needed, we
        # should include it as an external reference, because
        # it might require additional external libraries.
        full_external_refs.update(
            {
                fn: policies.lddtree_external_references(elf_tree, ctx.path)
                for fn, elf_tree in nonpy_elftree.items()
            },
        )
        # If a non-pyextension ELF file is not needed by something else
        # inside the wheel, then it was not checked by the logic above and
        # we should walk its elftree.
        full_elftree.update(
            {fn: tree for fn, tree in nonpy_elftree.items() if fn.name not in needed_libs},
        )
'''))
ref("o-wa-arch-fn", (WA, '''                try:
                    elf_arch = elftree.platform.baseline_architecture
                except ValueError:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with unknown architecture", so_name)
                    continue
                if architecture is None:
                    log.info("setting architecture to %s", elf_arch.value)
                    architecture = elf_arch
                elif elf_arch != architecture.baseline:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch)
                    continue
''', '''                elf_arch: Architecture | None
                try:
                    elf_arch = elftree.platform.baseline_architecture
                except ValueError:
                    elf_arch = None
                if architecture is None and elf_arch is not None:
                    log.info("setting architecture to %s", elf_arch.value)
                    architecture = elf_arch
                elif elf_arch is None or elf_arch != architecture.baseline:
                    shared_libraries_with_invalid_machine.append(so_name)
                    log.warning("ignoring: %s with %s architecture", so_name, elf_arch or "unknown")
                    continue
'''))
ref("o-wa-extlibs-nested", (WA, '''        if external_ref.policy.priority == 0:
            continue
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in external_ref.libs.items():
            if realpath and realpath not in result:
                result[Path(realpath)] = libname
    return result
''', '''        is_linux = external_ref.policy.priority == 0
        # go through all libs, retrieving their soname and realpath
        for libname, realpath in () if is_linux else external_ref.libs.items():
            if not realpath or realpath in result:
                continue
            result[Path(realpath)] = libname
    return result
'''))
ref("o-wa-sympol-merge", (WA, '''        policy_symbols = deepcopy(versioned_symbols)
        for soname in external_ref.libs:
            if soname not in external_versioned_symbols:
                continue
            ext_symbols = external_versioned_symbols[soname]
            for k in iter(ext_symbols):
                policy_symbols[k].update(ext_symbols[k])
''', '''        policy_symbols = deepcopy(versioned_symbols)
        grafted = [
            external_versioned_symbols[soname]
            for soname in external_ref.libs
            if soname in external_versioned_symbols
        ]
        for ext_symbols in grafted:
            for depname, versions in ext_symbols.items():
                policy_symbols[depname] |= versions
'''))
ref("o-wa-mach-fn", (WA, '''        if soname is not None:
            found_policy = policies.linux
            for policy in policies:
                if soname in policy.whitelist:
                    found_policy = max(found_policy, policy)
            if policies.linux.priority < found_policy.priority:
''', '''        if soname is not None:
            found_policy = max(
                (policy for policy in policies if soname in policy.whitelist),
                default=policies.linux,
            )
            if found_policy.priority > policies.linux.priority:
'''))
ref("o-wa-mach-collect", (WA, '''        for dependency in dynamic_executable.libraries.values():
            if dependency.soname not in external_so_names:
                continue
            if dependency.realpath is None:
                continue
            assert dependency.platform is not None  # noqa: S101
            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
                dependency.soname,
                dependency.platform.extended_architecture,
            )
''', '''        for library in dynamic_executable.libraries.values():
            realpath = library.realpath
            if realpath is None or library.soname not in external_so_names:
                continue
            assert library.platform is not None  # noqa: S101
            machine_to_check.setdefault(
                realpath,
                (library.soname, library.platform.extended_architecture),
            )
'''))
ref("o-wa-best-fn", (WA, '''    ref_policy = max(
        (e.policy for e in external_refs.values() if len(e.libs) == 0),
        default=policies.linux,
    )

    blacklist_policy = max(
        (e.policy for e in external_refs.values() if len(e.blacklist) == 0),
        default=policies.linux,
    )
''', '''    ref_policy = policies.linux
    blacklist_policy = policies.linux
    for reference in external_refs.values():
        if not reference.libs:
            ref_policy = max(ref_policy, reference.policy)
        if not reference.blacklist:
            blacklist_policy = max(blacklist_policy, reference.policy)
'''))
ref("o-wa-graft-fn", (WA, '''    if requested_policy_base_name is None or requested_policy_base_name == "auto":
        graft_lib_count = min(
            (len(e.libs) for e in external_refs.values() if e.policy != policies.linux),
            default=0,
        )
    else:
        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy.name.startswith(f"{requested_policy_base_name}_")
            ),
            default=0,
        )
''', '''    if requested_policy_base_name in (None, "auto"):
        considered = [e for e in external_refs.values() if e.policy != policies.linux]
    else:
        prefix = f"{requested_policy_base_name}_"
        considered = [e for e in external_refs.values() if e.policy.name.startswith(prefix)]
    graft_lib_count = min((len(e.libs) for e in considered), default=0)
'''))
ref("o-wa-sympolicy-if", (WA, '''    symbol_policy = policies.versioned_symbols_policy(versioned_symbols)

    # let's keep the highest priority policy and
    # corresponding versioned_symbols
    symbol_policy, versioned_symbols = max(
        symbol_policies,
        key=lambda x: x[0],
        default=(symbol_policy, versioned_symbols),
    )
''', '''    # let's keep the highest priority policy and
    # corresponding versioned_symbols
    if symbol_policies:
        symbol_policy, versioned_symbols = max(symbol_policies, key=lambda pair: pair[0])
    else:
        symbol_policy = policies.versioned_symbols_policy(versioned_symbols)
'''))
0 and ref("o-wa-overall-candidates", (WA, '''    overall_policy = min(
        symbol_policy,
        ucs_policy,
        pyfpe_policy,
        blacklist_policy,
        machine_policy,
    )

    if requested_policy_base_name is not None:
        overall_policy = min(overall_policy, graft_policy)

    if not allow_graft:
        overall_policy = min(overall_policy, ref_policy)
''', '''    limits = {symbol_policy, ucs_policy, pyfpe_policy, blacklist_policy, machine_policy}
    if requested_policy_base_name is not None:
        limits.add(graft_policy)
    if not allow_graft:
        limits.add(ref_policy)
    overall_policy = min(limits)
'''))
ref("o-wa-update-local", (WA, '''            assert k in d  # noqa: S101
            assert isinstance(d[k], ExternalReference)  # noqa: S101
            assert d[k].policy == v.policy  # noqa: S101
            # update blacklist
            for lib, symbols in v.blacklist.items():
                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
            # libs
            update(d[k].libs, v.libs)
''', '''            assert k in d  # noqa: S101
            current = d[k]
            assert isinstance(current, ExternalReference)  # noqa: S101
            assert current.policy == v.policy  # noqa: S101
            _merge_blacklist(current.blacklist, v.blacklist)
            # libs
            update(current.libs, v.libs)
'''), (WA, '''def update(d: dict[str, _T], u''', '''def _merge_blacklist(into: dict[str, list[str]], other: dict[str, list[str]]) -> None:
    for lib, symbols in other.items():
        into[lib] = sorted({*into.get(lib, ()), *symbols})


def update(d: dict[str, _T], u'''))
