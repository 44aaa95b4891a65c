"""Development aid (not a check): planted changes as text replacements; `bugs.py run [ids]` applies
each to a scratch copy of /repo and prints which properties' checks report it."""
import os, shutil, subprocess, sys, tempfile, json
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

B = {}


def bug(id, prop, *edits):
    B[id] = (prop, edits)


WA, RP, WT, TO, LD, PO, PA, MR, MS, TD, SB, EL, LC, HA, AR, OP, MA, GE, CO, ER, JS, ML = (
    "wheel_abi.py repair.py wheeltools.py tools.py lddtree.py policy/__init__.py patcher.py main_repair.py main_show.py tmpdirs.py "
    "sboms.py elfutils.py libc.py hashfile.py architecture.py options.py main.py genericpkgctx.py condatools.py error.py json.py main_lddtree.py").split()

# C01
bug("c01-max-pyfpe", "C01", (WA, "        pyfpe_policy,\n        blacklist_policy,\n        machine_policy,\n    )\n\n    if", "        max(pyfpe_policy, ucs_policy),\n        blacklist_policy,\n        machine_policy,\n    )\n\n    if"))
bug("c01-graft-skip", "C01", (WA, "    if requested_policy_base_name is not None:\n        overall", "    if requested_policy_base_name is not None and requested_policy_base_name != \"auto\":\n        overall"))
bug("c01-ref-cond", "C01", (WA, "    if not allow_graft:\n", "    if not allow_graft and requested_policy_base_name is None and external_libs:\n"))
bug("c01-black-default", "C01", (WA, "(e.policy for e in external_refs.values() if len(e.blacklist) == 0),\n        default=policies.linux", "(e.policy for e in external_refs.values() if not any(e.blacklist.values())),\n        default=policies.highest"))
bug("c01-black-libs", "C01", (WA, "if len(e.blacklist) == 0)", "if len(e.blacklist) == 0 or len(e.libs) == 0)"))
bug("c01-graft-lt", "C01", (WA, "if len(e.libs) <= graft_lib_count", "if len(e.libs) <= graft_lib_count + 1"))
bug("c01-policy-lt", "C01", (PO, "        return self.priority < other.priority", "        return (self.priority, self.name) < (other.priority, other.name) if self.aliases else self.priority < other.priority"))
# C02
bug("c02-shared-symbols", "C02", (WA, "        policy_symbols = deepcopy(versioned_symbols)", "        policy_symbols = versioned_symbols.copy()"))
bug("c02-missing-soname", "C02", (WA, "            if soname not in external_versioned_symbols:\n                continue", "            if soname not in external_versioned_symbols:\n                break"))
bug("c02-update-replace", "C02", (WA, "                policy_symbols[k].update(ext_symbols[k])", "                if k in policy_symbols:\n                    policy_symbols[k].update(ext_symbols[k])"))
bug("c02-partition", "C02", (PO, "            sym_name, _, _ = symbol.partition(\"_\")", "            sym_name, _, _ = symbol.rpartition(\"_\")"))
bug("c02-subset", "C02", (PO, "            policy_satisfied = True\n", "            policy_satisfied = True\n            if not policy_sym_vers.keys() & required_vers.keys():\n                return policy_name.startswith(\"linux\") or bool(policy_sym_vers)\n"))
bug("c02-last", "C02", (PO, "                    policy_satisfied = False\n            return", "                    policy_satisfied = False\n                else:\n                    policy_satisfied = True\n            return"))
bug("c02-versionfirst", "C02", (EL, "            for vernaux in verneed_iter:\n                yield (verneed.name, vernaux.name)", "            for vernaux in verneed_iter:\n                if vernaux[\"vna_flags\"] & 2:\n                    continue\n                yield (verneed.name, vernaux.name)"))
bug("c02-realpath", "C02", (WA, "            if realpath and realpath not in result:", "            if realpath and libname not in result.values():"))
bug("c02-extonly-toplevel", "C02", (WA, "    for fn in elftree_by_fn:\n        update", "    for fn in external_refs_by_fn:\n        update"))
bug("c02-ldlinux-prefix", "C02", (EL, "verneed.name.startswith(\"ld-linux\")", "verneed.name.startswith(\"ld\")"))
bug("c02-private", "C02", (PO, "            for symbol in symbols:\n                sym_name", "            for symbol in symbols:\n                if symbol.endswith(\"_PRIVATE\"):\n                    continue\n                sym_name"))
# C03
bug("c03-ucs-overwrite", "C03", (WA, "uses_ucs2_symbols |= any(", "uses_ucs2_symbols = any("))
bug("c03-pyver", "C03", (EL, '"_cffi_pypyinit_" + modname: 2', '"_cffi_pypyinit_" + modname: 3'))
bug("c03-notype", "C03", (EL, "in (\"STT_FUNC\", \"STT_NOTYPE\")", "== \"STT_FUNC\""))
bug("c03-jbuf-shortcircuit", "C03", (WA, "                    uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)", "                    uses_pyfpe_jbuf = uses_pyfpe_jbuf or (\n                        bool(elftree.needed) and elf_references_pyfpe_jbuf(elf)\n                    )"))
bug("c03-modname", "C03", (EL, 'fn.name.split(".", 1)[0]', 'fn.name.rsplit(".", 1)[0]'))
bug("c03-ucs-break", "C03", (EL, "                \"PyUnicodeUCS2_\" in sym.name", "                sym.name.startswith(\"PyUnicodeUCS2_\") and sym[\"st_info\"][\"bind\"] == \"STB_GLOBAL\""))
# C04
bug("c04-weak", "C04", (EL, "sym[\"st_info\"][\"bind\"] != \"STB_WEAK\"", "sym[\"st_info\"][\"bind\"] == \"STB_GLOBAL\" and sym[\"st_info\"][\"type\"] != \"STT_NOTYPE\""))
bug("c04-star", "C04", (EL, 'set("*") | get_undefined_symbols(path)', 'get_undefined_symbols(path)'))
bug("c04-update-lost", "C04", (WA, "                    d[k].blacklist[lib] = sorted(\n                        set(d[k].blacklist[lib]) | set(symbols),\n                    )", "                    d[k].blacklist[lib] = sorted(set(symbols) or d[k].blacklist[lib])"))
bug("c04-update-concat", "C04", (WA, "sorted(\n                        set(d[k].blacklist[lib]) | set(symbols),\n                    )", "sorted([*d[k].blacklist[lib], *symbols])"))
bug("c04-needed", "C04", (PO, "set(p.blacklist.keys()) & set(lddtree.needed)", "set(p.blacklist.keys()) & set(lddtree.libraries)"))
bug("c04-whitelist", "C04", (PO, "blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)", "blacklist_libs = (set(p.blacklist.keys()) & set(lddtree.needed)) - whitelist"))
bug("c04-first-only", "C04", (WA, "                if lib not in d[k].blacklist:\n                    d[k].blacklist[lib] = sorted(symbols)\n                else:", "                if not d[k].blacklist:\n                    d[k].blacklist[lib] = sorted(symbols)\n                elif lib in d[k].blacklist:"))
# C05
bug("c05-break-notes", "C05", (LD, "                        break\n                    if data & 4 == 4", "                        continue\n                    if data & 4 == 4"))
bug("c05-order", "C05", (LD, "                    if data & 8 == 8:\n                        ext_arch = Architecture.x86_64_v4\n                        break\n                    if data & 4 == 4:\n                        ext_arch = Architecture.x86_64_v3\n                        break", "                    if data & 4 == 4:\n                        ext_arch = Architecture.x86_64_v3\n                        break\n                    if data & 8 == 8:\n                        ext_arch = Architecture.x86_64_v4\n                        break"))
bug("c05-superset", "C05", (WA, "if policies.architecture.is_superset(extended_architecture)", "if policies.architecture.baseline.is_subset(extended_architecture.baseline) and policies.architecture.is_superset(extended_architecture.baseline)"))
bug("c05-result-over", "C05", (WA, "                result = min(result, found_policy)\n                continue", "                result = found_policy\n                continue"))
bug("c05-maxmin", "C05", (WA, "found_policy = max(found_policy, policy)", "found_policy = min(found_policy, policy) if found_policy != policies.linux else policy"))
bug("c05-soname-any", "C05", (WA, "            if dependency.soname not in external_so_names:\n                continue\n            if", "            if dependency.soname not in external_so_names or not dependency.needed:\n                continue\n            if"))
bug("c05-arm", "C05", (LD, "!= E_FLAGS.EF_ARM_ABI_FLOAT_HARD:", "== E_FLAGS.EF_ARM_ABI_FLOAT_SOFT:"))
bug("c05-extended", "C05", (LD, "        if self._error_msg is not None:\n            raise ValueError(self._error_msg)\n        return self._ext_arch", "        if self._base_arch is None:\n            raise ValueError(self._error_msg)\n        return self._ext_arch"))
bug("c05-disable", "C05", (WA, "    if disable_isa_ext_check:", "    if disable_isa_ext_check or not external_libs and policies.libc == Libc.MUSL:"))
bug("c05-index", "C05", (AR, "<= member_list.index(other)", "<= member_list.index(other.baseline)"))
# C06
bug("c06-none", "C06", (PO, "                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):", "                realpath = lddtree.libraries[lib].realpath\n                if realpath is None or is_subdir(realpath, wheel_path):"))
bug("c06-subdir-none", "C06", (TO, "    if path is None:\n        return False\n\n    path", "    if path is None:\n        return True\n\n    path"))
bug("c06-prefix", "C06", (TO, "    return root == path or root in path.parents", "    return str(path).startswith(str(root))"))
bug("c06-ldlinux", "C06", (PO, 'if "ld-linux" in lib or', 'if "ld" in lib.split("-")[0] and "linux" in lib or'))
bug("c06-inwheel-stop", "C06", (PO, "                reqs.add(lib)\n", "                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):\n                    continue\n                reqs.add(lib)\n"))
bug("c06-fixup-needed", "C06", (WA, "                    needed_new -= soname_all", "                    needed_new -= needed_new_copy"))
bug("c06-whitelist-last", "C06", (PO, "                whitelist = p.whitelist\n", "                whitelist = self.highest.whitelist\n"))
bug("c06-update", "C06", (WA, "        elif isinstance(v, (Path, type(None))):\n            d[k] = v", "        elif isinstance(v, (Path, type(None))):\n            if v is not None:\n                d[k] = v"))
bug("c06-fullrefs", "C06", (WA, "            if fn.name not in needed_libs:\n                full_elftree[fn] = elf_tree\n", "            if fn.name in needed_libs:\n                continue\n            full_elftree[fn] = elf_tree\n"))
# C07
bug("c07-order", "C07", (LD, "        + rpaths\n        + runpaths\n        + ldpaths[\"env\"]", "        + rpaths\n        + ldpaths[\"env\"]\n        + runpaths"))
bug("c07-rpath-cleared", "C07", (LD, "            if runpaths:\n                # If both RPATH and RUNPATH are set, only the latter is used.\n                rpaths = []", "            if runpaths and rpaths and set(rpaths) <= set(runpaths):\n                rpaths = []"))
bug("c07-origin", "C07", (LD, "os.path.dirname(os.path.abspath(path)), ldpath)", "os.path.dirname(os.path.realpath(path)), ldpath)"))
bug("c07-origin-display", "C07", (LD, "runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)", "runpaths = parse_ld_paths(t.runpath, path=display or str(path), root=root)"))
bug("c07-compat-little", "C07", (LD, "            and self._elf_little_endian == other._elf_little_endian\n", ""))
bug("c07-compat-osabi", "C07", (LD, '("NONE", "SYSV", "GNU", "LINUX")', '("NONE", "SYSV", "GNU", "LINUX", "FREEBSD")'))
bug("c07-first-incompat", "C07", (LD, "                if platform.is_compatible(_get_platform(libelf)):\n                    return target, path\n", "                if not platform.is_compatible(_get_platform(libelf)):\n                    break\n                return target, path\n"))
bug("c07-empty", "C07", (LD, "        if ldpath == \"\":\n            # The ldso treats \"\" paths as $PWD.\n            ldpath_ = os.getcwd()\n        elif", "        if ldpath == \"\":\n            continue\n        if"))
bug("c07-dedupe", "C07", (LD, "    seen: dict[str, str] = {}\n    return [seen.setdefault(x, x) for x in items if x not in seen]", "    return sorted(set(items), key=items.index, reverse=len(items) > 64)"))
bug("c07-dedupe2", "C07", (LD, "    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]", "    return [p for p in reversed(dedupe(ldpaths[::-1])) if os.path.isdir(p)]"))
bug("c07-envorder", "C07", (LD, "filter(None, (os.environ.get(\"AUDITWHEEL_LD_LIBRARY_PATH\"), ld_library_path))", "filter(None, (ld_library_path, os.environ.get(\"AUDITWHEEL_LD_LIBRARY_PATH\")))"))
bug("c07-envsole", "C07", (LD, "    env_ldpath = \":\".join(\n        filter(None, (os.environ.get(\"AUDITWHEEL_LD_LIBRARY_PATH\"), ld_library_path)),\n    )", "    env_ldpath = os.environ.get(\"AUDITWHEEL_LD_LIBRARY_PATH\") or ld_library_path"))
bug("c07-comment", "C07", (LD, 'input_line.split("#", 1)[0].strip()', 'input_line.strip()'), (LD, "                if not line:\n                    continue", "                if not line or line.startswith(\"#\"):\n                    continue"))
bug("c07-include-rel", "C07", (LD, 'line = os.path.dirname(ldso_conf) + "/" + line', 'line = root + "etc/" + line'))
bug("c07-musl-conf", "C07", (LD, "                root + \"/lib\",\n                root + \"/usr/local/lib\",", "                root + \"/usr/local/lib\",\n                root + \"/lib\","))
bug("c07-trusted", "C07", (LD, '.extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])', '.extend(["/lib", "/usr/lib", "/usr/lib64"])'))
bug("c07-readlink", "C07", (LD, "    while os.path.islink(root + path):", "    if os.path.islink(root + path):"))
# C08
bug("c08-path-exact", "C08", (LD, "any(fnmatch(str(realpath), e) for e in exclude)", "any(fnmatch(str(fullpath), e) for e in exclude)"))
bug("c08-recursive", "C08", (LD, "ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)", "ldd(realpath, root, prefix, ldpaths, fullpath, exclude & {soname, *needed}, _all_libs)"))
bug("c08-drop-exclude", "C08", (LD, "ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)", "ldd(realpath, root, prefix, ldpaths, fullpath, _all_libs=_all_libs)"))
bug("c08-needed", "C08", (LD, "tuple(soname for soname in needed if soname not in _excluded_libs)", "tuple(soname for soname in needed if soname not in _excluded_libs or soname in _all_libs)"))
bug("c08-needed2", "C08", (LD, "            log.info(\"Excluding %s\", realpath)\n            _excluded_libs.add(soname)\n            continue", "            log.info(\"Excluding %s\", realpath)\n            continue"))
bug("c08-prefix", "C08", (LD, "any(fnmatch(soname, e) for e in exclude)", "any(fnmatch(soname, f\"{e}*\") for e in exclude)"))
bug("c08-cli", "C08", (MR, "frozenset(args.EXCLUDE)", "frozenset(args.EXCLUDE[:1] or ()) | frozenset(args.EXCLUDE[2:])"))
bug("c08-case", "C08", (LD, "any(fnmatch(soname, e) for e in exclude)", "any(fnmatch(soname.lower(), e.lower()) for e in exclude)"))
# C09
bug("c09-py", "C09", (EL, 'if path.name.endswith(".py"):', 'if path.name.endswith((".py", ".pyc", ".data")):'))
bug("c09-suffixes", "C09", (EL, 'if path.name.endswith(".py"):', 'if ".py" in path.suffixes:'))
bug("c09-stop", "C09", (EL, "                # not an elf file\n                continue", "                # not an elf file\n                return"))
bug("c09-purelib", "C09", (WA, "any(p.name == \"purelib\" for p in fn.parents)", "fn.parent.name == \"purelib\""))
bug("c09-platform-early", "C09", (WA, "                platform_wheel = True\n\n                for key", "                for key"), (WA, "                is_py_ext, py_ver = elf_is_python_extension(fn, elf)\n", "                is_py_ext, py_ver = elf_is_python_extension(fn, elf)\n                platform_wheel = platform_wheel or is_py_ext or bool(elftree.needed)\n"))
bug("c09-needed", "C09", (WA, "            if fn.name not in needed_libs:", "            if fn.name not in needed_libs and not fn.name.startswith(\"lib\"):"))
bug("c09-record", "C09", (WT, "            filename = row[0]\n            yield Path(filename)", "            filename, hash_, _ = row\n            if hash_:\n                yield Path(filename)"))
bug("c09-dup", "C09", (WA, "                nonpy_elftree[fn] = elftree", "                nonpy_elftree.setdefault(Path(fn.name), elftree)"))
bug("c09-needed-all", "C09", (WA, "            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())\n            for lib in elf.needed", "            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())\n            for lib in elf.libraries"))
bug("c09-extref-skip", "C09", (WA, "            full_external_refs[fn] = policies.lddtree_external_references(\n                elf_tree,\n                ctx.path,\n            )", "            if elf_tree.needed and fn not in full_external_refs and fn in full_elftree:\n                full_external_refs[fn] = policies.lddtree_external_references(\n                    elf_tree,\n                    ctx.path,\n                )"))
# C10
bug("c10-blacklist", "C10", (MR, "        if requested_policy > wheel_abi.blacklist_policy:", "        if requested_policy > wheel_abi.blacklist_policy and not args.EXCLUDE:"))
bug("c10-machine", "C10", (MR, "        if requested_policy > wheel_abi.machine_policy:", "        if wheel_abi.machine_policy == wheel_abi.policies.linux < requested_policy and args.ONLY_PLAT:"))
bug("c10-after", "C10", (MR, "        if requested_policy > wheel_abi.ucs_policy:", "        if requested_policy > max(wheel_abi.ucs_policy, wheel_abi.pyfpe_policy):"))
# C11
bug("c11-order", "C11", (MR, "                *wheel_abi.overall_policy.aliases,\n                *abis,\n", "                *abis,\n                *wheel_abi.overall_policy.aliases,\n"))
bug("c11-sym", "C11", (MR, "            abis = [\n                wheel_abi.overall_policy.name,\n                *wheel_abi.overall_policy.aliases,", "            abis = [\n                wheel_abi.sym_policy.name,\n                *wheel_abi.sym_policy.aliases,"))
bug("c11-last", "C11", (RP, "ext_libs = v[abis[0]].libs", "ext_libs = v[abis[-1]].libs if abis[-1] in v else v[abis[0]].libs"))
bug("c11-only", "C11", (MR, "if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:", "if requested_policy < wheel_abi.overall_policy and not (args.ONLY_PLAT and plat == args.PLAT):"))
# C12
bug("c12-out-early", "C12", (RP, "        ctx.out_wheel = output_wheel\n        ctx.zip", "        ctx.out_wheel = output_wheel\n        shutil.copy2(wheel_path, output_wheel)\n        ctx.zip"))
bug("c12-apply-after", "C12", (RP, "        patcher.apply_updates()\n\n        if update_tags:", "        if update_tags:"), (RP, "write_text(json.dumps(sbom_data))\n\n    return", "write_text(json.dumps(sbom_data))\n\n    patcher.apply_updates()\n    return"))
bug("c12-strip-call", "C12", (RP, "        check_call([\"strip\", \"-s\", lib])", "        try:\n            check_call([\"strip\", \"-s\", lib])\n        except OSError:\n            logger.warning(\"strip not available\")"))
bug("c12-swallow", "C12", (PA, "                check_call([self._patchelf_path, *args, filepath])", "                try:\n                    check_call([self._patchelf_path, *args, filepath])\n                except CalledProcessError:\n                    if update_info.soname is None:\n                        raise"))
# C13
bug("c13-continue", "C13", (RP, "                if src_path is None:\n                    msg", "                if src_path is None and len(ext_libs) > 1:\n                    continue\n                if src_path is None:\n                    msg"))
bug("c13-order", "C13", (RP, "                # Handle libpython dependencies by removing them\n                if LIBPYTHON_RE.match(soname):", "                # Handle libpython dependencies by removing them\n                if src_path is not None and LIBPYTHON_RE.match(soname):"))
bug("c13-re", "C13", (LD, r'r"^libpython\d+\.\d+m?.so(\.\d)*$"', r'r"^libpython\d\.\dm?.so(\.\d)*$"'))
bug("c13-re2", "C13", (LD, r'r"^libpython\d+\.\d+m?.so(\.\d)*$"', r'r"^libpython\d+\.\d+.so(\.\d)*$"'))
# C14
bug("c14-hash", "C14", (RP, "    with src_path.open(\"rb\") as f:\n        shorthash = hashfile(f)[:8]", "    with src_path.open(\"rb\") as f:\n        f.seek(0, os.SEEK_END)\n        shorthash = hashfile(f)[:8]"))
bug("c14-hashblock", "C14", (HA, "    while len(buf) > 0:", "    while len(buf) == blocksize:"))
bug("c14-split", "C14", (RP, 'base, ext = src_name.split(".", 1)', 'base, ext = src_name.rsplit(".", 1)'))
bug("c14-name", "C14", (RP, "    src_name = src_path.name\n", "    src_name = src_path.resolve().name\n"))
bug("c14-writable", "C14", (RP, "    if not statinfo.st_mode & stat.S_IWRITE:", "    if not os.access(dest_path, os.W_OK):"))
bug("c14-writable2", "C14", (RP, "dest_path.chmod(statinfo.st_mode | stat.S_IWRITE)", "dest_path.chmod(stat.S_IREAD | stat.S_IWRITE)"))
bug("c14-copy", "C14", (RP, "    shutil.copy2(src_path, dest_path)", "    shutil.copy2(src_path, dest_path, follow_symlinks=False)"))
bug("c14-endswith", "C14", (RP, "if not base.endswith(f\"-{shorthash}\") else src_name", "if not re.search(r\"-[0-9a-f]{8}$\", base) else src_name"), (RP, "import platform\n", "import platform\nimport re\n"))
bug("c14-replace-last", "C14", (RP, "            if replacements:\n                patcher.replace_needed(fn, *replacements)\n\n            if len(ext", "            if replacements:\n                patcher.replace_needed(fn, *replacements[-1:])\n\n            if len(ext"))
bug("c14-repl-scope", "C14", (RP, "            ext_libs = v[abis[0]].libs\n            replacements: list[tuple[str, str]] = []", "            ext_libs = v[abis[0]].libs"), (RP, "        sbom_filepaths: list[Path] = []\n", "        sbom_filepaths: list[Path] = []\n        replacements: list[tuple[str, str]] = []\n"))
bug("c14-soname-name", "C14", (RP, "                replacements.append((soname, new_soname))", "                replacements.append((src_path.name, new_soname))"))
bug("c14-soname-exists", "C14", (RP, "    if dest_path.exists():\n        return new_soname, dest_path\n", "    if (dest_dir / src_name).exists():\n        return src_name, dest_dir / src_name\n    if dest_path.exists():\n        return new_soname, dest_path\n"))
# C15
bug("c15-first", "C15", (RP, "                if n in soname_map:\n                    replacements.append((n, soname_map[n][0]))", "                if n in soname_map and n not in external_refs_by_fn:\n                    replacements.append((n, soname_map[n][0]))\n                    break"))
bug("c15-prefix", "C15", (RP, "                if n in soname_map:\n                    replacements.append((n, soname_map[n][0]))", "                for known in soname_map:\n                    if n.startswith(known):\n                        replacements.append((n, soname_map[known][0]))"))
bug("c15-rpath", "C15", (RP, "                patcher.set_rpath(path, \"$ORIGIN\")", "                patcher.set_rpath(path, \"$ORIGIN:\" + patcher.get_rpath(path))"))
bug("c15-clear", "C15", (RP, "            else:\n                patcher.clear_rpath(path)", "            elif needed:\n                patcher.clear_rpath(path)"))
bug("c15-key", "C15", (RP, "                soname_map[soname] = (new_soname, new_path)", "                soname_map[src_path.name] = (new_soname, new_path)"))
# C16
bug("c16-order", "C16", (RP, "    rpaths = unique_by_index([*rpaths, rpath])", "    rpaths = unique_by_index([rpath, *rpaths])"))
bug("c16-fnparent", "C16", (RP, "os.path.relpath(dest_dir, new_fn.parent)", "os.path.relpath(dest_dir, fn.parent)"))
bug("c16-tokens", "C16", (RP, "        rpath = rpath.replace(f\"${{{token}}}\", target)  # ${TOKEN}\n", ""))
bug("c16-isabs", "C16", (RP, "    if not Path(full_rpath_entry).is_absolute():", "    if not Path(full_rpath_entry).is_absolute() and full_rpath_entry:"))
bug("c16-prefix", "C16", (RP, "    if not is_subdir(full_rpath_entry, wheel_base_dir):", "    if not full_rpath_entry.startswith(str(wheel_base_dir)):"))
bug("c16-libdir", "C16", (RP, "    lib_dir = lib_name.parent\n", "    lib_dir = lib_name.resolve().parent.parent if lib_name.parent.is_symlink() else lib_name.parent\n"))
bug("c16-cond", "C16", (RP, "            if len(ext_libs) > 0:\n", "            if replacements:\n"))
bug("c16-unique", "C16", (TO, "        if element not in uniques:", "        if not uniques or element != uniques[-1]:"))
bug("c16-direct", "C16", (RP, "    old_rpaths = patcher.get_rpath(lib_name)", "    old_rpaths = patcher.get_rpath_direct(lib_name)"))
bug("c16-legacy", "C16", (PA, '.strip().removesuffix(" (legacy)")', '.strip().split(" ")[0]'))
# C17
bug("c17-notpop", "C17", (PA, "            # prevent re-applying by removing from self._updates\n            update_info = self._updates.pop(filepath)\n            args = []", "            update_info = self._updates[filepath]\n            args = []"), (PA, "                check_call([self._patchelf_path, *args, filepath])\n        assert len(self._updates) == 0  # noqa: S101", "                check_call([self._patchelf_path, *args, filepath])\n                del self._updates[filepath]"))
bug("c17-key", "C17", (PA, "        return self._updates[file_name.resolve(strict=True)]", "        return self._updates[file_name.absolute()]"))
bug("c17-move", "C17", (PA, "            self._updates[new_key] = self._updates.pop(old_key)", "            self._updates[new_key] = dataclasses.replace(\n                self._updates.pop(old_key), remove_needed=[]\n            )"))
bug("c17-elif", "C17", (PA, "            if update_info.replace_needed:\n                args.extend(", "            elif update_info.replace_needed:\n                args.extend("))
bug("c17-clear", "C17", (PA, "if update_info.clear_rpath and update_info.rpath is None:", "if update_info.clear_rpath:"))
bug("c17-overlap", "C17", (PA, "        replaced_sonames = set(chain.from_iterable(replaced))", "        replaced_sonames = {old for old, _ in replaced}"))
bug("c17-none", "C17", (PA, "                or update_info.clear_rpath\n                or", "                or"))
bug("c17-getrpath", "C17", (PA, "            if update_info.clear_rpath:\n                return \"\"\n", ""))
bug("c17-setclear", "C17", (PA, "        self._update_for(file_name).clear_rpath = True", "        self._update_for(file_name).clear_rpath = True\n        self._update_for(file_name).rpath = None"))
bug("c17-rpath-empty", "C17", (PA, "            if update_info.rpath is not None:\n                set_args", "            if update_info.rpath:\n                set_args"))
# C18
bug("c18-before", "C18", (WT, "                rewrite_record(self.name)\n                date_time = None", "                if not (self.name / \"RECORD.done\").exists():\n                    rewrite_record(self.name)\n                date_time = None"))
bug("c18-recorddirs", "C18", (WT, "        return path == record_relpath", "        return path.name == \"RECORD\""))
bug("c18-size", "C18", (WT, "                size = f\"{len(data)}\"", "                size = f\"{len(data.rstrip())}\""))
bug("c18-posix", "C18", (WT, "            record_path_ = path.relative_to(bdist_dir).as_posix()", "            record_path_ = path.resolve().relative_to(bdist_dir.resolve()).as_posix()"))
bug("c18-b64", "C18", (WT, "from base64 import urlsafe_b64encode", "from base64 import b64encode as urlsafe_b64encode"))
bug("c18-jws", "C18", (WT, "    sig_path = info_dir / \"RECORD.jws\"", "    sig_path = info_dir / \"RECORD.p7s\""))
bug("c18-csv", "C18", (WT, "            writer.writerow((record_path_, hash_, size))", "            record_file.write(f\"{record_path_},{hash_},{size}\\r\\n\")"))
bug("c18-hidden", "C18", (WT, "            for file in files:\n                yield dir_ / file", "            for file in files:\n                if not file.startswith(\".\"):\n                    yield dir_ / file"))
bug("c18-pyc", "C18", (TO, "        filenames.sort()\n", "        filenames.sort()\n        filenames[:] = [f for f in filenames if not f.endswith(\".pyc\")]\n"))
# C19
bug("c19-symlink", "C19", (TO, "os.walk(topdir)", "os.walk(topdir, followlinks=True)"))
bug("c19-level", "C19", (TO, "z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)", "z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level or None)"))
bug("c19-clip", "C19", (TO, "    if date_time_args < (1980, 1, 1, 0, 0, 0):", "    if date_time_args[0] < 1979:"))
bug("c19-emptydir", "C19", (TO, "            if dname != in_dir:\n", "            if dname != in_dir and files:\n"))
bug("c19-mode", "C19", (TO, "                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)\n                zinfo.date_time = date_time_args\n", "                zinfo = zipfile.ZipInfo(str(out_fname), date_time_args)\n                zinfo.external_attr = 0o644 << 16\n"))
bug("c19-tz", "C19", (WT, "datetime.fromtimestamp(int(timestamp), tz=timezone.utc)", "datetime.fromtimestamp(int(timestamp))"))
bug("c19-sde", "C19", (WT, "                if timestamp:\n", "                if timestamp and timestamp != \"0\":\n"))
bug("c19-dirtime", "C19", (TO, "                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)\n                zinfo.date_time = date_time_args", "                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)"))
bug("c19-big", "C19", (TO, "                    z.writestr(zinfo, fp.read(), compresslevel", "                    z.writestr(zinfo, fp.read(1 << 30), compresslevel"))
# C20
bug("c20-bits", "C20", (TO, "                attr &= 511  # only keep permission bits", "                attr &= 0o7777  # only keep permission bits"))
bug("c20-read", "C20", (TO, "                attr |= 6 << 6", "                attr |= 6 << 3"))
bug("c20-zero", "C20", (TO, "            elif attr != 0:", "            elif attr & 0o111:"))
bug("c20-dupes", "C20", (TO, "        for name in z.namelist():\n            member = z.getinfo(name)", "        for name in sorted(set(z.namelist())):\n            member = z.getinfo(name)"))
bug("c20-dir", "C20", (TO, "                extracted_path.chmod(0o755)", "                extracted_path.chmod(attr or 0o755)"))
bug("c20-and", "C20", (TO, "attr = member.external_attr >> 16", "attr = (member.external_attr >> 16) & ~0o022"))
# C21
bug("c21-remove", "C21", (WT, "    fname_tags = [tag for tag in original_fname_tags if tag not in to_remove]", "    fname_tags = [tag for tag in original_fname_tags if tag not in remove_platforms]\n    to_remove = list(remove_platforms)"))
bug("c21-pyc", "C21", (WT, '["-".join(tag.split("-")[:2]) for tag in in_info_tags]', '[tag.rsplit("-", 1)[0] for tag in in_info_tags if tag.count("-") >= 2][:1]'))
bug("c21-sort", "C21", (WT, '".".join(sorted(fname_tags))', '".".join(fname_tags)'))
bug("c21-any-meta", "C21", (WT, "        to_remove.append(\"any\")\n", ""))
bug("c21-purelib", "C21", (WT, "            del info[\"Root-Is-Purelib\"]\n            info", "            info"))
bug("c21-dup", "C21", (WT, "    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]", "    new_tags = wanted_tags"))
bug("c21-cond", "C21", (WT, "    if updated_tags != in_info_tags:", "    if len(updated_tags) != len(in_info_tags):"))
bug("c21-platforms", "C21", (WT, "    return sorted({tag.platform for tag in in_tags})", "    return sorted({tag.platform.lower() for tag in in_tags if tag.abi != \"none\"} or {tag.platform for tag in in_tags})"))
bug("c21-replace", "C21", (PO, '    if name.startswith("musllinux_"):\n        return ["linux_" + "_".join(name.split("_")[3:])]\n', ''))
bug("c21-prefix", "C21", (WT, 'wheel_fname.rsplit("-", maxsplit=1)[0]', '"-".join(wheel_fname.split("-")[:4])'))
bug("c21-abi0", "C21", (RP, "add_platforms(ctx, abis, get_replace_platforms(abis[0]))", "add_platforms(ctx, abis, get_replace_platforms(abis[-1]))"))
# C22
bug("c22-name", "C22", (RP, "wheel_fname=output_wheel.name,", "wheel_fname=wheel_fname,"))
bug("c22-deps", "C22", (SB, "        sbom_dependencies.append({\"ref\": bom_ref})\n", "        if {\"ref\": bom_ref} not in sbom_dependencies[:1]:\n            sbom_dependencies.append({\"ref\": provided_by.purl})\n"))
bug("c22-always", "C22", (SB, "    if not sbom_packages:\n        return None\n", "    if not sbom_packages and not sbom_filepaths:\n        return None\n"))
bug("c22-libpython", "C22", (RP, "                    patcher.remove_needed(fn, soname)\n                    continue", "                    patcher.remove_needed(fn, soname)\n                    if src_path is not None:\n                        sbom_filepaths.append(src_path)\n                    continue"))
bug("c22-basename", "C22", (SB, "hashlib.sha256(filepath.encode(errors='ignore'))", "hashlib.sha256(filepath.rpartition('/')[2].encode(errors='ignore'))"))
bug("c22-dest", "C22", (RP, "                sbom_filepaths.append(src_path)\n                new_soname, new_path = copylib(src_path, dest_dir, patcher)", "                new_soname, new_path = copylib(src_path, dest_dir, patcher)\n                sbom_filepaths.append(new_path)"))
bug("c22-exist", "C22", (RP, "        if sbom_data:\n            sbom_dir", "        if sbom_data and update_tags:\n            sbom_dir"))
# C23
bug("c23-chmodsrc", "C23", (RP, "    statinfo = dest_path.stat()\n    if not statinfo.st_mode & stat.S_IWRITE:\n        dest_path", "    statinfo = src_path.stat()\n    if not statinfo.st_mode & stat.S_IWRITE:\n        src_path.chmod(statinfo.st_mode | stat.S_IWRITE)\n        dest_path"))
bug("c23-strip-src", "C23", (RP, "libs_to_strip = [path for (_, path) in soname_map.values()]", "libs_to_strip = list(dict.fromkeys(sbom_filepaths))"))
bug("c23-absdest", "C23", (RP, '        dest_dir = Path(match.group("name") + lib_sdir)', '        dest_dir = Path(lib_sdir) if os.path.isabs(lib_sdir) else Path(match.group("name") + lib_sdir)'))
bug("c23-inplace", "C23", (RP, "    shutil.copy2(src_path, dest_path)", "    try:\n        os.link(src_path, dest_path)\n    except OSError:\n        shutil.copy2(src_path, dest_path)"))
bug("c23-unlink", "C23", (MR, "        if out_wheel is not None:\n            logger", "        if out_wheel is not None and out_wheel.parent == wheel_file.absolute().parent:\n            wheel_file.unlink()\n        if out_wheel is not None:\n            logger"))
# C24
bug("c24-data", "C24", (RP, "    return len(components) == 3 and components[0]", "    return len(components) >= 3 and components[0]"))
bug("c24-mode", "C24", (RP, "    orig_path.chmod(new_path.stat().st_mode)", "    orig_path.chmod(0o755)"))
bug("c24-strip", "C24", (RP, "[script_shims.get(path, path) for path in external_refs_by_fn]", "[path for path in external_refs_by_fn if path not in script_shims]"))
bug("c24-update", "C24", (RP, "                    patcher.update_elf_path(fn, new_fn)\n                    script_shims", "                    script_shims"))
bug("c24-argv", "C24", (RP, "        sys.argv,\n", "        sys.argv[1:],\n"))
bug("c24-purelib", "C24", (RP, 'sysconfig.get_path("platlib")', 'sysconfig.get_path("purelib")'))
bug("c24-copy", "C24", (RP, "    orig_path.rename(new_path)\n", "    shutil.copyfile(orig_path, new_path)\n"))
# C25
bug("c25-set", "C25", (PO, "            for lib in sorted(needed_external_libs):", "            for lib in needed_external_libs:"))
bug("c25-set2", "C25", (TO, "        dirnames.sort()\n", ""))
bug("c25-time", "C25", (SB, '        "version": 1,\n        "metadata": {', '        "version": 1,\n        "serialNumber": f"urn:uuid:{uuid.uuid4()}",\n        "metadata": {'), (SB, "import typing\n", "import typing\nimport uuid\n"))
bug("c25-sbomorder", "C25", (SB, "for filepath, provided_by in sorted(sbom_packages.items()):", "for filepath, provided_by in set(sbom_packages.items()):"))
bug("c25-plats", "C25", (WT, "    return sorted({tag.platform for tag in in_tags})", "    return list({tag.platform for tag in in_tags})"))
bug("c25-unique", "C25", (TO, "    uniques = []\n    for element in sequence:\n        if element not in uniques:\n            uniques.append(element)\n    return uniques", "    return list(set(sequence))"))
bug("c25-bl", "C25", (EL, "            result[lib] = sorted(intersection)", "            result[lib] = list(intersection)"))
bug("c25-mtime", "C25", (TO, "                zinfo.date_time = date_time_args\n                zinfo.compress_type", "                zinfo.compress_type"))
# C26
bug("c26-ldpaths", "C26", (LD, "    assert ldpaths is not None  # noqa: S101", "    ldpaths = ldpaths or load_ld_paths(libc)\n    assert ldpaths is not None  # noqa: S101"), (LD, "        if ldpaths is None:\n            ldpaths = load_ld_paths(libc).copy()\n        # Propagate", "        if ldpaths is None:\n            ldpaths = load_ld_paths(libc)\n        # Propagate"))
bug("c26-cache-data", "C26", (WA, "    versioned_symbols = data.versioned_symbols\n", "    versioned_symbols = data.versioned_symbols\n    versioned_symbols.pop(\"\", None)\n"))
bug("c26-cache-refs", "C26", (WA, "    external_refs: dict[str, ExternalReference] = {\n        p.name: ExternalReference({}, {}, p) for p in policies\n    }\n\n    for fn in elftree_by_fn:", "    external_refs: dict[str, ExternalReference] = dict(\n        external_refs_by_fn[next(iter(elftree_by_fn))]\n    )\n\n    for fn in elftree_by_fn:"))
bug("c26-exclude", "C26", (MR, "    exclude: frozenset[str] = frozenset(args.EXCLUDE)", "    args.EXCLUDE.extend(os.environ.get(\"AUDITWHEEL_EXCLUDE\", \"\").split())\n    exclude: frozenset[str] = frozenset(args.EXCLUDE)"), (MR, "import logging\n", "import logging\nimport os\n"))
bug("c26-newcache", "C26", (EL, "def elf_read_dt_needed(", "@functools.lru_cache\ndef elf_read_dt_needed("), (EL, "from typing import TYPE_CHECKING, TypeVar\n", "import functools\nfrom typing import TYPE_CHECKING, TypeVar\n"))
bug("c26-libclru", "C26", (WT, "def get_wheel_platforms", "@functools.lru_cache\ndef get_wheel_platforms"), (WT, "import csv\n", "import csv\nimport functools\n"), (WT, "    fname_tags = unique_by_index(fname_tags + platforms)", "    original_fname_tags.extend(platforms)\n    fname_tags = unique_by_index(fname_tags + platforms)"))
bug("c26-default", "C26", (LD, "    _all_libs: dict[str, DynamicLibrary] | None = None,\n) -> Dyn", "    _all_libs: dict[str, DynamicLibrary] | None = None,\n    _seen: dict[str, str] = {},\n) -> Dyn"), (LD, "        realpath, fullpath = find_lib(platform, soname, all_ldpaths, root)", "        realpath, fullpath = _seen.get(soname) or find_lib(platform, soname, all_ldpaths, root)\n        if realpath is not None:\n            _seen[soname] = (realpath, fullpath)"))
bug("c26-cwd", "C26", (LD, "def parse_ld_paths(", "@functools.lru_cache\ndef parse_ld_paths("))
# C27
bug("c27-print", "C27", (MS, "            if args.JSON:\n                print(json.dumps({\"version\": 1, \"wheel\": fn, \"pure\": True}))\n            return 0", "            if args.JSON:\n                print(json.dumps({\"version\": 1, \"wheel\": fn, \"pure\": True}))\n            else:\n                return 0"))
bug("c27-flag", "C27", (MS, '"ucs2": winfo.ucs_policy == policies.linux', '"ucs2": winfo.ucs_policy != policies.highest'))
bug("c27-isa", "C27", (MS, '"unsupported_isa": winfo.machine_policy == policies.linux', '"unsupported_isa": winfo.machine_policy < policies.highest'))
bug("c27-libs", "C27", (MS, "    libs = winfo.external_refs[policies.highest.name].libs\n\n    policy_upgrades", "    libs = winfo.external_refs[policies.lowest.name].libs\n\n    policy_upgrades"))
bug("c27-upgrades", "C27", (MS, "            blacklist = winfo.external_refs[p.name].blacklist\n            if len(blacklist):\n                entry[", "            blacklist = winfo.external_refs[p.name].blacklist\n            if len(blacklist) and not entry:\n                entry["))
bug("c27-null", "C27", (MS, 'str(v) if v else None for', 'str(v) for'))
bug("c27-stdout", "C27", (WA, "                    log.warning(\"ignoring: %s with unknown architecture\", so_name)", "                    print(f\"ignoring: {so_name} with unknown architecture\")"))
bug("c27-error", "C27", (MS, "        if args.JSON:\n            print(json.dumps({\"version\": 1, \"wheel\": fn, \"error\": e.message}))\n        return 1", "        if args.JSON and not is_pure_python:\n            print(json.dumps({\"version\": 1, \"wheel\": fn, \"error\": e.message}))\n        return 1"))
bug("c27-indent", "C27", (JS, "    return json.dumps(obj, indent=4, cls=_CustomEncoder)", "    return json.dumps(obj, indent=4, cls=_CustomEncoder, skipkeys=True)"))
# C28
bug("c28-out", "C28", (WA, "    with InGenericPkgCtx(wheel_fn) as ctx:", "    with InGenericPkgCtx(wheel_fn, wheel_fn if libc is None else None) as ctx:"))
bug("c28-log", "C28", (ML, "    logger.info(json.dumps(ldd(args.file, ldpaths=ld_paths_from_arg(args.LDPATHS))))", "    out = json.dumps(ldd(args.file, ldpaths=ld_paths_from_arg(args.LDPATHS)))\n    Path(\"lddtree.json\").write_text(out)\n    logger.info(out)"))
bug("c28-subproc", "C28", (LC, "            [ld_path],\n            check=False", "            [\"ldd\", \"--version\"],\n            check=False"))
bug("c28-strip", "C28", (WA, "        platform_wheel = False\n        for fn, elf", "        platform_wheel = False\n        (ctx.path.parent / \"auditwheel.lock\").touch()\n        for fn, elf"))
# C29
bug("c29-pure", "C29", (MS, "is_pure_python = isinstance(e, NonPlatformWheelError)", "is_pure_python = isinstance(e, (NonPlatformWheelError, WheelToolsError))"))
bug("c29-purelib-name", "C29", (WT, "            raise NonPlatformWheelError(None, None)\n        msg = \"unknown", "            raise NonPlatformWheelError(None, None)\n        if missed:\n            raise NonPlatformWheelError(None, [])\n        msg = \"unknown"))
bug("c29-main", "C29", (MA, "    result: int | None = args.func(args, p)\n    return result", "    try:\n        result: int | None = args.func(args, p)\n    except KeyboardInterrupt:\n        result = 0\n    except ValueError as e:\n        logging.error(\"%s\", e)\n        return None\n    return result"))
# C30
bug("c30-strip", "C30", (MR, "            strip=args.STRIP,", "            strip=args.STRIP and args.PATCHER == \"patchelf\","))
bug("c30-env", "C30", (TO, "            default = self.env_default\n        if self", "            default = default or self.env_default\n        if self"))
bug("c30-envz", "C30", (TO, "        if self.env_default:\n            if type:", "        if self.env_default and default is None:\n            if type:"))
bug("c30-choices", "C30", (TO, "and choices is not None and self.env_default not in choices", "and choices and default is None and self.env_default not in choices"))
bug("c30-ldpaths", "C30", (MR, "                args_ldpaths=args.LDPATHS,", "                args_ldpaths=args.LDPATHS or None,"))
bug("c30-zip", "C30", (RP, "        ctx.zip_compression_level = zip_compression_level", "        ctx.zip_compression_level = zip_compression_level or ctx.zip_compression_level"))
bug("c30-isa", "C30", (MS, "            disable_isa_ext_check=args.DISABLE_ISA_EXT_CHECK,", "            disable_isa_ext_check=args.DISABLE_ISA_EXT_CHECK and not args.JSON,"))
bug("c30-default", "C30", (OP, "        dest=\"DISABLE_ISA_EXT_CHECK\",\n        action=\"store_true\",", "        dest=\"DISABLE_ISA_EXT_CHECK\",\n        action=\"store_const\",\n        const=\"1\","))
# C31
bug("c31-shell", "C31", (TO, 'subprocess.check_output(["tar", "xjf", tarbz2_fname, "-C", out_dir])', 'subprocess.check_output(f"tar xjf \'{tarbz2_fname}\' -C \'{out_dir}\'", shell=True)'))
bug("c31-run", "C31", (TO, 'subprocess.check_output(["tar"', 'subprocess.run(["tar"'))
bug("c31-version", "C31", (PA, ">= (0, 14, 5)", ">= (0, 14)"))
bug("c31-version2", "C31", (PA, "tuple(int(x) for x in m.group(1).split(\".\")) >= (0, 14, 5)", "[int(x) for x in m.group(1).split(\".\")[:2]] >= [0, 14]"))
bug("c31-strip", "C31", (RP, 'check_call(["strip", "-s", lib])', 'check_call(["strip", "--strip-unneeded", lib])'))
bug("c31-path", "C31", (PA, "        self._patchelf_path = str(_verify_patchelf(variant))", "        _verify_patchelf(variant)\n        self._patchelf_path = \"patchelf\""))
# C32
bug("c32-tmp", "C32", (TD, "        os.chdir(self._pwd)\n        self._tmpdir.__exit__(exc, value, tb)\n", "        os.chdir(self._pwd)\n        if exc is None:\n            self._tmpdir.__exit__(exc, value, tb)\n"))
bug("c32-order", "C32", (TD, "        self._pwd = Path.cwd()\n        os.chdir(self._name)\n        self._tmpdir.__enter__()", "        os.chdir(self._name)\n        self._pwd = Path.cwd()\n        self._tmpdir.__enter__()"))
bug("c32-init", "C32", (TD, "        self._tmpdir = TemporaryDirectory()", "        self._pwd = Path.cwd()\n        self._tmpdir = TemporaryDirectory()"), (TD, "        self._pwd = Path.cwd()\n        os.chdir(self._name)", "        os.chdir(self._name)"))
bug("c32-umask", "C32", (WT, "        zip2dir(self.in_wheel, self.name)\n        return super", "        os.umask(0o022)\n        zip2dir(self.in_wheel, self.name)\n        return super"))
bug("c32-epoch", "C32", (WT, "                timestamp = os.environ.get(\"SOURCE_DATE_EPOCH\")", "                timestamp = os.environ.pop(\"SOURCE_DATE_EPOCH\", None)"))
# C33
bug("c33-validate", "C33", (PO, "        if not lib_whitelist.issubset(set(policy[\"lib_whitelist\"])):", "        if len(lib_whitelist) > len(policy[\"lib_whitelist\"]):"))
bug("c33-arch", "C33", (PO, 'k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items()', 'k: frozenset(v) for k, v in policy["symbol_versions"][base_arch].items() if v'))
bug("c33-aliases", "C33", (PO, 'aliases = tuple(f"{alias}_{base_arch}" for alias in policy["aliases"])', 'aliases = tuple(f"{alias}_{base_arch}" for alias in policy["aliases"][:1])'))
bug("c33-update", "C33", (PO, "        lib_whitelist.update(policy[\"lib_whitelist\"])", "        lib_whitelist = set(policy[\"lib_whitelist\"][:1]) | lib_whitelist"))
bug("c33-musl", "C33", (PO, 'Architecture.riscv64: "libc.musl-riscv64.so.1"', 'Architecture.riscv64: "libc.musl-riscv.so.1"'))
bug("c33-symacc", "C33", (PO, "            symbol_versions[arch] = symbol_versions_arch", "            symbol_versions.setdefault(arch, dict(symbol_versions_arch))"))
# C34
bug("c34-arch", "C34", (WT, "    if missed or len(result) > 1:", "    if len(result) > 1:"))
bug("c34-libc", "C34", (WT, "            if platform.startswith(libc.tag_prefix):\n                result.add(libc)", "            if libc.tag_prefix in platform:\n                result.add(libc)\n                break"))
bug("c34-libcmulti", "C34", (WT, "    if len(result) > 1:\n        msg = f\"wheels with multiple libc", "    if len(result) > 2:\n        msg = f\"wheels with multiple libc"))
bug("c34-libcmismatch", "C34", (WA, "                        log.warning(\"ignoring: %s with %s libc\", so_name, elftree.libc)\n                        continue", "                        log.warning(\"ignoring: %s with %s libc\", so_name, elftree.libc)\n                        if not elftree.needed:\n                            continue"))
bug("c34-both", "C34", (LD, "                if libc is None:\n                    libc = Libc.GLIBC\n                if libc != Libc.GLIBC:", "                if libc is None or interpreter is not None:\n                    libc = Libc.GLIBC\n                if libc != Libc.GLIBC:"))
bug("c34-reset", "C34", (MR, "        arch = requested_architecture\n        is_pure_python = False", "        arch = requested_architecture = requested_architecture or None\n        is_pure_python = False"), (MR, "        if requested_architecture is not None and requested_architecture != arch:", "        requested_architecture = requested_architecture or arch\n            if requested_architecture is not None and requested_architecture != arch:") if False else (MR, "            is_pure_python = isinstance(e, NonPlatformWheelError)\n", "            is_pure_python = isinstance(e, NonPlatformWheelError)\n            arch = None\n"))
bug("c34-lc", "C34", (MR, "                if libc != lc:\n", "                if libc != lc and args.ONLY_PLAT:\n"))
# C35
bug("c35-level", "C35", (PO, 'android_api_level(p.name) <= api_level:', 'android_api_level(p.name) < api_level or p is self.lowest:'))
bug("c35-sort", "C35", (PO, "            for p in self._policies:\n                if p.name.startswith(\"android\")", "            for p in reversed(self._policies):\n                if p.name.startswith(\"android\")"))
bug("c35-ldpaths", "C35", (WA, "    if libc == Libc.ANDROID and args_ldpaths is None:\n        args_ldpaths = \"\"\n", "    if libc == Libc.ANDROID and not args_ldpaths and architecture is None:\n        args_ldpaths = \"\"\n"))
bug("c35-runpath", "C35", (PA, 'if self.platform.startswith("android") and android_api_level(self.platform) < 24:', 'if self.platform.startswith("android") and android_api_level(self.platform) < 23:'))
bug("c35-force", "C35", (PA, "                if self.platform.startswith(\"android\"):\n                    # Android supports", "                if self.platform.startswith(\"android_2\"):\n                    # Android supports"))
bug("c35-tagre", "C35", (WT, 're.match(r"android_(\\d+)", tag)', 're.match(r"android_(\\d\\d)", tag)'))
bug("c35-interp", "C35", (LD, '        "conf": parse_ld_paths(args_ldpaths),', '        "conf": parse_ld_paths(args_ldpaths) or ["/lib"],'))


# ---- later additions
bug("c30-envwins", "C30", (TO, "        setattr(namespace, self.dest, values)", "        setattr(namespace, self.dest, values if self.env_default is None else self.env_default)"))
bug("c17-overlapnew", "C17", (PA, "        replaced_sonames = set(chain.from_iterable(replaced))", "        replaced_sonames = {old for old, _ in replaced}"), (PA, "from itertools import chain\n", ""))
bug("c17-nomove", "C17", (PA, "self._updates[new_key] = self._updates.pop(old_key)", "self._updates[new_key] = self._updates[old_key]"))
bug("c17-clearempty", "C17", (PA, "            if update_info.rpath is not None:\n                return update_info.rpath\n            if update_info.clear_rpath:\n                return \"\"", "            if update_info.clear_rpath:\n                return \"\"\n            if update_info.rpath is not None:\n                return update_info.rpath"))
bug("c25-sbomorder", "C25", (SB, "sorted(sbom_packages.items())", "sbom_packages.items()"))
bug("c27-elim", "C27", (MS, "sorted(p_libs.keys())", "list(p_libs.keys())"))
bug("c21-pycunique", "C21", (WT, "    pyc_apis = unique_by_index(pyc_apis)\n", ""))
bug("c29-status", "C29", (MR, "                # process next wheel\n                continue\n            return 1", "                # process next wheel\n                continue\n            return 0 if is_pure_python else 1"))
# equivalent: bug("c24-starargs", "C14", (RP, "patcher.replace_needed(fn, *replacements)", "patcher.replace_needed(fn, *replacements[::-1][:len(set(replacements))][::-1])"))


def make(id, dst):
    prop, edits = B[id]
    shutil.copytree("/repo/src", dst / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    for rel, old, new in edits:
        f = dst / "src/auditwheel" / rel
        t = f.read_text()
        if t.count(old) != 1:
            return f"{id}: {t.count(old)} occurrences in {rel}: {old[:60]!r}"
        f.write_text(t.replace(old, new))
        try:
            compile(f.read_text(), rel, "exec")
        except SyntaxError as e:
            return f"{id}: {e}"


def run(id):
    d = Path(tempfile.mkdtemp(prefix="bug"))
    try:
        err = make(id, d)
        if err:
            return id, None, err
        r = subprocess.run([sys.executable, str(Path(__file__).resolve().parent / "allprops.py"), str(d)], capture_output=True, text=True)
        try:
            return id, json.loads(r.stdout.splitlines()[-1]), ""
        except Exception:
            return id, None, r.stderr[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# hold-out bugs
bug("c02-nounderscore", "C02", (PO, "                sym_name, _, _ = symbol.partition(\"_\")\n", "                sym_name, sep, _ = symbol.partition(\"_\")\n                if not sep:\n                    continue\n"))
bug("c06-depth", "C06", (PO, "            reqs = set()\n            while libs:\n                lib = libs.pop()\n                reqs.add(lib)\n                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):\n                    if dep not in reqs:\n                        libs.add(dep)\n", "            reqs = libs.copy()\n            while libs:\n                lib = libs.pop()\n                reqs.update(filter_libs(lddtree.libraries[lib].needed, whitelist))\n"))
bug("c12-interrupt", "C12", (WT, "            if exc is None and self.out_wheel is not None:", "            if (exc is None or not issubclass(exc, Exception)) and self.out_wheel is not None:"))
bug("c18-chunk", "C18", (WT, "                data = path.read_bytes()\n", "                with path.open(\"rb\") as data_file:\n                    data = data_file.read(1 << 20)\n"))
bug("c22-newonly", "C22", (RP, "                sbom_filepaths.append(src_path)\n                new_soname, new_path = copylib(src_path, dest_dir, patcher)\n", "                new_soname, new_path = copylib(src_path, dest_dir, patcher)\n                if soname not in soname_map:\n                    sbom_filepaths.append(new_path if src_path.is_symlink() else src_path)\n"))
bug("c34-baseline", "C34", (MR, "if requested_architecture is not None and requested_architecture != arch:", "if requested_architecture is not None and requested_architecture.baseline != arch:"))
bug("c35-level2", "C35", (PA, "android_api_level(self.platform) < 24:", "android_api_level(self.platform) < 24 and rpath.count(\"/\") > 1:"))
bug("c26-cachedgen", "C26", (EL, "def elf_find_versioned_symbols(", "@lru_cache(maxsize=None)\ndef elf_find_versioned_symbols("), (EL, "from typing import TYPE_CHECKING, TypeVar\n", "from functools import lru_cache\nfrom typing import TYPE_CHECKING, TypeVar\n"))
bug("c13-found", "C13", (RP, "                if LIBPYTHON_RE.match(soname):", "                if src_path is None and LIBPYTHON_RE.match(soname):"))
bug("c14-cachesoname", "C14", (RP, "                new_soname, new_path = copylib(src_path, dest_dir, patcher)\n                soname_map[soname] = (new_soname, new_path)\n", "                if soname not in soname_map:\n                    soname_map[soname] = copylib(src_path, dest_dir, patcher)\n                new_soname, new_path = soname_map[soname]\n"))
bug("c32-enter", "C32", (WT, "        zip2dir(self.in_wheel, self.name)\n        return super().__enter__()\n", "        path = super().__enter__()\n        zip2dir(self.in_wheel, self.name)\n        return path\n"))
bug("c04-sorted", "C04", (WA, "                        set(d[k].blacklist[lib]) | set(symbols),", "                        set(d[k].blacklist[lib]) ^ set(symbols),"))
bug("c08-first", "C08", (LD, "        if any(fnmatch(soname, e) for e in exclude):", "        if any(fnmatch(soname, e) for e in exclude) and soname not in _all_libs and _first:"))
bug("c20-exec", "C20", (TO, "                attr |= 6 << 6  # at least read/write for current user", "                attr |= (attr & 0o044) << 3  # at least read/write for current user"))
bug("c10-ucs", "C10", (MR, "        if requested_policy > wheel_abi.ucs_policy:", "        if requested_policy > max(wheel_abi.ucs_policy, policies.lowest):"))
bug("c03-jbufname", "C03", (EL, '"PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"', '"PyFPE_jbuf", "PyFPE_dummy"'))

if __name__ == "__main__":
    ids = [i for i in B if not sys.argv[2:] or any(a in i for a in sys.argv[2:])]
    with ThreadPoolExecutor(8) as ex:
        for id, res, err in ex.map(run, ids):
            if res is None:
                print("ERROR", id, err)
                continue
            p = B[id][0]
            mark = "ok    " if p in res["viol"] else "OTHER " if res["viol"] else "MISS  "
            print(mark, id, "viol:", ",".join(res["viol"]), "" if p in res["viol"] else "undecided: " + str(res["und"].get(p, []))[:300])
