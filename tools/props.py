"""Property texts: source of /verif/properties.jsonl and of MANIFEST.json."""
A = "src/auditwheel/"
WA, RP, WT, PO, LD, PA, TO, EU, MR, MS = (A + x for x in (
    "wheel_abi.py", "repair.py", "wheeltools.py", "policy/__init__.py", "lddtree.py", "patcher.py", "tools.py",
    "elfutils.py", "main_repair.py", "main_show.py"))
INP, CFG, FLT, HIS, CRA = "inputs", "configurations", "fault_sequences", "histories", "crash_points"

P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p("C01", "The reported platform tag never exceeds any individual verdict",
  "The overall platform tag of a wheel is the least compatible of its symbol-version, unicode-width, floating-point-trap, black-listed-symbol and instruction-set verdicts; when grafting is not allowed the external-library verdict is included too, and when a tag is being chosen for repair the tag whose libraries would be grafted is included too. No combination of wheel contents or options yields an overall tag better than one of those verdicts, and none of them is dropped or replaced by a more optimistic value.",
  [INP, CFG], "every wheel, every option combination",
  "Tests run a handful of prebuilt wheels, most of which are limited by exactly one verdict; combinations in which a different verdict is the smallest are never sampled.",
  [WA, PO], [("minimum over verdicts", WA + ":analyze_wheel_abi"), ("policy order", PO + ":Policy.__lt__")])

p("C02", "Versioned-symbol verdict: no tag allows a symbol version it does not list",
  "A wheel gets the highest tag for which every versioned symbol needed by any analysed ELF file of the wheel belongs to the versions that tag lists for that symbol family (families the tag does not mention are not restricted). The versions needed by the external libraries that a tag would graft count for that tag as well, recursively through the libraries of the wheel's top-level ELF files, and a tag is never judged with the symbols of another one.",
  [INP], "every set of versioned symbols, every library closure, every tag",
  "Tests feed two or three symbol sets; subset comparison over all families, tags and grafted libraries is not sampled.",
  [WA, PO, EU], [("symbol check", PO + ":versioned_symbols_policy"), ("per-tag symbol union", WA + ":get_symbol_policies"),
                 ("symbol collection", EU + ":elf_find_versioned_symbols")])

p("C03", "UCS2 and PyFPE references of any extension module cap the tag at linux",
  "If any Python extension module in the wheel leaves one of the PyFPE symbols undefined, or any Python 2 extension module references an undefined UCS2 unicode function, the wheel's tag is the generic linux tag, whatever the order of the files and whatever other modules contain. Extension modules are recognised by a defined module initialisation function named after the file.",
  [INP], "every set and order of ELF files and symbol tables",
  "The tests have one wheel per flag; the accumulation over several files and the symbol attributes are not enumerated.",
  [WA, EU], [("flag accumulation", WA + ":get_wheel_elfdata"), ("symbol tests", EU + ":elf_references_pyfpe_jbuf, elf_find_ucs2_symbols, elf_is_python_extension")])

p("C04", "Black-listed symbols cap the tag and are reported completely",
  "A wheel that leaves undefined a strong symbol black-listed by a tag for a library it directly needs is not eligible for that tag, for every analysed ELF file. The list of offending symbols kept for a tag is the sorted union over the wheel's analysed files, and a wildcard entry black-lists every use of the library.",
  [INP], "every symbol table and every blacklist in the policy files",
  "Only one black-list test wheel exists (zlib); merging over several files and wildcard entries are not tested.",
  [PO, WA, EU], [("blacklist filter", EU + ":filter_undefined_symbols"), ("merge", WA + ":update"), ("verdict", WA + ":analyze_wheel_abi")])

p("C05", "Instruction-set verdict: extended ISA is never silently accepted",
  "Unless the check is disabled, a wheel with an analysed ELF file, or an external library required by it, that needs an instruction set beyond the target architecture is limited to the generic linux tag, or, for an external library that tags white-list, to the best tag white-listing it. The instruction set needed is the highest one announced in the file's property notes, and unknown or ABI-incompatible files are rejected instead of accepted.",
  [INP, CFG], "every ELF property note, every dependency graph, every architecture variant",
  "Tests use mocks with one or two files; combinations, ordering and the flag parsing are not covered.",
  [WA, LD, A + "architecture.py"], [("verdict", WA + ":_get_machine_policy"), ("note parsing", LD + ":_get_platform"), ("order", A + "architecture.py:is_superset")])

p("C06", "External libraries of a tag are exactly the reachable, non-white-listed ones",
  "For every tag, the external libraries of an ELF file are exactly the libraries reachable from it through needed entries without passing through the dynamic loader, a library white-listed by that tag (or libpython on Android), minus those that resolve inside the wheel; libraries that cannot be found are kept as external with no location. The generic linux tag never has external libraries, and the libraries of the wheel are the union over its top-level files.",
  [INP], "every dependency graph, every tag",
  "Tests use small fixed dependency trees; the fix-point over arbitrary graphs (cycles, whitelisted inner nodes) is not sampled.",
  [PO, WA, TO], [("closure", PO + ":lddtree_external_references"), ("inside-wheel test", TO + ":is_subdir"), ("union", WA + ":update")])

p("C07", "Library lookup follows the loader's search order and ELF compatibility",
  "A needed library resolves to the first existing, ELF-compatible file in: the executable's RPATH, the file's own RPATH, then RUNPATH, then the environment directories, the executable's RUNPATH, the configured directories and the interpreter directories. RPATH is ignored when RUNPATH is present, $ORIGIN is expanded from the file carrying it, an empty entry is the current directory, and a file with a different class, byte order, machine or OS ABI is skipped.",
  [INP, CFG], "every RPATH/RUNPATH content, environment and file layout",
  "Tests check a few rpath strings on the machine's own layout; precedence between sources is not exercised.",
  [LD], [("search order", LD + ":ldd"), ("compatibility", LD + ":find_lib, Platform.is_compatible"), ("path parsing", LD + ":parse_ld_paths, parse_ld_so_conf, load_ld_paths")])

p("C08", "--exclude removes a library everywhere and only that library",
  "A library whose name, or whose resolved real path, matches one of the exclusion patterns given to the repair command is never resolved, analysed or grafted for any file of the wheel and does not appear among the needed libraries; a library matching no pattern is unaffected. Patterns are shell-style wildcards and all of them are honoured at every depth of the dependency tree.",
  [INP, CFG], "every pattern set and dependency tree",
  "Tests exclude one library at depth one.",
  [LD, WA, MR], [("name and path match", LD + ":ldd"), ("option plumbing", MR + ":execute"), ("analysis", WA + ":get_wheel_elfdata")])

p("C09", "Every ELF file of the wheel is analysed, or the wheel is rejected",
  "Every file listed in the wheel's RECORD that is an ELF file is analysed (files ending in .py and non-ELF files are skipped); a shared library under a purelib directory makes the command fail, and a wheel with no ELF file of the wanted architecture and libc is reported as not being a platform wheel. ELF files that are not extension modules are included in the verdicts unless another ELF file of the wheel needs them, and their external libraries are always recorded.",
  [INP], "every wheel layout",
  "Test wheels have one or two ELF files; mixtures of extensions, libraries and executables are not enumerated.",
  [WA, EU, WT], [("iteration", WA + ":get_wheel_elfdata"), ("ELF filter", EU + ":elf_file_filter"), ("RECORD", WT + ":iter_files")])

p("C10", "repair refuses a tag the wheel cannot satisfy",
  "The repair command never produces a wheel for a requested tag that is better than the wheel's symbol-version, unicode, black-list or instruction-set verdict: it exits with an error before anything is grafted. With the automatic choice the requested tag is the wheel's overall tag, or the lowest real tag if the overall one is generic linux.",
  [INP, CFG], "every combination of verdicts and requested tag",
  "Each refusal is tested with at most one wheel; the comparison is not enumerated over tags.",
  [MR], [("gates", MR + ":execute")])

p("C11", "The repaired wheel gets only tags it was checked for",
  "The tags given to a repaired wheel are the requested tag and its aliases, preceded by the overall tag and its aliases only when that one is better and the user did not restrict repair to the requested tag; nothing else is added. The libraries grafted are those external for the first of these tags.",
  [INP, CFG], "every requested tag, alias set and option",
  "End-to-end tests check a few tags only.",
  [MR, RP, PO], [("tag list", MR + ":execute"), ("library choice", RP + ":repair_wheel"), ("lookup by name or alias", PO + ":get_policy_by_name")])

p("C12", "A failed repair leaves no wheel in the output directory",
  "If anything fails while the wheel is being repaired (a missing library, the patching or strip tool, metadata that cannot be parsed), the command fails and no wheel file is written to the output directory. A wheel is only packed after every modification has been completed.",
  [INP, FLT, CRA], "every failure point during repair",
  "No test looks at the output directory after a failure; failures inside the context are not injected.",
  [WT, RP], [("packing on exit", WT + ":InWheel.__exit__")])

p("C13", "Unlocatable libraries abort repair; libpython is removed, never grafted",
  "When a required external library has no known location repair raises an error instead of producing a wheel without it. A libpython dependency is removed from the file that has it and is never copied into the wheel, including when it was not located.",
  [INP], "every external reference map",
  "Only one missing-library test; the mixture with libpython is not sampled.",
  [RP, LD], [("error", RP + ":repair_wheel"), ("libpython pattern", LD + ":LIBPYTHON_RE"), ("skip resolution", LD + ":ldd")])

p("C14", "Grafted libraries get content-derived names and every reference is rewritten",
  "Each external library is copied into the wheel under its base name plus the first eight digits of the SHA-256 of its content, its soname is set to that name, and the copy is writable by the owner. Every ELF file of the wheel needing that library has exactly that needed entry replaced by the new name, and a library already present under the new name is reused without being copied again.",
  [INP], "every library name, content and permission",
  "One naming test with mocks; the pairing of replaced names over several libraries and files is not covered.",
  [RP, A + "hashfile.py"], [("copy and name", RP + ":copylib"), ("replacement", RP + ":repair_wheel"), ("digest", A + "hashfile.py:hashfile")])

p("C15", "Grafted libraries refer to each other by their new names",
  "For every grafted library, each needed entry that names another grafted library is rewritten to that library's new name and its search path becomes its own directory; a grafted library with no such entry gets its search path removed. No needed entry is rewritten to the name of a different library.",
  [INP], "every dependency graph among grafted libraries",
  "Mock based tests look at one chain only.",
  [RP], [("second pass", RP + ":repair_wheel")])

p("C16", "Search paths of wheel ELF files reach the grafts and never leave the wheel",
  "Every ELF file of the wheel with external libraries gets a search path consisting of its previous entries that resolve to a location inside the wheel, in order and without duplicates, followed by the path from the file's final directory to the grafted libraries relative to its origin. Entries outside the wheel or not absolute after token expansion are dropped.",
  [INP], "every previous search path and file location",
  "Unit tests check a few paths.",
  [RP, TO], [("append", RP + ":append_rpath_within_wheel"), ("validity", RP + ":_is_valid_rpath"), ("inside test", TO + ":is_subdir")])

p("C17", "Queued ELF modifications are applied completely, once, to the right file",
  "Every soname, needed-removal, needed-replacement and search-path change requested for a file is applied by exactly one invocation of the patching tool for that file with all of them, and is not applied again later; a search path that is set wins over its removal. Contradictory removal and replacement of the same name is refused, changes follow a file that is moved, and the patcher that cannot patch fails if there is anything to patch.",
  [INP, HIS], "every sequence of requested changes",
  "Tests check single requests or fixed pairs.",
  [PA], [("queue", PA + ":ElfPatcher"), ("application", PA + ":_Patchelf.apply_updates, _NonePatcher.apply_updates")])

p("C18", "RECORD lists every file of the repaired wheel with its true hash and size",
  "RECORD of a written wheel has exactly one row per file in it, with the URL-safe unpadded SHA-256 of its bytes and its size, its path relative to the wheel's root with forward slashes, and empty hash and size for RECORD itself. The hashes are taken after the last modification, and a signature file is removed.",
  [INP], "every wheel content",
  "Tests check record presence on a few wheels only.",
  [WT, TO], [("rewrite", WT + ":rewrite_record"), ("order before packing", WT + ":InWheel.__exit__"), ("walk", TO + ":walk")])

p("C19", "The written archive contains every file, with its mode and a fixed timestamp",
  "The written archive has exactly one entry for every directory and every file below the wheel's root, named relative to it, with the file's bytes and mode, compressed with the requested level. Every entry carries the same timestamp, taken from SOURCE_DATE_EPOCH when it is set and clipped to 1980.",
  [INP, CFG], "every directory tree, level and timestamp",
  "Tests use one or two trees.",
  [TO, WT], [("packing", TO + ":dir2zip"), ("timestamp source", WT + ":InWheel.__exit__"), ("order", TO + ":walk")])

p("C20", "Unpacking keeps permission bits and makes files modifiable",
  "When a wheel is unpacked every member is extracted; directories get mode 755, files get exactly the permission bits stored in the archive plus read and write for the owner, and no set-id or sticky bits. Files stored without a mode keep the default one.",
  [INP], "every archive and mode",
  "One permission test with a few modes.",
  [TO], [("extraction", TO + ":zip2dir")])

p("C21", "File name tags and metadata tags change together and consistently",
  "With tag updates enabled, the new wheel's file name has exactly the old platform tags without the replaced ones plus the new ones, without duplicates and sorted, and its metadata has the old tags without the replaced platforms plus one tag per interpreter/ABI pair and new platform. A wheel that was 'any' loses that tag in both places and is marked as not purelib, and all other parts of the name and of the metadata are kept.",
  [INP], "every tag combination",
  "A few names are tested.",
  [WT, PO], [("retagging", WT + ":add_platforms"), ("replaced platforms", PO + ":get_replace_platforms")])

p("C22", "An SBOM is added exactly when a grafted library has a known package",
  "A repaired wheel contains an SBOM file if and only if a system package was identified for at least one grafted library; it describes the wheel under its final file name and has one component, one dependency edge and one dependency node per identified library, consistent with each other. Libraries that are not grafted do not appear.",
  [INP], "every set of grafted libraries and packages",
  "Tests use one package.",
  [A + "sboms.py", RP], [("document", A + "sboms.py:create_sbom_for_wheel"), ("writing", RP + ":repair_wheel")])

p("C23", "repair writes only inside its temporary directory and the output directory",
  "During repair the only files created, changed, renamed or deleted lie in the unpacked copy of the wheel, except for the finished wheel in the output directory, the output directory itself, and the unchanged copy of a pure wheel. The input wheel and the system libraries being grafted are only read.",
  [INP, CFG], "every wheel and option combination",
  "Tests never check that sources stay unmodified; a write through a wrong path variable would pass.",
  [RP, WT, TO, PA, MR], [("copy target", RP + ":copylib"), ("patch targets", RP + ":repair_wheel"), ("out dir", MR + ":execute")])

p("C24", "ELF executables in the scripts directory get a working shim",
  "An ELF file with external libraries located directly in the wheel's scripts data directory is moved to a directory in the platform library area with its name, and a script with the same mode is left at its place that executes the moved file from the platform library directory with the same arguments. All pending and later modifications of that file, including stripping, apply to the moved file; other files are not moved.",
  [INP], "every script file with dependencies",
  "One end-to-end test, skipped offline.",
  [RP, PA], [("move and shim", RP + ":_replace_elf_script_with_shim"), ("script test", RP + ":_path_is_script"), ("queue move", PA + ":update_elf_path")])

p("C25", "Output does not depend on hash seeds, directory order or the clock",
  "Given the same inputs, environment and SOURCE_DATE_EPOCH, the written wheel is the same byte for byte: the iteration order of unordered sets, the order in which directories are listed, the current time and process-specific values never reach the archive, RECORD, the metadata, the grafted names, the SBOM or the machine-readable report.",
  [CFG, HIS], "every hash seed, file-system order and time of day",
  "The reproducibility test runs twice in one process with a fixed hash seed.",
  [PO, TO, WT, A + "sboms.py", MS], [("sorted walk", TO + ":walk"), ("sorted libraries", PO + ":lddtree_external_references")])

p("C26", "Analysing a file gives the same result whatever was analysed before",
  "Results that are kept for later calls (linker configuration, architecture lists, wheel analysis) are never modified by their users, no option default is mutated, and no other state survives a call, so analysing a wheel a second time or after other wheels gives the same result as analysing it alone.",
  [HIS], "every sequence of analyses in one process",
  "Tests run each analysis once or clear the caches.",
  [LD, WA, A + "architecture.py"], [("caches", LD + ":load_ld_paths, parse_ld_so_conf"), ("wheel cache", WA + ":get_wheel_elfdata")])

p("C27", "show --json prints exactly one complete JSON document",
  "With the JSON option every normal exit of the show command (platform wheel, pure wheel, not a platform wheel) prints exactly one JSON document and nothing else on standard output. For a platform wheel its tags, flags, symbol versions, external libraries and blocking libraries and symbols per better tag are those of the analysis; a flag is set exactly when its verdict is the generic linux tag.",
  [INP, CFG], "every wheel kind and analysis result",
  "Tests check one platform wheel and the error paths.",
  [MS, A + "json.py"], [("document", MS + ":_output_json"), ("exits", MS + ":execute")])

p("C28", "show and lddtree never write to the file system",
  "The show and lddtree commands only read: neither they nor anything they call during analysis creates, modifies, renames or deletes files outside the private temporary directory the wheel is unpacked in, and no archive is written. They also run no external program other than the C library's version query and the archive reader.",
  [INP, CFG], "every input file",
  "Absence of an effect on all paths is not testable.",
  [MS, A + "main_lddtree.py", WA, LD, EU], [("no output wheel", WA + ":get_wheel_elfdata"), ("temporary unpacking", A + "tmpdirs.py")])

p("C29", "Exit status and pure wheels",
  "The show and repair commands return success only if every given wheel was handled: a wheel without ELF files returns failure unless its name says it is pure and pure wheels were explicitly allowed, in which case show reports it as pure and repair copies it unchanged to the output directory (unless it is already there) and continues with the next wheel. A missing file is an error, and success or failure is the process's exit status.",
  [INP, CFG], "every sequence of wheels",
  "Tests run one wheel at a time, mostly.",
  [MR, MS, A + "main.py", A + "__main__.py", WT], [("repair", MR + ":execute"), ("show", MS + ":execute"), ("exit status", A + "__main__.py")])

p("C30", "Every command-line option reaches the decision it documents",
  "Every option of repair, show and lddtree has its documented default and meaning and its value reaches the code it controls unchanged, and options with an environment variable take the command-line value first, then the environment, then the default. An invalid value in the environment is rejected like an invalid option.",
  [CFG], "every combination of options and environment variables",
  "Defaults and pairs of options are not enumerated; most end-to-end tests use mocks.",
  [MR, MS, A + "options.py", TO], [("options", MR + ":configure_parser"), ("environment defaults", TO + ":EnvironmentDefault")])

p("C31", "External programs get exact arguments, no shell, and their failures are errors",
  "External programs are only started with an argument list (never through a shell), only the documented ones are started, and a patching, stripping or unpacking program that fails makes the command fail. The patching tool is only used if found, and patchelf only at version 0.14.5 or later.",
  [INP, FLT], "every call of an external program",
  "Tests mock the subprocess functions; failure of each tool is not injected.",
  [PA, RP, TO, A + "libc.py"], [("patchelf", PA), ("strip", RP + ":strip_symbols"), ("tar", TO + ":tarbz2todir")])

p("C32", "The working directory and temporary files are restored on every exit",
  "After analysing or repairing a package, successfully or not, the process is back in the directory it was started in and the temporary directory has been removed, even when writing the output fails. Entering and leaving such a context changes nothing else.",
  [FLT, CRA], "every failure inside or while leaving the context",
  "Tests only leave the contexts normally.",
  [A + "tmpdirs.py", WT, A + "condatools.py"], [("restore", A + "tmpdirs.py:InTemporaryDirectory.__exit__"), ("pack", WT + ":InWheel.__exit__")])

p("C33", "The policy tables are consistent and strictly ordered",
  "In the shipped policy files, names and priorities are unique, generic linux is the lowest, newer tags accept every library and symbol version accepted by better (older) ones, aliases are unambiguous, and every tag's name, libraries, versions and blacklist for the wheel's architecture are taken over unchanged into the tags used for verdicts. Tables in which a newer tag drops a library or symbol version are rejected when loaded.",
  [CFG], "every libc, architecture and tag in the policy files",
  "Tests check compliance for synthetic tables and a few names.",
  [PO, A + "policy/manylinux-policy.json", A + "policy/musllinux-policy.json", A + "policy/android-policy.json"],
  [("loading", PO + ":WheelPolicies.__init__"), ("validation", PO + ":_validate_pep600_compliance")])

p("C34", "Architecture or libc mismatch is rejected, never repaired",
  "A wheel whose file name gives another architecture or libc than the requested tag is an error; a name with several or unknown architectures or libcs is never taken for one of them. During analysis ELF files of another architecture or libc than the wheel's are not judged by its tags, the first file decides when nothing is known, and a file depending on both C libraries or an extension with no known C library is an error.",
  [INP, CFG], "every file name, requested tag and ELF set",
  "A few names and one mismatch are tested.",
  [MR, WT, WA, LD], [("request check", MR + ":execute"), ("name parsing", WT + ":get_wheel_architecture, get_wheel_libc"), ("file check", WA + ":get_wheel_elfdata"), ("libc detection", LD + ":ldd")])

p("C35", "Android wheels keep their tag and API-level rules",
  "For an Android wheel the only tag besides generic linux is the wheel's own one, with the rules of the highest listed API level not above it; several tags or a level below the first listed one are errors. Libraries of the build machine's loader configuration are never used, libpython is not an external library, and search paths are refused below API level 24 and written as RUNPATH otherwise.",
  [INP, CFG], "every API level and Android wheel",
  "Tests use two API levels.",
  [PO, PA, WA, LD], [("tag selection", PO + ":WheelPolicies.__init__"), ("rpath", PA + ":set_rpath, apply_updates"), ("no host paths", WA + ":get_wheel_elfdata")])

# ---- stated, but out of reach of static analysis
NA = {}


def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech)
    NA[id] = reason


na("C50", "A repaired wheel imports and behaves like the original",
   "Installing a repaired wheel on any system compatible with its tag gives modules that import and behave as the original ones did on the build machine.",
   [INP, CFG], "every wheel and every target system", "Tests import a few wheels in one container image.",
   [RP], [("repair", RP + ":repair_wheel")],
   "Depends on the run-time behaviour of foreign machine code and dynamic loaders; nothing in auditwheel's source decides it.")
na("C51", "The patching and strip tools leave valid ELF files",
   "Every ELF file modified by the external patching or strip tool is a valid ELF file with the requested changes and the same code.",
   [INP], "every ELF file", "Tests patch a few files.",
   [PA], [("patching", PA + ":apply_updates")],
   "The transformation is done by patchelf, LIEF and binutils binaries whose source is not in this repository; only their invocation (C17, C31) can be decided here.")
na("C52", "Unpacking and packing preserve every byte for any archive",
   "Unpacking a wheel and packing it again without changes gives an archive with the same members, bytes and metadata.",
   [INP], "every archive", "Tests round-trip a few archives.",
   [TO], [("zip", TO + ":zip2dir, dir2zip")],
   "Value-level equality of data passed through the standard library's zip codec and the file system; the static part (every member is extracted and packed, modes, names) is claimed as C19 and C20.")
na("C53", "Analysis terminates in reasonable time on every wheel",
   "Analysis and repair terminate for every input, in time polynomial in the size of the wheel and its dependency closure.",
   [INP], "every input", "No test measures it.",
   [LD, PO], [("closure", PO + ":lddtree_external_references")],
   "A bound on run time needs ranking arguments over file-system contents (cyclic symbolic links, include directives) that no sound static argument over this source can give.")
na("C54", "Concurrent runs do not disturb each other",
   "Several auditwheel processes working at the same time on the same wheel and output directory each produce a complete wheel or fail.",
   ["schedules"], "every interleaving of processes", "No test runs two processes.",
   [WT, MR], [("packing", WT + ":InWheel.__exit__")],
   "The guarantee is not provided (archives are written in place without locks), and interleavings with the file system are not decidable from the source.")
na("C55", "ELF structures are decoded correctly",
   "Sections, segments, notes and symbols reported for a file are those in the file, for every ELF class, byte order and malformed file.",
   [INP], "every ELF file", "Only well-formed files of a few architectures are tested.",
   [EU, LD], [("decoding", EU)],
   "Done by the third-party pyelftools library, which is outside this repository.")
