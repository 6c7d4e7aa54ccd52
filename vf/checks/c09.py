"""C09 case and spacing options are applied everywhere and only there"""
from vf import cmref, gen, sut
from vf.checks.common import cmds, ref_parse, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles, configurations and per-command overrides; oracle: name, letter case and spacing of every "
             "command and keyword computed from the documentation of the options, and everything else unchanged")
LEVEL_NOTE = "Random exploration over commands of all classes; keywords of builtin commands by a table of documented signatures."
RULE = ("A case is a listfile with a configuration; non-trivial when an option other than the default applies to a name or keyword and "
        "changes it.")
ASSUMPTIONS = ["The canonical spelling of a builtin command is lower case; of the ExternalProject and FetchContent commands as in the CMake documentation."]

# as in the manual of CMake
MODULES = ["FetchContent_Declare", "FetchContent_MakeAvailable", "FetchContent_GetProperties", "FetchContent_Populate", "ExternalProject_Add",
           "ExternalProject_Add_Step", "ExternalProject_Add_StepDependencies", "ExternalProject_Add_StepTargets"]
CANON = {m.lower(): m for m in MODULES}
CTRL = {"if", "elseif", "else", "endif", "foreach", "endforeach", "while", "endwhile", "function", "endfunction", "macro", "endmacro"}
BUILTIN = sorted(set(k for k in gen.COMMON if k not in CANON))

# signatures from the manual of CMake: ! marks keywords, _ is any argument, _* is any number of arguments
SIGNATURES = """
add_custom_command OUTPUT! _ COMMAND! _ _* DEPENDS! _ _* WORKING_DIRECTORY! _ COMMENT! _ VERBATIM!
add_custom_command TARGET! _ POST_BUILD! COMMAND! _ _* COMMENT! _
add_custom_command OUTPUT! _ _* COMMAND! _ COMMAND! _ _* BYPRODUCTS! _ MAIN_DEPENDENCY! _
add_custom_target _ ALL! COMMAND! _ _* DEPENDS! _ _*
add_custom_target _ DEPENDS! _ _* WORKING_DIRECTORY! _ VERBATIM!
add_executable _ WIN32! _ _*
add_executable _ EXCLUDE_FROM_ALL! _ _*
add_library _ STATIC! _ _*
add_library _ SHARED! EXCLUDE_FROM_ALL! _ _*
add_library _ INTERFACE!
add_library _ ALIAS! _
add_test NAME! _ COMMAND! _ _* WORKING_DIRECTORY! _
add_subdirectory _ _ EXCLUDE_FROM_ALL!
cmake_minimum_required VERSION! _ FATAL_ERROR!
cmake_parse_arguments _ _ _ _ _ _*
configure_file _ _ ESCAPE_QUOTES!
configure_file _ _ COPYONLY!
execute_process COMMAND! _ _* WORKING_DIRECTORY! _ RESULT_VARIABLE! _ OUTPUT_VARIABLE! _ OUTPUT_QUIET! ERROR_QUIET!
export TARGETS! _ _* NAMESPACE! _ FILE! _
file READ! _ _
file WRITE! _ _ _*
file GLOB! _ RELATIVE! _ _ _*
file COPY! _ _* DESTINATION! _
find_library _ NAMES! _ _* HINTS! _ _* PATH_SUFFIXES! _ NO_DEFAULT_PATH!
find_package _ _ REQUIRED! COMPONENTS! _ _*
find_package _ QUIET!
find_path _ NAMES! _ PATHS! _ _* DOC! _
find_program _ NAMES! _ _* HINTS! _
get_filename_component _ _ NAME_WE!
get_property _ TARGET! _ PROPERTY! _
include _ OPTIONAL!
include_directories AFTER! SYSTEM! _ _*
install TARGETS! _ _* RUNTIME! DESTINATION! _ LIBRARY! DESTINATION! _ COMPONENT! _
install FILES! _ _* DESTINATION! _ COMPONENT! _
install DIRECTORY! _ DESTINATION! _ FILES_MATCHING! PATTERN! _
install EXPORT! _ NAMESPACE! _ DESTINATION! _
list APPEND! _ _ _*
list LENGTH! _ _
list FIND! _ _ _
message STATUS! _ _*
message FATAL_ERROR! _ _*
option _ _ _
project _ VERSION! _ LANGUAGES! _ _*
set _ _ _*
set _ _ CACHE! _ _
set _ _ PARENT_SCOPE!
set_property TARGET! _ _* PROPERTY! _ _ _*
set_target_properties _ _* PROPERTIES! _ _ _ _
set_tests_properties _ PROPERTIES! _ _
string REPLACE! _ _ _ _
string TOUPPER! _ _
target_compile_definitions _ PRIVATE! _ _* PUBLIC! _ _*
target_include_directories _ SYSTEM! PUBLIC! _ _* INTERFACE! _
target_link_libraries _ PUBLIC! _ _* PRIVATE! _ _*
target_sources _ PRIVATE! _ _*
try_compile _ _ _ COMPILE_DEFINITIONS! _ OUTPUT_VARIABLE! _
if _ STREQUAL! _ AND! NOT! _
if EXISTS! _ OR! DEFINED! _
if NOT! _ MATCHES! _
if TARGET! _ AND! _ VERSION_LESS! _
while NOT! _ IN_LIST! _
foreach _ IN! LISTS! _ _*
foreach _ IN! ITEMS! _ _*
foreach _ RANGE! _ _
externalproject_add _ GIT_REPOSITORY! _ GIT_TAG! _ CMAKE_ARGS! _ _* INSTALL_DIR! _
fetchcontent_declare _ GIT_REPOSITORY! _ GIT_TAG! _
separate_arguments _ UNIX_COMMAND! _
unset _ CACHE!
math EXPR! _ _
return
add_custom_command OUTPUT! _ APPEND! DEPENDS! _
add_custom_command OUTPUT! _ COMMAND! _ DEPFILE! _ JOB_POOL! _
add_custom_command OUTPUT! _ COMMAND! _ COMMAND_EXPAND_LISTS!
add_custom_command TARGET! _ PRE_BUILD! COMMAND! _ BYPRODUCTS! _ _*
add_custom_command TARGET! _ PRE_LINK! COMMAND! _ WORKING_DIRECTORY! _ VERBATIM! USES_TERMINAL!
add_custom_target _ COMMAND! _ USES_TERMINAL! COMMAND_EXPAND_LISTS! SOURCES! _ _*
add_custom_target _ COMMAND! _ BYPRODUCTS! _ COMMENT! _ JOB_POOL! _
add_executable _ MACOSX_BUNDLE! _ _*
add_executable _ IMPORTED! GLOBAL!
add_executable _ ALIAS! _
add_library _ MODULE! _ _*
add_library _ OBJECT! _ _*
add_library _ SHARED! IMPORTED! GLOBAL!
add_library _ INTERFACE! IMPORTED!
add_test NAME! _ COMMAND! _ CONFIGURATIONS! _ _*
build_command _ CONFIGURATION! _ TARGET! _ PROJECT_NAME! _
cmake_host_system_information RESULT! _ QUERY! _ _*
cmake_policy VERSION! _
cmake_policy SET! _ NEW!
cmake_policy SET! _ OLD!
cmake_policy GET! _ _
cmake_policy PUSH!
cmake_policy POP!
create_test_sourcelist _ _ _ EXTRA_INCLUDE! _ FUNCTION! _
ctest_configure BUILD! _ SOURCE! _ APPEND! OPTIONS! _ RETURN_VALUE! _ QUIET!
ctest_coverage BUILD! _ APPEND! LABELS! _ _* RETURN_VALUE! _ QUIET!
ctest_memcheck BUILD! _ APPEND! START! _ END! _ STRIDE! _ EXCLUDE! _ INCLUDE! _
ctest_submit PARTS! _ _* RETRY_COUNT! _ RETRY_DELAY! _ RETURN_VALUE! _
ctest_submit FILES! _ _*
ctest_test BUILD! _ APPEND! PARALLEL_LEVEL! _ SCHEDULE_RANDOM! _ STOP_TIME! _ QUIET!
ctest_update SOURCE! _ RETURN_VALUE! _ QUIET!
ctest_upload FILES! _ _*
define_property TARGET! PROPERTY! _ BRIEF_DOCS! _ FULL_DOCS! _
define_property GLOBAL! PROPERTY! _ INHERITED! BRIEF_DOCS! _ FULL_DOCS! _
export EXPORT! _ NAMESPACE! _ FILE! _
export TARGETS! _ APPEND! FILE! _ EXPORT_LINK_INTERFACE_LIBRARIES!
export PACKAGE! _
file READ! _ _ OFFSET! _ LIMIT! _ HEX!
file STRINGS! _ _ LENGTH_MAXIMUM! _ REGEX! _ NEWLINE_CONSUME! ENCODING! _
file MD5! _ _
file SHA256! _ _
file TIMESTAMP! _ _ UTC!
file APPEND! _ _ _*
file GENERATE! OUTPUT! _ INPUT! _ CONDITION! _
file GENERATE! OUTPUT! _ CONTENT! _
file GLOB_RECURSE! _ FOLLOW_SYMLINKS! LIST_DIRECTORIES! _ RELATIVE! _ CONFIGURE_DEPENDS! _ _*
file RENAME! _ _
file REMOVE! _ _*
file REMOVE_RECURSE! _ _*
file MAKE_DIRECTORY! _ _*
file COPY! _ _* DESTINATION! _ FILE_PERMISSIONS! OWNER_READ! OWNER_WRITE! NO_SOURCE_PERMISSIONS!
file RELATIVE_PATH! _ _ _
file TO_CMAKE_PATH! _ _
file TO_NATIVE_PATH! _ _
file DOWNLOAD! _ _ INACTIVITY_TIMEOUT! _ LOG! _ SHOW_PROGRESS! STATUS! _ TIMEOUT! _ EXPECTED_HASH! _ TLS_VERIFY! _
file UPLOAD! _ _ LOG! _ STATUS! _ USERPWD! _ HTTPHEADER! _
file LOCK! _ DIRECTORY! GUARD! FUNCTION! RESULT_VARIABLE! _ TIMEOUT! _
file LOCK! _ RELEASE!
file TOUCH! _ _*
file TOUCH_NOCREATE! _ _*
file SIZE! _ _
file READ_SYMLINK! _ _
find_file _ _ NO_CMAKE_PATH! NO_CMAKE_ENVIRONMENT_PATH! NO_SYSTEM_ENVIRONMENT_PATH! NO_CMAKE_SYSTEM_PATH!
find_library _ _ ONLY_CMAKE_FIND_ROOT_PATH!
find_library _ _ NO_CMAKE_FIND_ROOT_PATH!
find_package _ _ EXACT! QUIET! MODULE! REQUIRED! NO_POLICY_SCOPE!
fltk_wrap_ui _ _ _*
get_cmake_property _ _
get_directory_property _ DIRECTORY! _ _
get_filename_component _ _ REALPATH!
get_filename_component _ _ PROGRAM! PROGRAM_ARGS! _
get_filename_component _ _ EXT!
get_property _ GLOBAL! PROPERTY! _
get_property _ SOURCE! _ PROPERTY! _ SET!
get_property _ DIRECTORY! PROPERTY! _ DEFINED!
get_property _ VARIABLE! PROPERTY! _
get_property _ CACHE! _ PROPERTY! _
include _ RESULT_VARIABLE! _ NO_POLICY_SCOPE!
include_external_msproject _ _ TYPE! _ GUID! _ PLATFORM! _
install TARGETS! _ EXPORT! _ ARCHIVE! DESTINATION! _ COMPONENT! _ INCLUDES! DESTINATION! _ _*
install TARGETS! _ LIBRARY! DESTINATION! _ NAMELINK_SKIP!
install TARGETS! _ LIBRARY! DESTINATION! _ NAMELINK_ONLY!
install TARGETS! _ PUBLIC_HEADER! DESTINATION! _ PRIVATE_HEADER! DESTINATION! _ RESOURCE! DESTINATION! _
install TARGETS! _ OBJECTS! DESTINATION! _ BUNDLE! DESTINATION! _ FRAMEWORK! DESTINATION! _ CONFIGURATIONS! _
install PROGRAMS! _ _* DESTINATION! _ RENAME! _ OPTIONAL!
install SCRIPT! _ COMPONENT! _
install CODE! _ COMPONENT! _
link_directories BEFORE! _ _*
link_directories AFTER! _
list GET! _ _ _
list JOIN! _ _ _
list SUBLIST! _ _ _ _
list FILTER! _ INCLUDE! REGEX! _
list FILTER! _ EXCLUDE! REGEX! _
list INSERT! _ _ _ _*
list POP_BACK! _ _*
list POP_FRONT! _ _*
list PREPEND! _ _*
list REMOVE_ITEM! _ _ _*
list REMOVE_AT! _ _ _*
list REMOVE_DUPLICATES! _
list REVERSE! _
list SORT! _ COMPARE! STRING! CASE! INSENSITIVE! ORDER! DESCENDING!
list TRANSFORM! _ TOUPPER!
list TRANSFORM! _ REPLACE! _ _ AT! _ _
load_cache _ READ_WITH_PREFIX! _ _ _*
mark_as_advanced CLEAR! _ _*
mark_as_advanced FORCE! _
message WARNING! _
message AUTHOR_WARNING! _
message SEND_ERROR! _
message DEPRECATION! _
project _ DESCRIPTION! _ HOMEPAGE_URL! _ LANGUAGES! _ _*
set_directory_properties PROPERTIES! _ _ _ _
set_source_files_properties _ _* PROPERTIES! _ _
set_property GLOBAL! APPEND! PROPERTY! _ _
set_property GLOBAL! PROPERTY! _ _
set_property DIRECTORY! _ APPEND_STRING! PROPERTY! _ _
set_property SOURCE! _ _* APPEND! PROPERTY! _ _
set_property TEST! _ PROPERTY! _ _
set_property CACHE! _ PROPERTY! _ _
source_group _ FILES! _ _* REGULAR_EXPRESSION! _
string FIND! _ _ _ REVERSE!
string REGEX! REPLACE! _ _ _ _
string CONCAT! _ _ _*
string TOLOWER! _ _
string LENGTH! _ _
string SUBSTRING! _ _ _ _
string STRIP! _ _
string MD5! _ _
string SHA1! _ _
string SHA512! _ _
string ASCII! _ _ _*
string MAKE_C_IDENTIFIER! _ _
string RANDOM! LENGTH! _ ALPHABET! _ RANDOM_SEED! _ _
string TIMESTAMP! _ _ UTC!
separate_arguments _ WINDOWS_COMMAND! _
separate_arguments _ NATIVE_COMMAND! _
target_compile_features _ PRIVATE! _ _* INTERFACE! _
target_compile_definitions _ INTERFACE! _ _* PRIVATE! _
target_include_directories _ BEFORE! PRIVATE! _ _*
target_include_directories _ SYSTEM! BEFORE! INTERFACE! _
target_link_libraries _ INTERFACE! _ _*
target_sources _ INTERFACE! _ PUBLIC! _ _*
unset _ PARENT_SCOPE!
variable_watch _ _
if _ STRLESS! _ OR! _ STRGREATER! _
if POLICY! _ AND! NOT! COMMAND! _
if TEST! _ OR! IS_DIRECTORY! _
if IS_SYMLINK! _ OR! IS_ABSOLUTE! _
if _ LESS! _ AND! _ GREATER! _ AND! _ EQUAL! _
if _ LESS_EQUAL! _ AND! _ GREATER_EQUAL! _
if _ VERSION_EQUAL! _ OR! _ VERSION_GREATER! _
if _ VERSION_GREATER_EQUAL! _ OR! _ VERSION_LESS_EQUAL! _
if _ STRLESS_EQUAL! _ OR! _ STRGREATER_EQUAL! _
if _ IS_NEWER_THAN! _
if _ IN_LIST! _
foreach _ IN! LISTS! _ ITEMS! _ _*
externalproject_add _ URL! _ URL_HASH! _ DOWNLOAD_DIR! _ SOURCE_DIR! _ BINARY_DIR! _
externalproject_add _ SVN_REPOSITORY! _ SVN_REVISION! _
externalproject_add _ CONFIGURE_COMMAND! _ BUILD_COMMAND! _ _* INSTALL_COMMAND! _ TEST_COMMAND! _
externalproject_add _ DEPENDS! _ _* PREFIX! _ TMP_DIR! _ STAMP_DIR! _ LOG_DIR! _
externalproject_add _ UPDATE_COMMAND! _ PATCH_COMMAND! _ _* BUILD_IN_SOURCE! _ BUILD_BYPRODUCTS! _
externalproject_add _ CMAKE_COMMAND! _ CMAKE_GENERATOR! _ CMAKE_CACHE_ARGS! _ _* LIST_SEPARATOR! _
externalproject_add _ EXCLUDE_FROM_ALL! _ STEP_TARGETS! _ LOG_DOWNLOAD! _ LOG_BUILD! _
externalproject_add_step _ _ COMMAND! _ COMMENT! _ DEPENDEES! _ DEPENDERS! _ DEPENDS! _ ALWAYS! _ WORKING_DIRECTORY! _ LOG! _
fetchcontent_declare _ URL! _ URL_HASH! _
fetchcontent_getproperties _ SOURCE_DIR! _ BINARY_DIR! _ POPULATED! _
cmake_parse_arguments PARSE_ARGV! _ _ _ _ _
add_compile_definitions _ _*
add_link_options _ _*
add_library _ UNKNOWN! IMPORTED!
file CREATE_LINK! _ _ RESULT! _ COPY_ON_ERROR! SYMBOLIC!
include_guard DIRECTORY!
include_guard GLOBAL!
install DIRECTORY! _ _* DESTINATION! _ USE_SOURCE_PERMISSIONS! OPTIONAL! MESSAGE_NEVER!
include_guard
install DIRECTORY! _ DESTINATION! _ USE_SOURCE_PERMISSIONS! EXCLUDE_FROM_ALL!
install EXPORT! _ DESTINATION! _ EXPORT_LINK_INTERFACE_LIBRARIES!
""".strip().split("\n")

TABLE = {}
for _sig in SIGNATURES:
  TABLE.setdefault(_sig.split()[0], set()).update(w[:-1] for w in _sig.split() if w.endswith("!"))

# what nobody's keyword is
VALUES = ["a.cc", "lib/Foo.h", "${Var}", "\"Text here\"", "foo_Bar", "x-Y", "42", "$<0:Ab>", "[[Br]]", "\"OUTPUT\"", "Zed", "${A}_B", "-O2", "A1-b",
          "\"\"", "quux", "/Path/To", "@At@x"]


def name_of(written, cfg, extra=()):
  """the command name as it should be printed"""
  low = written.lower()
  f = cfg.get("format", {})
  case = f.get("command_case", "canonical")
  declared = {}
  for key, spec in cfg.get("parse", {}).get("additional_commands", {}).items():
    declared[key.lower()] = spec.get("spelling", key)
  for key, over in cfg.get("misc", {}).get("per_command", {}).items():
    if key.lower() == low:
      case = over.get("command_case", over.get("format.command_case", case))
  if case == "unchanged":
    return written
  if case in ("lower", "upper"):
    return getattr(written, case)()
  if low in declared:
    return declared[low]
  if low in CANON:
    return CANON[low]
  if low in gen.VOCAB and low not in gen.COMMON and low not in gen.BLOCKS:
    return None    # other modules: not specified here
  return low


def check_names(pin, pout, cfg, rec):
  f = cfg.get("format", {})
  changed = 0
  a, b = cmds(pin), cmds(pout)
  if len(a) != len(b):
    raise Violation("the number of commands is different")
  for x, y in zip(a, b):
    want = name_of(x.name, cfg)
    if want is not None and y.name != want:
      raise Violation("command %s is written %s instead of %s" % (x.name, y.name, want))
    if y.name.lower() != x.name.lower():
      raise Violation("command %s is written %s" % (x.name, y.name))
    changed += y.name != x.name
    ctrl = x.name.lower() in CTRL
    opt = "separate_ctrl_name_with_space" if ctrl else "separate_fn_name_with_space"
    sp = " " if f.get(opt) else ""
    if y.space != sp:
      raise Violation("%s: %r between the name and the parenthesis instead of %r" % (y, y.space, sp))
    changed += bool(sp)
    rec.label("ctrl" if ctrl else "custom" if any(k.lower() == x.name.lower() for k in cfg.get("parse", {}).get("additional_commands", {})) else
              "module" if x.name.lower() in CANON else "builtin" if x.name.lower() in gen.VOCAB else "unknown")
  return changed


def body(text, cfg):
  out = sut.fmt(text, cfg)[0].replace("\r\n", "\n")
  return out[1:] if cfg.get("encode", {}).get("emit_byteorder_mark") else out


def oracle_names(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  pout = ref_parse(body(text, cfg), "the formatted text")
  changed = check_names(pin, pout, cfg, rec)
  kc = cfg.get("format", {}).get("keyword_case", "unchanged")
  for x, y in zip(cmds(pin), cmds(pout)):
    if len(x.args) != len(y.args):
      raise Violation("%s: number of arguments" % x)
    low = x.name.lower()
    for (k, u), (_, v) in zip(x.args, y.args):
      if u == v:
        continue
      if kc == "unchanged" or k != "unq" or v != getattr(u, kc)():
        raise Violation("%s: argument %s is written %s (keyword_case=%s)" % (x, u, v, kc))
      known = words_of(low, cfg)
      if u.upper() not in known:
        raise Violation("%s: %s is written %s but is no keyword of the command" % (x, u, v))
      changed += 1
  rec.nontrivial(changed > 0)


def words_of(low, cfg):
  v = gen.VOCAB.get(low, [])
  known = set()
  if isinstance(v, dict):
    for k, ws in v.items():
      known.add(k)
      known.update(ws)
  else:
    known.update(v)
  for key, spec in cfg.get("parse", {}).get("additional_commands", {}).items():
    if key.lower() == low:
      known |= set(spec.get("flags", [])) | set(spec.get("kwargs", {}))
  return set(w.upper() for w in known) | CONDITION | TABLE.get(low, set())


CONDITION = set("AND OR NOT DEFINED EXISTS TARGET COMMAND IS_DIRECTORY POLICY TEST IS_ABSOLUTE IS_SYMLINK STREQUAL EQUAL MATCHES VERSION_LESS "
                "IN_LIST LESS GREATER STRLESS STRGREATER VERSION_GREATER VERSION_EQUAL IS_NEWER_THAN LESS_EQUAL GREATER_EQUAL STRLESS_EQUAL "
                "STRGREATER_EQUAL VERSION_LESS_EQUAL VERSION_GREATER_EQUAL IN LISTS ITEMS RANGE".split())


def style(s, c, names):
  """more of the options of this property"""
  f = c.setdefault("format", {})
  if s.p(70):
    f["command_case"] = s.pick(["lower", "upper", "canonical", "unchanged"])
  if s.p(60):
    f["keyword_case"] = s.pick(["lower", "upper", "unchanged"])
  for k in ("separate_ctrl_name_with_space", "separate_fn_name_with_space"):
    if s.p(40):
      f[k] = s.p(60)
  if s.p(40):
    over = {}
    for n in s.sub(names, 30):
      key = s.w((3, n), (1, n.upper()), (1, n.capitalize()))
      if not any(k.lower() == n.lower() for k in over):
        over[key] = {s.w((3, "command_case"), (1, "format.command_case")): s.pick(["lower", "upper", "unchanged", "canonical"])}
    c.setdefault("misc", {})["per_command"] = over
  return c


CUSTOM = ["my_func", "foo", "Zed_1", "add_unit_test", "catch_discover_tests"] + gen.LIKE


def gen_names(s):
  pool = s.sub(BUILTIN, 12) + s.sub(CUSTOM, 25) + s.sub(sorted(CANON), 25) + ["set"]
  g = gen.Gen(s, gen.Prof(stmts=(1, 4), max_depth=2, blocks=40, comments=15, argcomments=4, commands=pool, sort_tags=0))
  c = gen.config(s, exclude=("autosort", "per_command", "command_case", "keyword_case", "separate_ctrl_name_with_space",
                             "separate_fn_name_with_space", "enable_sort"))
  if s.p(60):
    add = {}
    for n in s.sub(CUSTOM, 25):
      key = s.w((2, n), (2, n.title()), (1, n.upper()), (1, n.swapcase()))
      spec = {}
      if s.p(30):
        spec["flags"] = ["BAR", "QUIET"]
      if s.p(40):
        spec["kwargs"] = {"SOURCES": "*", "NAME": 1}
      if s.p(20):
        spec["spelling"] = s.w((1, n.upper()), (1, n.capitalize()), (1, n.title().swapcase()))
      add[key] = spec
    c["parse"] = {"additional_commands": add}
  else:
    c["parse"] = {"additional_commands": {}}
  return {"text": g.listfile(), "cfg": style(s, c, pool + ["if", "foreach", "endif"])}


def oracle_keywords(case, rec):
  text, cfg, marks = case["text"], case["cfg"], case["marks"]
  pin = ref_parse_input(text)
  pout = ref_parse(body(text, cfg), "the formatted text")
  changed = check_names(pin, pout, cfg, rec)
  kc = cfg.get("format", {}).get("keyword_case", "unchanged")
  a, b = [c for c in cmds(pin)], [c for c in cmds(pout)]
  for k, (x, y) in enumerate(zip(a, b)):
    if x.name.lower() in cmref.CLOSE:
      continue
    m = marks[k]
    want = [getattr(v, kc)() if is_kw and kc != "unchanged" else v for (_, v), is_kw in zip(x.args, m)]
    got = [v for _, v in y.args]
    if got != want:
      raise Violation("keyword_case=%s: %s\nwanted  %s\nwritten %s" % (kc, x, want, got))
    changed += got != [v for _, v in x.args]
  rec.nontrivial(changed > 0 and any(any(m) for m in marks))
  for x in a:
    rec.label(x.name.lower())


def gen_keywords(s):
  lines, marks = [], []
  for _ in range(s.i(1, 4)):
    parts = s.pick(SIGNATURES).split()
    name, words, m = parts[0], [], []
    lower = s.p(20)
    for w in parts[1:]:
      if w == "_*":
        n = s.many(0, 5, 45)
      elif w == "_":
        n = 1
      else:
        word = w[:-1]
        words.append(s.w((3, word), (2, word.lower())) if lower and word not in ("@ONLY",) else word)
        m.append(True)
        continue
      for _ in range(n):
        words.append(s.pick(VALUES))
        m.append(False)
    w = s.w((3, name), (1, name.upper()), (1, name.capitalize()))
    sep = s.w((4, " "), (1, "\n  "))
    call = w + s.w((4, ""), (1, " ")) + "(" + sep.join(words) + ")"
    lines.append(call)
    marks.append(m)
    low = name.lower()
    if low in cmref.OPEN:
      lines.append(cmref.OPEN[low] + "()")
      marks.append([])
  c = gen.config(s, exclude=("autosort", "per_command", "command_case", "keyword_case", "separate_ctrl_name_with_space",
                             "separate_fn_name_with_space", "enable_sort"))
  return {"text": "\n".join(lines) + "\n", "cfg": style(s, c, ["set", "install", "if"]), "marks": marks}


SUBS = [Sub("names", gen_names, oracle_names, 900, 30000, 150),
        Sub("keywords", gen_keywords, oracle_keywords, 2400, 60000, 200)]
