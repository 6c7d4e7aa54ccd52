"""C28 arguments of builtin commands are grouped as in their signatures"""
from vf import cmref, sut
from vf.checks.c09 import VALUES
from vf.checks.c15 import parsed
from vf.checks.common import cmds, ref_parse, ref_parse_input
from vf.engine import Sub, Violation

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated invocations of the builtin commands, built group by group from their documented signatures, and conditions "
             "built from a grammar, with comments at any place; oracle: the intended grouping, and the line structure of the vertical layout")
LEVEL_NOTE = ("Random exploration over a table of the signatures of CMake's manual, as far as they are in the tool's specifications; groups left "
              "out, repeated and reordered where the signature allows.")
RULE = "A case is an invocation or a condition; non-trivial when it has two groups, one of which belongs to a keyword and holds an argument."
ASSUMPTIONS = ["The signatures are those which the tool knows; a keyword of a newer CMake is an argument like others."]

# _ is any argument, _* is any number of arguments, ? marks a flag, = an argument that is not one, KEYWORD( ... ) is a keyword with what belongs to it
SIGNATURES = """
add_custom_command OUTPUT( _ ) COMMAND( _ _* ) DEPENDS( _ _* ) WORKING_DIRECTORY( _ ) COMMENT( _ ) ?VERBATIM
add_custom_command TARGET( _ ) ?POST_BUILD COMMAND( _ _* ) COMMENT( _ )
add_custom_command OUTPUT( _ _* ) COMMAND( _ ) COMMAND( _ _* ) BYPRODUCTS( _ ) MAIN_DEPENDENCY( _ )
add_custom_target _ ?ALL COMMAND( _ _* ) DEPENDS( _ _* )
add_custom_target _ DEPENDS( _ _* ) WORKING_DIRECTORY( _ ) ?VERBATIM
add_executable _ ?WIN32 _ _*
add_executable _ ?EXCLUDE_FROM_ALL _ _*
add_executable _ _ =WIN32 _*
add_executable _ _ _* =EXCLUDE_FROM_ALL _*
add_executable _ ?EXCLUDE_FROM_ALL _ _* =MACOSX_BUNDLE _
add_library _ _ =SHARED _*
add_library _ ?STATIC _ =OBJECT _
add_library _ ?STATIC _ _*
add_library _ ?SHARED ?EXCLUDE_FROM_ALL _ _*
add_library _ ?INTERFACE
add_library _ ?ALIAS _
add_test NAME( _ ) COMMAND( _ _* ) WORKING_DIRECTORY( _ )
add_subdirectory _ _ ?EXCLUDE_FROM_ALL
cmake_minimum_required VERSION( _ ) ?FATAL_ERROR
cmake_parse_arguments _ _ _ _ _ _*
configure_file _ _ ?ESCAPE_QUOTES
configure_file _ _ ?COPYONLY
execute_process COMMAND( _ _* ) WORKING_DIRECTORY( _ ) RESULT_VARIABLE( _ ) OUTPUT_VARIABLE( _ ) ?OUTPUT_QUIET ?ERROR_QUIET
export TARGETS( _ _* ) NAMESPACE( _ ) FILE( _ )
file ?READ _ _
file ?WRITE _ _ _*
file ?GLOB _ RELATIVE( _ ) _ _*
file COPY( _ _* ) DESTINATION( _ )
find_library _ NAMES( _ _* ) HINTS( _ _* ) PATH_SUFFIXES( _ ) ?NO_DEFAULT_PATH
find_package _ _ ?REQUIRED COMPONENTS( _ _* )
find_package _ ?QUIET
find_path _ NAMES( _ ) PATHS( _ _* ) DOC( _ )
find_program _ NAMES( _ _* ) HINTS( _ )
get_filename_component _ _ ?NAME_WE
get_property _ TARGET( _ ) PROPERTY( _ )
include _ ?OPTIONAL
include_directories ?AFTER ?SYSTEM _ _*
install TARGETS( _ _* ) RUNTIME( DESTINATION( _ ) ) LIBRARY( DESTINATION( _ ) COMPONENT( _ ) )
install FILES( _ _* ) DESTINATION( _ ) COMPONENT( _ )
install DIRECTORY( _ ) DESTINATION( _ ) ?FILES_MATCHING PATTERN( _ )
install EXPORT( _ ) NAMESPACE( _ ) DESTINATION( _ )
list ?APPEND _ _ _*
list ?LENGTH _ _
list ?FIND _ _ _
message STATUS( _ _* )
message FATAL_ERROR( _ _* )
option _ _ _
project _ VERSION( _ ) LANGUAGES( _ _* )
set _ _ _*
set _ _ CACHE( _ _ )
set _ _ ?PARENT_SCOPE
set_property TARGET( _ _* ) PROPERTY( _ _ _* )
set_target_properties _ _* PROPERTIES( _ _ _ _ )
set_tests_properties _ PROPERTIES( _ _ )
string REPLACE( _ _ _ _ )
string TOUPPER( _ _ )
target_compile_definitions _ PRIVATE( _ _* ) PUBLIC( _ _* )
target_include_directories _ ?SYSTEM PUBLIC( _ _* ) INTERFACE( _ )
target_link_libraries _ PUBLIC( _ _* ) PRIVATE( _ _* )
target_sources _ PRIVATE( _ _* )
try_compile _ _ _ COMPILE_DEFINITIONS( _ ) OUTPUT_VARIABLE( _ )
externalproject_add _ GIT_REPOSITORY( _ ) GIT_TAG( _ ) CMAKE_ARGS( _ _* ) INSTALL_DIR( _ )
fetchcontent_declare _ GIT_REPOSITORY( _ ) GIT_TAG( _ )
separate_arguments _ ?UNIX_COMMAND _
unset _ ?CACHE
math ?EXPR _ _
add_custom_command OUTPUT( _ ) ?APPEND DEPENDS( _ )
add_custom_command OUTPUT( _ ) COMMAND( _ ) DEPFILE( _ ) JOB_POOL( _ )
add_custom_command OUTPUT( _ ) COMMAND( _ ) ?COMMAND_EXPAND_LISTS
add_custom_command TARGET( _ ) ?PRE_BUILD COMMAND( _ ) BYPRODUCTS( _ _* )
add_custom_command TARGET( _ ) ?PRE_LINK COMMAND( _ ) WORKING_DIRECTORY( _ ) ?VERBATIM ?USES_TERMINAL
add_custom_target _ COMMAND( _ ) ?USES_TERMINAL ?COMMAND_EXPAND_LISTS SOURCES( _ _* )
add_custom_target _ COMMAND( _ ) BYPRODUCTS( _ ) COMMENT( _ ) JOB_POOL( _ )
add_executable _ ?MACOSX_BUNDLE _ _*
add_executable _ ?IMPORTED ?GLOBAL
add_executable _ ?ALIAS _
add_library _ ?MODULE _ _*
add_library _ ?OBJECT _ _*
add_library _ ?SHARED ?IMPORTED ?GLOBAL
add_library _ ?INTERFACE ?IMPORTED
add_test NAME( _ ) COMMAND( _ ) CONFIGURATIONS( _ _* )
build_command _ CONFIGURATION( _ ) TARGET( _ ) PROJECT_NAME( _ )
cmake_host_system_information RESULT( _ ) QUERY( _ _* )
cmake_policy ?VERSION _
cmake_policy ?SET _ ?NEW
cmake_policy ?SET _ ?OLD
cmake_policy ?GET _ _
cmake_policy ?PUSH
cmake_policy ?POP
create_test_sourcelist _ _ _ EXTRA_INCLUDE( _ ) FUNCTION( _ )
ctest_configure BUILD( _ ) SOURCE( _ ) ?APPEND OPTIONS( _ ) RETURN_VALUE( _ ) ?QUIET
ctest_coverage BUILD( _ ) ?APPEND LABELS( _ _* ) RETURN_VALUE( _ ) ?QUIET
ctest_memcheck BUILD( _ ) ?APPEND START( _ ) END( _ ) STRIDE( _ ) EXCLUDE( _ ) INCLUDE( _ )
ctest_submit PARTS( _ _* ) RETRY_COUNT( _ ) RETRY_DELAY( _ ) RETURN_VALUE( _ )
ctest_submit FILES( _ _* )
ctest_test BUILD( _ ) ?APPEND PARALLEL_LEVEL( _ ) SCHEDULE_RANDOM( _ ) STOP_TIME( _ ) ?QUIET
ctest_update SOURCE( _ ) RETURN_VALUE( _ ) ?QUIET
ctest_upload FILES( _ _* )
define_property ?TARGET PROPERTY( _ ) BRIEF_DOCS( _ ) FULL_DOCS( _ )
define_property ?GLOBAL PROPERTY( _ ) ?INHERITED BRIEF_DOCS( _ ) FULL_DOCS( _ )
export EXPORT( _ ) NAMESPACE( _ ) FILE( _ )
export TARGETS( _ ) ?APPEND FILE( _ ) ?EXPORT_LINK_INTERFACE_LIBRARIES
export PACKAGE( _ )
file ?READ _ _ OFFSET( _ ) LIMIT( _ ) ?HEX
file ?STRINGS _ _ LENGTH_MAXIMUM( _ ) REGEX( _ ) ?NEWLINE_CONSUME ENCODING( _ )
file ?MD5 _ _
file ?SHA256 _ _
file ?TIMESTAMP _ _ ?UTC
file ?APPEND _ _ _*
file ?GENERATE OUTPUT( _ ) INPUT( _ ) CONDITION( _ )
file ?GENERATE OUTPUT( _ ) CONTENT( _ )
file ?GLOB_RECURSE _ ?FOLLOW_SYMLINKS LIST_DIRECTORIES( _ ) RELATIVE( _ ) ?CONFIGURE_DEPENDS _ _*
file ?RENAME _ _
file ?REMOVE _ _*
file ?REMOVE_RECURSE _ _*
file ?MAKE_DIRECTORY _ _*
file COPY( _ _* ) DESTINATION( _ ) FILE_PERMISSIONS( ?OWNER_READ ?OWNER_WRITE ) ?NO_SOURCE_PERMISSIONS
file ?RELATIVE_PATH _ _ _
file ?TO_CMAKE_PATH _ _
file ?TO_NATIVE_PATH _ _
file ?DOWNLOAD _ _ INACTIVITY_TIMEOUT( _ ) LOG( _ ) ?SHOW_PROGRESS STATUS( _ ) TIMEOUT( _ ) EXPECTED_HASH( _ ) TLS_VERIFY( _ )
file ?UPLOAD _ _ LOG( _ ) STATUS( _ ) USERPWD( _ ) HTTPHEADER( _ )
file ?LOCK _ ?DIRECTORY GUARD( ?FUNCTION ) RESULT_VARIABLE( _ ) TIMEOUT( _ )
file ?LOCK _ ?RELEASE
file ?TOUCH _ _*
file ?TOUCH_NOCREATE _ _*
file ?SIZE _ _
file ?READ_SYMLINK _ _
find_file _ _ ?NO_CMAKE_PATH ?NO_CMAKE_ENVIRONMENT_PATH ?NO_SYSTEM_ENVIRONMENT_PATH ?NO_CMAKE_SYSTEM_PATH
find_library _ _ ?ONLY_CMAKE_FIND_ROOT_PATH
find_library _ _ ?NO_CMAKE_FIND_ROOT_PATH
find_package _ _ ?EXACT ?QUIET ?MODULE ?REQUIRED ?NO_POLICY_SCOPE
fltk_wrap_ui _ _ _*
get_cmake_property _ _
get_filename_component _ _ ?REALPATH
get_filename_component _ _ ?PROGRAM ?PROGRAM_ARGS _
get_filename_component _ _ ?EXT
get_property _ ?GLOBAL PROPERTY( _ )
get_property _ SOURCE( _ ) PROPERTY( _ ) ?SET
get_property _ DIRECTORY( ) PROPERTY( _ ) ?DEFINED
get_property _ ?VARIABLE PROPERTY( _ )
get_property _ CACHE( _ ) PROPERTY( _ )
include _ RESULT_VARIABLE( _ ) ?NO_POLICY_SCOPE
include_external_msproject _ _ TYPE( _ ) GUID( _ ) PLATFORM( _ )
install TARGETS( _ ) EXPORT( _ ) ARCHIVE( DESTINATION( _ ) COMPONENT( _ ) ) INCLUDES( ?DESTINATION _ _* )
install TARGETS( _ ) LIBRARY( DESTINATION( _ ) ?NAMELINK_SKIP )
install TARGETS( _ ) LIBRARY( DESTINATION( _ ) ?NAMELINK_ONLY )
install TARGETS( _ ) PUBLIC_HEADER( DESTINATION( _ ) ) PRIVATE_HEADER( DESTINATION( _ ) ) RESOURCE( DESTINATION( _ ) )
install TARGETS( _ ) OBJECTS( DESTINATION( _ ) ) BUNDLE( DESTINATION( _ ) ) FRAMEWORK( DESTINATION( _ ) CONFIGURATIONS( _ ) )
install PROGRAMS( _ _* ) DESTINATION( _ ) RENAME( _ ) ?OPTIONAL
install SCRIPT( _ ) COMPONENT( _ )
install CODE( _ ) COMPONENT( _ )
link_directories ?BEFORE _ _*
link_directories ?AFTER _
list ?GET _ _ _
list ?JOIN _ _ _
list ?SUBLIST _ _ _ _
list ?FILTER _ ?INCLUDE ?REGEX _
list ?FILTER _ ?EXCLUDE ?REGEX _
list ?INSERT _ _ _ _*
list ?POP_BACK _ _*
list ?POP_FRONT _ _*
list ?PREPEND _ _*
list ?REMOVE_ITEM _ _ _*
list ?REMOVE_AT _ _ _*
list ?REMOVE_DUPLICATES _
list ?REVERSE _
list ?SORT _ COMPARE( ?STRING ) CASE( ?INSENSITIVE ) ORDER( ?DESCENDING )
list ?TRANSFORM _ TOUPPER( )
list ?TRANSFORM _ REPLACE( _ _ ) AT( _ _ )
load_cache _ READ_WITH_PREFIX( _ _ _* )
mark_as_advanced ?CLEAR _ _*
mark_as_advanced ?FORCE _
message WARNING( _ )
message AUTHOR_WARNING( _ )
message SEND_ERROR( _ )
message DEPRECATION( _ )
project _ DESCRIPTION( _ ) HOMEPAGE_URL( _ ) LANGUAGES( _ _* )
set_directory_properties PROPERTIES( _ _ _ _ )
set_source_files_properties _ _* PROPERTIES( _ _ )
set_property ?GLOBAL ?APPEND PROPERTY( _ _ )
set_property ?GLOBAL PROPERTY( _ _ )
set_property DIRECTORY( _ ) ?APPEND_STRING PROPERTY( _ _ )
set_property SOURCE( _ _* ) ?APPEND PROPERTY( _ _ )
set_property TEST( _ ) PROPERTY( _ _ )
set_property CACHE( _ ) PROPERTY( _ _ )
source_group _ FILES( _ _* ) REGULAR_EXPRESSION( _ )
string FIND( _ _ _ ) ?REVERSE
string CONCAT( _ _ _* )
string TOLOWER( _ _ )
string LENGTH( _ _ )
string SUBSTRING( _ _ _ _ )
string STRIP( _ _ )
string MD5( _ _ )
string SHA1( _ _ )
string SHA512( _ _ )
string ASCII( _ _ _* )
string MAKE_C_IDENTIFIER( _ _ )
string TIMESTAMP( _ _ ) ?UTC
separate_arguments _ ?WINDOWS_COMMAND _
separate_arguments _ ?NATIVE_COMMAND _
target_compile_features _ PRIVATE( _ _* ) INTERFACE( _ )
target_compile_definitions _ INTERFACE( _ _* ) PRIVATE( _ )
target_include_directories _ ?BEFORE PRIVATE( _ _* )
target_include_directories _ ?SYSTEM ?BEFORE INTERFACE( _ )
target_link_libraries _ INTERFACE( _ _* )
target_sources _ INTERFACE( _ ) PUBLIC( _ _* )
unset _ ?PARENT_SCOPE
variable_watch _ _
externalproject_add _ URL( _ ) URL_HASH( _ ) DOWNLOAD_DIR( _ ) SOURCE_DIR( _ ) BINARY_DIR( _ )
externalproject_add _ SVN_REPOSITORY( _ ) SVN_REVISION( _ )
externalproject_add _ CONFIGURE_COMMAND( _ ) BUILD_COMMAND( _ _* ) INSTALL_COMMAND( _ ) TEST_COMMAND( _ )
externalproject_add _ DEPENDS( _ _* ) PREFIX( _ ) TMP_DIR( _ ) STAMP_DIR( _ ) LOG_DIR( _ )
externalproject_add _ UPDATE_COMMAND( _ ) PATCH_COMMAND( _ _* ) BUILD_IN_SOURCE( _ ) BUILD_BYPRODUCTS( _ )
externalproject_add _ CMAKE_COMMAND( _ ) CMAKE_GENERATOR( _ ) CMAKE_CACHE_ARGS( _ _* ) LIST_SEPARATOR( _ )
externalproject_add _ EXCLUDE_FROM_ALL( _ ) STEP_TARGETS( _ ) LOG_DOWNLOAD( _ ) LOG_BUILD( _ )
externalproject_add_step _ _ COMMAND( _ ) COMMENT( _ ) DEPENDEES( _ ) DEPENDERS( _ ) DEPENDS( _ ) ALWAYS( _ ) WORKING_DIRECTORY( _ ) LOG( _ )
fetchcontent_declare _ URL( _ ) URL_HASH( _ )
fetchcontent_getproperties _ SOURCE_DIR( _ ) BINARY_DIR( _ ) POPULATED( _ )
add_compile_definitions _ _*
add_link_options _ _*
add_library _ ?UNKNOWN ?IMPORTED
file ?CREATE_LINK _ _ RESULT( _ ) ?COPY_ON_ERROR ?SYMBOLIC
include_guard ?DIRECTORY
include_guard ?GLOBAL
install DIRECTORY( _ _* ) DESTINATION( _ ) ?USE_SOURCE_PERMISSIONS ?OPTIONAL ?MESSAGE_NEVER
install DIRECTORY( _ ) DESTINATION( _ ) ?USE_SOURCE_PERMISSIONS ?EXCLUDE_FROM_ALL
install EXPORT( _ ) DESTINATION( _ ) ?EXPORT_LINK_INTERFACE_LIBRARIES
install DIRECTORY( _ _* ) DESTINATION( _ ) PATTERN( _ ?EXCLUDE ) PATTERN( _ PERMISSIONS( _ ) ) REGEX( _ ?EXCLUDE )
install TARGETS( _ _* ) RUNTIME( DESTINATION( _ ) PERMISSIONS( _ _* ) COMPONENT( _ ) ) LIBRARY( ?OPTIONAL DESTINATION( _ ) )
file COPY( _ _* ) DESTINATION( _ ) PATTERN( _ ?EXCLUDE ) REGEX( _ PERMISSIONS( _ ) )
foreach _ ?IN LISTS( _ _* ) ITEMS( _ _* )
foreach _ ?IN ITEMS( _ _* )
foreach _ ?IN ITEMS( _ _* ) LISTS( _ _* )
foreach _ ?IN LISTS( _ _* ) ITEMS( _ ) LISTS( _ )
foreach _ RANGE( _ _ _ )
foreach _ RANGE( _ )
foreach _ _ _*
function _ _ _*
macro _ _ _*
add_custom_command OUTPUT( _ ) COMMAND( _ ) IMPLICIT_DEPENDS( _ _ )
add_custom_command OUTPUT( _ ) COMMAND( _ ) IMPLICIT_DEPENDS( _ _ _ _ ) COMMENT( _ )
add_executable _ ?WIN32 ?MACOSX_BUNDLE ?EXCLUDE_FROM_ALL _ _*
configure_file _ _ _ NEWLINE_STYLE( _ )
configure_file _ _ ?COPYONLY ?ESCAPE_QUOTES
define_property ?DIRECTORY PROPERTY( _ ) BRIEF_DOCS( _ _* ) FULL_DOCS( _ _* )
define_property ?SOURCE PROPERTY( _ ) ?INHERITED BRIEF_DOCS( _ ) FULL_DOCS( _ )
define_property ?TEST PROPERTY( _ ) BRIEF_DOCS( _ ) FULL_DOCS( _ )
define_property ?VARIABLE PROPERTY( _ ) BRIEF_DOCS( _ ) FULL_DOCS( _ )
define_property ?CACHED_VARIABLE PROPERTY( _ ) BRIEF_DOCS( _ ) FULL_DOCS( _ )
enable_language _ ?OPTIONAL
execute_process COMMAND( _ _* ) COMMAND( _ _* ) TIMEOUT( _ ) INPUT_FILE( _ ) OUTPUT_FILE( _ ) ERROR_FILE( _ )
execute_process COMMAND( _ _* ) ERROR_VARIABLE( _ ) OUTPUT_VARIABLE( _ ) ?OUTPUT_STRIP_TRAILING_WHITESPACE ?ERROR_STRIP_TRAILING_WHITESPACE
export TARGETS( _ _* ) ANDROID_MK( _ )
find_file _ NAMES( _ _* ) HINTS( _ _* ) PATHS( _ _* ) PATH_SUFFIXES( _ _* ) DOC( _ ) ?NO_DEFAULT_PATH ?CMAKE_FIND_ROOT_PATH_BOTH
find_file _ _ ?ONLY_CMAKE_FIND_ROOT_PATH
find_file _ _ _* ?NO_CMAKE_FIND_ROOT_PATH
find_library _ NAMES( _ ) PATHS( _ ) DOC( _ ) ?NO_CMAKE_PATH ?NO_CMAKE_ENVIRONMENT_PATH ?NO_SYSTEM_ENVIRONMENT_PATH ?NO_CMAKE_SYSTEM_PATH
find_library _ NAMES( _ ) HINTS( _ ) ?CMAKE_FIND_ROOT_PATH_BOTH
find_path _ NAMES( _ ) HINTS( _ ) PATH_SUFFIXES( _ _* ) ?NO_DEFAULT_PATH ?CMAKE_FIND_ROOT_PATH_BOTH
find_path _ NAMES( _ ) PATHS( _ ) ?NO_CMAKE_PATH ?NO_CMAKE_ENVIRONMENT_PATH ?NO_SYSTEM_ENVIRONMENT_PATH ?NO_CMAKE_SYSTEM_PATH
find_path _ _ _* ?ONLY_CMAKE_FIND_ROOT_PATH
find_path _ _ _* ?NO_CMAKE_FIND_ROOT_PATH
find_program _ NAMES( _ ) PATHS( _ _* ) PATH_SUFFIXES( _ ) DOC( _ ) ?NO_DEFAULT_PATH ?CMAKE_FIND_ROOT_PATH_BOTH
find_program _ NAMES( _ ) PATHS( _ ) ?NO_CMAKE_PATH ?NO_CMAKE_ENVIRONMENT_PATH ?NO_SYSTEM_ENVIRONMENT_PATH ?NO_CMAKE_SYSTEM_PATH
find_program _ _ _* ?ONLY_CMAKE_FIND_ROOT_PATH
find_program _ _ _* ?NO_CMAKE_FIND_ROOT_PATH
find_package _ ?REQUIRED COMPONENTS( _ _* ) OPTIONAL_COMPONENTS( _ _* )
get_directory_property _ DIRECTORY( _ _ )
get_property _ TEST( _ ) PROPERTY( _ ) ?BRIEF_DOCS
get_property _ TARGET( _ ) PROPERTY( _ ) ?FULL_DOCS
include_directories ?BEFORE _ _*
include_directories ?BEFORE ?SYSTEM _ _*
string SHA256( _ _ )
string SHA384( _ _ )
string REGEX( _ _ _ _* )
string COMPARE( _ _ _ _ )
string CONFIGURE( _ _ _* ) ?ESCAPE_QUOTES
string RANDOM( _ _* ) ALPHABET( _ _ )
target_compile_options _ PRIVATE( _ _* ) PUBLIC( _ _* )
target_compile_options _ INTERFACE( _ _* )
target_include_directories _ ?AFTER PUBLIC( _ _* ) PRIVATE( _ )
try_compile _ _ _ CMAKE_FLAGS( _ _* ) COMPILE_DEFINITIONS( _ _* ) LINK_OPTIONS( _ ) LINK_LIBRARIES( _ _* ) OUTPUT_VARIABLE( _ ) COPY_FILE( _ )
try_compile _ _ SOURCES( _ _* ) CMAKE_FLAGS( _ ) COPY_FILE( _ )
try_compile RESULT_VAR( _ ) OUTPUT_VARIABLE( _ )
try_run _ _ _ _ CMAKE_FLAGS( _ _* ) COMPILE_DEFINITIONS( _ _* ) COMPILE_OUTPUT_VARIABLE( _ ) RUN_OUTPUT_VARIABLE( _ ) ARGS( _ _* )
try_run _ _ _ _ OUTPUT_VARIABLE( _ ) ARGS( _ _* )
exec_program _ _ ARGS( _ _* ) OUTPUT_VARIABLE( _ ) RETURN_VALUE( _ )
install_files _ ?FILES _ _*
install_programs _ ?FILES _ _*
install_targets _ RUNTIME_DIRECTORY( _ )
make_directory _
subdirs _ _* EXCLUDE_FROM_ALL( _ _* )
subdirs _ _* ?PREORDER
write_file _ _ _* ?APPEND
externalproject_add _ DOWNLOAD_COMMAND( _ _* ) DOWNLOAD_NAME( _ ) DOWNLOAD_NO_EXTRACT( _ ) DOWNLOAD_NO_PROGRESS( _ ) URL_MD5( _ ) URL( _ _* )
externalproject_add _ URL( _ ) TIMEOUT( _ ) HTTP_USERNAME( _ ) HTTP_PASSWORD( _ ) HTTP_HEADER( _ _* ) TLS_VERIFY( _ ) TLS_CAINFO( _ ) NETRC_FILE( _ )
externalproject_add _ URL( _ ) NETRC( ?CMAKE_NETRC )
externalproject_add _ URL( _ ) NETRC( ?REQUIRED ) NETRC_FILE( _ )
externalproject_add _ GIT_REPOSITORY( _ ) GIT_REMOTE_NAME( _ ) GIT_SUBMODULES( _ _* ) GIT_SHALLOW( _ ) GIT_PROGRESS( _ ) GIT_CONFIG( _ _* )
externalproject_add _ SVN_REPOSITORY( _ ) SVN_USERNAME( _ ) SVN_PASSWORD( _ ) SVN_TRUST_CERT( _ )
externalproject_add _ HG_REPOSITORY( _ ) HG_TAG( _ ) UPDATE_DISCONNECTED( _ )
externalproject_add _ CVS_REPOSITORY( _ ) CVS_MODULE( _ ) CVS_TAG( _ )
externalproject_add _ CMAKE_GENERATOR_PLATFORM( _ ) CMAKE_GENERATOR_TOOLSET( _ ) CMAKE_GENERATOR_INSTANCE( _ ) CMAKE_CACHE_DEFAULT_ARGS( _ _* ) SOURCE_SUBDIR( _ )
externalproject_add _ BUILD_ALWAYS( _ ) TEST_BEFORE_INSTALL( _ ) TEST_AFTER_INSTALL( _ ) TEST_EXCLUDE_FROM_MAIN( _ ) INDEPENDENT_STEP_TARGETS( _ _* )
externalproject_add _ LOG_UPDATE( _ ) LOG_PATCH( _ ) LOG_CONFIGURE( _ ) LOG_INSTALL( _ ) LOG_TEST( _ ) LOG_MERGED_STDOUTERR( _ ) LOG_OUTPUT_ON_FAILURE( _ )
externalproject_add _ USES_TERMINAL_DOWNLOAD( _ ) USES_TERMINAL_UPDATE( _ ) USES_TERMINAL_CONFIGURE( _ ) USES_TERMINAL_BUILD( _ ) USES_TERMINAL_INSTALL( _ ) USES_TERMINAL_TEST( _ ) COMMAND( _ _* )
externalproject_add_step _ _ COMMAND( _ _* ) BYPRODUCTS( _ _* ) EXCLUDE_FROM_MAIN( _ ) USES_TERMINAL( _ )
externalproject_add_steptargets _ ?NO_DEPENDS _ _*
fetchcontent_declare _ GIT_REPOSITORY( _ ) GIT_REMOTE_NAME( _ ) GIT_SUBMODULES( _ _* ) GIT_SHALLOW( _ ) GIT_PROGRESS( _ ) GIT_CONFIG( _ _* )
fetchcontent_declare _ SVN_REPOSITORY( _ ) SVN_REVISION( _ ) SVN_USERNAME( _ ) SVN_PASSWORD( _ ) SVN_TRUST_CERT( _ )
fetchcontent_declare _ HG_REPOSITORY( _ ) HG_TAG( _ ) UPDATE_COMMAND( _ _* ) UPDATE_DISCONNECTED( _ ) PATCH_COMMAND( _ _* )
fetchcontent_declare _ CVS_REPOSITORY( _ ) CVS_MODULE( _ ) CVS_TAG( _ ) DOWNLOAD_COMMAND( _ _* )
fetchcontent_declare _ URL( _ _* ) URL_MD5( _ ) DOWNLOAD_NAME( _ ) DOWNLOAD_NO_EXTRACT( _ ) DOWNLOAD_NO_PROGRESS( _ ) TIMEOUT( _ ) HTTP_USERNAME( _ ) HTTP_PASSWORD( _ ) HTTP_HEADER( _ _* )
fetchcontent_declare _ URL( _ ) TLS_VERIFY( _ ) TLS_CAINFO( _ ) NETRC( ?OPTIONAL ) NETRC_FILE( _ )
fetchcontent_populate _ ?QUIET SUBBUILD_DIR( _ ) SOURCE_DIR( _ ) BINARY_DIR( _ ) URL( _ _* ) URL_HASH( _ )
fetchcontent_populate _ GIT_REPOSITORY( _ ) GIT_TAG( _ ) GIT_SUBMODULES( _ _* ) GIT_CONFIG( _ _* ) PATCH_COMMAND( _ _* ) UPDATE_DISCONNECTED( _ )
file ?STRINGS _ _ LENGTH_MINIMUM( _ ) LIMIT_COUNT( _ ) LIMIT_INPUT( _ ) LIMIT_OUTPUT( _ ) ?NO_HEX_CONVERSION
file ?STRINGS _ _ ENCODING( _ )
file ?SHA1 _ _
file ?SHA224 _ _
file ?SHA384 _ _
file ?SHA512 _ _
file ?SHA3_224 _ _
file ?SHA3_256 _ _
file ?SHA3_384 _ _
file ?SHA3_512 _ _
file COPY( _ _* ) DESTINATION( _ ) FILE_PERMISSIONS( ?OWNER_READ ?OWNER_EXECUTE ?GROUP_READ ?GROUP_WRITE ?GROUP_EXECUTE ) DIRECTORY_PERMISSIONS( _ _* )
file COPY( _ _* ) DESTINATION( _ ) FILE_PERMISSIONS( ?WORLD_READ ?WORLD_WRITE ?WORLD_EXECUTE ?SETUID ?SETGID ) ?USE_SOURCE_PERMISSIONS
file COPY( _ ) DESTINATION( _ ) ?FILES_MATCHING PATTERN( _ ) REGEX( _ )
file ?INSTALL _ _* DESTINATION( _ )
file ?INSTALL _ _* DESTINATION( _ ) ?FILES_MATCHING PATTERN( _ ?EXCLUDE ) REGEX( _ )
file ?DOWNLOAD _ _ EXPECTED_MD5( _ ) TLS_CAINFO( _ ) NETRC( ?CMAKE_NETRC ) NETRC_FILE( _ )
file ?DOWNLOAD _ _ NETRC( ?IGNORED ) HTTPHEADER( _ ) HTTPHEADER( _ )
file ?UPLOAD _ _ INACTIVITY_TIMEOUT( _ ) TIMEOUT( _ ) ?SHOW_PROGRESS NETRC( ?REQUIRED )
file ?LOCK _ GUARD( ?FILE ) TIMEOUT( _ )
file ?LOCK _ GUARD( ?PROCESS )
install FILES( _ _* ) TYPE( _ ) PERMISSIONS( _ _* ) CONFIGURATIONS( _ _* ) RENAME( _ )
install DIRECTORY( _ _* ) TYPE( _ ) FILE_PERMISSIONS( _ _* ) DIRECTORY_PERMISSIONS( _ _* ) CONFIGURATIONS( _ _* )
install TARGETS( _ _* ) LIBRARY( DESTINATION( _ ) COMPONENT( _ ) NAMELINK_COMPONENT( _ ) )
install TARGETS( _ _* ) DESTINATION( _ ) COMPONENT( _ ) ?OPTIONAL
install TARGETS( _ _* ) DESTINATION( _ ) PERMISSIONS( _ _* ) CONFIGURATIONS( _ _* ) ?EXCLUDE_FROM_ALL
install SCRIPT( _ ) SCRIPT( _ ) CODE( _ ) ?EXCLUDE_FROM_ALL
install EXPORT( _ ) DESTINATION( _ ) FILE( _ ) NAMESPACE( _ ) PERMISSIONS( _ _* ) CONFIGURATIONS( _ ) COMPONENT( _ ) ?EXCLUDE_FROM_ALL
list ?SORT _ COMPARE( ?FILE_BASENAME ) CASE( ?SENSITIVE ) ORDER( ?ASCENDING )
list ?SORT _ ORDER( ?DESCENDING )
list ?TRANSFORM _ TOLOWER( ) OUTPUT_VARIABLE( _ )
list ?TRANSFORM _ APPEND( _ ) REGEX( _ )
list ?TRANSFORM _ PREPEND( _ ) FOR( _ _ _ )
list ?TRANSFORM _ STRIP( ) AT( _ _* )
list ?TRANSFORM _ GENEX_STRIP( ) FOR( _ _ )
cmake_parse_arguments ?PARSE_ARGV _ _ _ _ _
export_library_dependencies _ ?APPEND
get_filename_component _ _ ?DIRECTORY
get_filename_component _ _ ?NAME
get_filename_component _ _ ?ABSOLUTE
get_filename_component _ _ ?PATH
get_filename_component _ _ ?PATH ?CACHE
get_filename_component _ _ ?PROGRAM ?PROGRAM_ARGS _ ?CACHE
include_regular_expression _ _*
link_libraries ?DEBUG _ ?OPTIMIZED _ ?GENERAL _
load_cache _ EXCLUDE( _ _* ) INCLUDE_INTERNALS( _ _* )
load_command ?COMMAND_NAME _ _*
math ?EXPR _ _ OUTPUT_FORMAT( _ )
source_group _ REGULAR_EXPRESSION( _ ) FILES( _ _* )
source_group ?TREE _ PREFIX( _ ) FILES( _ _* )
get_target_property _ _ _
get_source_file_property _ _ _
get_test_property _ _ _
site_name _
ctest_build BUILD( _ ) ?APPEND CONFIGURATION( _ ) FLAGS( _ ) PROJECT_NAME( _ ) TARGET( _ ) NUMBER_ERRORS( _ ) NUMBER_WARNINGS( _ ) RETURN_VALUE( _ ) CAPTURE_CMAKE_ERROR( _ )
ctest_configure OPTIONS( _ ) CAPTURE_CMAKE_ERROR( _ ) RETURN_VALUE( _ )
ctest_coverage LABELS( _ _* ) CAPTURE_CMAKE_ERROR( _ )
ctest_memcheck EXCLUDE_LABEL( _ ) INCLUDE_LABEL( _ ) EXCLUDE_FIXTURE( _ ) EXCLUDE_FIXTURE_SETUP( _ ) EXCLUDE_FIXTURE_CLEANUP( _ ) PARALLEL_LEVEL( _ ) TEST_LOAD( _ )
ctest_memcheck BUILD( _ ) SCHEDULE_RANDOM( ?ON ) STOP_TIME( _ ) RETURN_VALUE( _ ) DEFECT_COUNT( _ ) ?QUIET
ctest_run_script ?NEW_PROCESS _ _* RETURN_VALUE( _ )
ctest_sleep _
ctest_sleep _ _ _
ctest_start _ _ _ GROUP( _ ) ?QUIET
ctest_start _ GROUP( _ ) ?APPEND ?QUIET
ctest_submit PARTS( _ _* ) SUBMIT_URL( _ ) BUILD_ID( _ ) HTTPHEADER( _ ) CAPTURE_CMAKE_ERROR( _ ) ?QUIET
ctest_test START( _ ) END( _ ) STRIDE( _ ) EXCLUDE( _ ) INCLUDE( _ ) EXCLUDE_LABEL( _ ) INCLUDE_LABEL( _ ) RESOURCE_SPEC_FILE( _ )
ctest_test EXCLUDE_FIXTURE( _ ) EXCLUDE_FIXTURE_SETUP( _ ) EXCLUDE_FIXTURE_CLEANUP( _ ) TEST_LOAD( _ ) CAPTURE_CMAKE_ERROR( _ ) RETURN_VALUE( _ )
ctest_test SCHEDULE_RANDOM( ?OFF ) PARALLEL_LEVEL( _ )
ctest_update CAPTURE_CMAKE_ERROR( _ ) SOURCE( _ )
ctest_upload FILES( _ _* ) ?QUIET CAPTURE_CMAKE_ERROR( _ )
set _ _ CACHE( _ _ ?FORCE )
""".strip().split("\n")


# keywords that take a fixed number of arguments: an argument may read like another keyword there (COMPONENT runtime)
EXACT = """
add_custom_command DEPFILE JOB_POOL MAIN_DEPENDENCY TARGET WORKING_DIRECTORY
add_custom_target COMMENT JOB_POOL WORKING_DIRECTORY
build_command CONFIGURATION PROJECT_NAME TARGET
create_test_sourcelist EXTRA_INCLUDE FUNCTION
ctest_build BUILD CAPTURE_CMAKE_ERROR CONFIGURATION FLAGS NUMBER_ERRORS NUMBER_WARNINGS PROJECT_NAME RETURN_VALUE TARGET
ctest_configure BUILD CAPTURE_CMAKE_ERROR OPTIONS RETURN_VALUE SOURCE
ctest_coverage BUILD CAPTURE_CMAKE_ERROR RETURN_VALUE
ctest_memcheck BUILD DEFECT_COUNT END EXCLUDE EXCLUDE_FIXTURE EXCLUDE_FIXTURE_CLEANUP EXCLUDE_FIXTURE_SETUP EXCLUDE_LABEL INCLUDE INCLUDE_LABEL PARALLEL_LEVEL RETURN_VALUE START STOP_TIME STRIDE TEST_LOAD
ctest_run_script RETURN_VALUE
ctest_start GROUP
ctest_submit BUILD_ID CAPTURE_CMAKE_ERROR HTTPHEADER RETRY_COUNT RETRY_DELAY RETURN_VALUE SUBMIT_URL
ctest_test BUILD CAPTURE_CMAKE_ERROR END EXCLUDE EXCLUDE_FIXTURE EXCLUDE_FIXTURE_CLEANUP EXCLUDE_FIXTURE_SETUP EXCLUDE_LABEL INCLUDE INCLUDE_LABEL PARALLEL_LEVEL RESOURCE_SPEC_FILE RETURN_VALUE SCHEDULE_RANDOM START STOP_TIME STRIDE TEST_LOAD
ctest_update CAPTURE_CMAKE_ERROR RETURN_VALUE SOURCE
ctest_upload CAPTURE_CMAKE_ERROR
exec_program OUTPUT_VARIABLE RETURN_VALUE
export ANDROID_MK EXPORT FILE NAMESPACE PACKAGE
externalproject_add BINARY_DIR BUILD_ALWAYS BUILD_IN_SOURCE CMAKE_COMMAND CMAKE_GENERATOR CMAKE_GENERATOR_INSTANCE CMAKE_GENERATOR_PLATFORM CMAKE_GENERATOR_TOOLSET CVS_MODULE CVS_REPOSITORY CVS_TAG DOWNLOAD_DIR DOWNLOAD_NAME DOWNLOAD_NO_EXTRACT DOWNLOAD_NO_PROGRESS EXCLUDE_FROM_ALL GIT_PROGRESS GIT_REMOTE_NAME GIT_REPOSITORY GIT_SHALLOW GIT_TAG HG_REPOSITORY HG_TAG HTTP_PASSWORD HTTP_USERNAME INSTALL_DIR LIST_SEPARATOR LOG_BUILD LOG_CONFIGURE LOG_DIR LOG_DOWNLOAD LOG_INSTALL LOG_MERGED_STDOUTERR LOG_OUTPUT_ON_FAILURE LOG_PATCH LOG_TEST LOG_UPDATE NETRC_FILE PREFIX SOURCE_DIR SOURCE_SUBDIR STAMP_DIR SVN_PASSWORD SVN_REPOSITORY SVN_REVISION SVN_TRUST_CERT SVN_USERNAME TEST_AFTER_INSTALL TEST_BEFORE_INSTALL TEST_EXCLUDE_FROM_MAIN TIMEOUT TLS_CAINFO TLS_VERIFY TMP_DIR UPDATE_DISCONNECTED URL_HASH URL_MD5 USES_TERMINAL_BUILD USES_TERMINAL_CONFIGURE USES_TERMINAL_DOWNLOAD USES_TERMINAL_INSTALL USES_TERMINAL_TEST USES_TERMINAL_UPDATE
externalproject_add_step ALWAYS EXCLUDE_FROM_MAIN LOG USES_TERMINAL WORKING_DIRECTORY
fetchcontent_declare CVS_MODULE CVS_REPOSITORY CVS_TAG DOWNLOAD_NAME DOWNLOAD_NO_EXTRACT DOWNLOAD_NO_PROGRESS GIT_PROGRESS GIT_REMOTE_NAME GIT_REPOSITORY GIT_SHALLOW GIT_TAG HG_REPOSITORY HG_TAG HTTP_PASSWORD HTTP_USERNAME NETRC_FILE SVN_PASSWORD SVN_REPOSITORY SVN_REVISION SVN_TRUST_CERT SVN_USERNAME TIMEOUT TLS_CAINFO TLS_VERIFY UPDATE_DISCONNECTED URL_HASH URL_MD5
fetchcontent_getproperties BINARY_DIR POPULATED SOURCE_DIR
fetchcontent_populate BINARY_DIR GIT_REPOSITORY GIT_TAG SOURCE_DIR SUBBUILD_DIR UPDATE_DISCONNECTED URL_HASH
file DESTINATION ENCODING EXPECTED_HASH EXPECTED_MD5 HTTPHEADER INACTIVITY_TIMEOUT INPUT LENGTH_MAXIMUM LENGTH_MINIMUM LIMIT LIMIT_COUNT LIMIT_INPUT LIMIT_OUTPUT LIST_DIRECTORIES LOG NETRC_FILE OFFSET OUTPUT RELATIVE RESULT RESULT_VARIABLE STATUS TIMEOUT TLS_CAINFO TLS_VERIFY USERPWD
foreach RANGE
include_external_msproject GUID PLATFORM TYPE
install CODE COMPONENT DESTINATION EXPORT FILE NAMELINK_COMPONENT NAMESPACE RENAME SCRIPT TYPE
install_targets RUNTIME_DIRECTORY
list APPEND OUTPUT_VARIABLE PREPEND REGEX REPLACE
math OUTPUT_FORMAT
project DESCRIPTION HOMEPAGE_URL
source_group PREFIX REGULAR_EXPRESSION
""".strip().split("\n")
EXACT = {l.split()[0]: l.split()[1:] for l in EXACT}

OPEN = {"foreach", "function", "macro", "if", "while"}


def read(words):
  """a signature as a tree"""
  out = []
  while words:
    w = words.pop(0)
    if w == ")":
      break
    if w.endswith("("):
      out.append(["kw", w[:-1], read(words)])
    elif w.startswith("?"):
      out.append(["flag", w[1:]])
    elif w.startswith("="):
      out.append(["lit", w[1:]])
    else:
      out.append(["arg", w])
  return out


TREES = [(l.split()[0], read(l.split()[1:])) for l in SIGNATURES]
# the groups of these commands can be written in any order, and their flags left out
FREE = {"add_custom_command", "add_custom_target", "execute_process", "install", "find_library", "find_path", "find_program", "export",
        "project", "target_link_libraries", "target_compile_definitions", "target_include_directories", "target_sources",
        "target_compile_features", "externalproject_add", "externalproject_add_step", "add_test", "ctest_test", "ctest_configure",
        "ctest_memcheck", "ctest_submit", "build_command", "ctest_build", "ctest_coverage", "ctest_update", "fetchcontent_declare",
        "fetchcontent_populate", "find_file"}


def casing(s, w):
  return s.w((7, w), (2, w.lower()), (1, w.capitalize()))


def value(s):
  return ["arg", s.pick(VALUES)]


def fill(s, tree, words, fixed, exact):
  out = []
  for e in tree:
    if fixed and s.p(5):
      # a value which reads like a keyword, where the number of arguments is fixed
      out.append(["arg", s.pick(words).lower()])
    elif e[0] == "lit":
      out.append(["arg", casing(s, e[1])])
    elif e[0] == "arg":
      out += [value(s) for _ in range(s.many(0, 6, 50) if e[1] == "_*" else 1)]
    elif e[0] == "flag":
      out.append(["flag", casing(s, e[1])])
    else:
      out.append(["kw", casing(s, e[1]), fill(s, e[2], words, e[1] in exact, exact)])
  return out


def gen_call(s):
  name, tree = s.pick(TREES)
  tree = [e for k, e in enumerate(tree) if k == 0 or e[0] == "arg" or (e[0] == "flag" and name not in FREE) or not s.p(15)]
  if name in FREE:
    # what follows after the first element and the positional arguments
    n = 1
    while n < len(tree) and tree[n][0] != "kw":
      n += 1
    # (EXPORT comes before the kinds of artifacts in install(TARGETS))
    if s.p(40) and not (name == "install" and tree[0][1] == "TARGETS"):
      tree = tree[:n] + s.shuffle(tree[n:])
    again = [e for e in tree[n:] if e[0] == "kw" and e[1] != "EXPORT"]
    if again and s.p(15):
      tree = tree + [s.pick(again)]
  return name, fill(s, tree, keywords(tree), False, EXACT.get(name, ()))


def keywords(tree):
  return [w for e in tree if e[0] == "kw" for w in [e[1]] + keywords(e[2])]


UNARY = ["DEFINED", "EXISTS", "TARGET", "COMMAND", "IS_DIRECTORY", "POLICY", "IS_ABSOLUTE", "TEST", "IS_SYMLINK"]
BINARY = ["STREQUAL", "EQUAL", "MATCHES", "VERSION_LESS", "IN_LIST", "LESS", "GREATER", "STRLESS", "STRGREATER", "VERSION_GREATER",
          "VERSION_EQUAL", "IS_NEWER_THAN"]


def term(s, depth):
  out = [["flag", casing(s, "NOT")] for _ in range(s.w((4, 0), (2, 1)))]
  if depth and s.p(30):
    return out + [["paren", cond(s, depth - 1)]]
  k = s.w((2, "plain"), (2, "unary"), (3, "binary"))
  if k == "unary":
    return out + [["flag", casing(s, s.pick(UNARY))], value(s)]
  if k == "binary":
    return out + [value(s), ["flag", casing(s, s.pick(BINARY))], value(s)]
  return out + [value(s)]


def cond(s, depth):
  out = term(s, depth)
  for _ in range(s.many(0, 4, 50)):
    out.append(["kw", casing(s, s.pick(["AND", "OR"])), term(s, depth)])
  return out


def flat(tree, path=()):
  """(kind, word, keywords and parentheses around it)"""
  out = []
  for e in tree:
    if e[0] == "kw":
      out.append(("kw", e[1], path))
      out += flat(e[2], path + (e[1],))
    elif e[0] == "paren":
      out += flat(e[1], path + ("(",))
    else:
      out.append((e[0], e[1], path))
  return out


def pieces(tree):
  out = []
  for e in tree:
    if e[0] == "kw":
      out += [e[1]] + pieces(e[2])
    elif e[0] == "paren":
      out += ["("] + pieces(e[1]) + [")"]
    else:
      out.append(e[1])
  return out


def render(s, name, tree, comments):
  text = s.w((4, name), (1, name.upper()), (1, name.capitalize())) + s.w((5, ""), (1, " ")) + "("
  first = True
  for n, w in enumerate(pieces(tree)):
    text += "" if first else s.w((6, " "), (1, "\n  "), (1, "  "))
    text += w
    first = False
    if comments and s.p(comments):
      text += s.w((3, " # note %d\n  " % n), (2, "\n  # note %d\n" % n), (1, " #[[br %d]]" % n))
  return text + ")\n" + ("end%s()\n" % name if name in OPEN else "")


def gen_case(s):
  name, tree = (s.pick(["if", "while"]), cond(s, 2)) if s.p(15) else gen_call(s)
  return {"name": name, "tree": tree, "text": render(s, name, tree, s.w((4, 0), (2, 10)))}


def actual(node, path=()):
  from cmakelang.lex import Token
  from cmakelang.parse.common import NodeType
  out = []
  for c in node.children:
    if isinstance(c, Token):
      continue
    kind = c.node_type
    if kind is NodeType.KWARGGROUP:
      word = c.keyword.token.spelling
      out.append(("kw", word, path))
      if c.body is not None:
        out += actual(c.body, path + (word,))
    elif kind is NodeType.PARENGROUP:
      out += actual(c, path + ("(",))
    elif kind in (NodeType.FLAG, NodeType.ARGUMENT):
      out.append(("flag" if kind is NodeType.FLAG else "arg", c.get_tokens(kind="semantic")[0].spelling, path))
    else:
      out += actual(c, path)
  return out


def statement(tree, name):
  from cmakelang.lex import Token
  for c in tree.children:
    if isinstance(c, Token):
      continue
    if hasattr(c, "argtree"):
      return c
    found = statement(c, name)
    if found is not None:
      return found
  return None


def oracle(case, rec):
  text, want = case["text"], flat(case["tree"])
  ref_parse_input(text)
  _, tree = parsed(text, {})
  got = actual(statement(tree, case["name"]).argtree)
  if got != want:
    k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
    raise Violation("%s\nargument %d: documented %s, parsed %s" % (text, k, want[k:k + 1], got[k:k + 1]))
  rec.nontrivial(len(case["tree"]) > 1 and any(e[0] == "kw" and e[-1] for e in case["tree"]))
  rec.label(case["name"])
  if "#" in text:
    return
  # written vertically, every keyword at the top level starts a line, and what belongs to it follows
  out = sut.fmt(text, {"format": {"max_subgroups_hwrap": 0, "line_width": 500, "max_pargs_hwrap": 500}})[0]
  c = cmds(ref_parse(out))[0]
  words = [w for w in want]
  if len(c.argtoks) != len([w for w in pieces(case["tree"]) if w not in "()"]) or len(case["tree"]) < 2:
    return
  lines = out.split("\n")
  top = sum(1 for e in case["tree"] if e[0] == "kw") 
  if top < 2:
    return
  for t, (kind, word, path) in zip(c.argtoks, words):
    head = lines[t.line - 1][:t.col].strip()
    if kind == "kw" and not path and head not in ("", c.name + "(", c.name + " ("):
      raise Violation("keyword %s does not start a line\n%s" % (word, out))


SUBS = [Sub("group", gen_case, oracle, 7000, 100000, 200)]
