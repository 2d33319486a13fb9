# libcheck from the apt package "check", under the target name the project links (Check::Check).
find_package(PkgConfig REQUIRED)
pkg_check_modules(PC_CHECK REQUIRED IMPORTED_TARGET check)
if(NOT TARGET Check::Check)
  add_library(Check::Check INTERFACE IMPORTED)
  set_target_properties(Check::Check PROPERTIES INTERFACE_LINK_LIBRARIES PkgConfig::PC_CHECK)
endif()
set(check_FOUND TRUE)
