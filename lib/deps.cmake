# Included right after project(QLever) through CMAKE_PROJECT_QLever_INCLUDE.
# The git submodules in third_party/ are empty here. When the project's
# CMakeLists.txt adds one of them, the library from apt takes its place.
macro(add_subdirectory vp_dir)
  if("${vp_dir}" STREQUAL "third_party/googletest/googletest")
    _add_subdirectory(/usr/src/googletest/googletest ${CMAKE_BINARY_DIR}/third_party/googletest)
  elseif("${vp_dir}" STREQUAL "third_party/abseil-cpp")
    find_package(absl REQUIRED)
    # apt's abseil is configured with its own string_view class, the submodule
    # takes std::string_view from C++17 on, which src/util/HashMap.h relies on.
    # This copy of apt's options.h differs in that one setting.
    file(READ /usr/include/absl/base/options.h vp_options)
    string(REPLACE "ABSL_OPTION_USE_STD_STRING_VIEW 0" "ABSL_OPTION_USE_STD_STRING_VIEW 1"
           vp_options "${vp_options}")
    file(CONFIGURE OUTPUT ${CMAKE_BINARY_DIR}/vp_include/absl/base/options.h
         CONTENT "${vp_options}" @ONLY)
    include_directories(BEFORE ${CMAKE_BINARY_DIR}/vp_include)
  elseif("${vp_dir}" STREQUAL "third_party/stxxl")
    find_library(VP_STXXL stxxl REQUIRED)
    set(STXXL_LIBRARIES ${VP_STXXL})
    set(STXXL_INCLUDE_DIRS "")
    # from stxxl.pc: apt's build uses the parallel mode of libstdc++
    set(STXXL_CXX_FLAGS "-fopenmp")
  elseif("${vp_dir}" STREQUAL "third_party/re2")
    # the name re2 becomes -lre2
    find_library(VP_RE2 re2 REQUIRED)
  else()
    _add_subdirectory("${vp_dir}" ${ARGN})
  endif()
endmacro()
