# Included right after project(jumanpp) of /repo (CMAKE_PROJECT_jumanpp_INCLUDE).
# Leaves out /repo/test (it only downloads files) and adds the harness targets
# at the end of the top-level directory, so that they link against the
# libraries that this very configuration builds from /repo's working tree.
include_guard(GLOBAL)

macro(add_subdirectory dir)
  if("${dir}" STREQUAL "test" AND "${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}")
    set(JPP_TEST_RESOURCE_DIR ${CMAKE_SOURCE_DIR}/test)
  else()
    _add_subdirectory(${dir} ${ARGN})
  endif()
endmacro()

cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL include ${VH_DIR}/harness.cmake)
