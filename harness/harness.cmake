# Harness executables: one per layer, so that a check only builds what it needs.
function(vh_exe name)
  cmake_parse_arguments(VH "" "" "SRC;LINK;INC" ${ARGN})
  set(srcs ${VH_DIR}/vh_main.cc)
  foreach(s ${VH_SRC})
    list(APPEND srcs ${VH_DIR}/${s})
  endforeach()
  add_executable(${name} EXCLUDE_FROM_ALL ${srcs})
  target_include_directories(${name} PRIVATE ${VH_DIR} ${CMAKE_SOURCE_DIR}/src
    ${CMAKE_SOURCE_DIR}/libs ${CMAKE_BINARY_DIR}/src ${CMAKE_BINARY_DIR}/src/core ${VH_INC})
  target_link_libraries(${name} ${VH_LINK})
endfunction()

find_package(Threads REQUIRED)
file(GLOB VH_UTIL_SRC RELATIVE ${VH_DIR} CONFIGURE_DEPENDS ${VH_DIR}/u_*.cc)
file(GLOB VH_CORE_SRC RELATIVE ${VH_DIR} CONFIGURE_DEPENDS ${VH_DIR}/c_*.cc)
file(GLOB VH_TRAIN_SRC RELATIVE ${VH_DIR} CONFIGURE_DEPENDS ${VH_DIR}/t_*.cc)
file(GLOB VH_JUMAN_SRC RELATIVE ${VH_DIR} CONFIGURE_DEPENDS ${VH_DIR}/j_*.cc)
if(VH_UTIL_SRC)
  vh_exe(vh_util SRC ${VH_UTIL_SRC} LINK jpp_util Threads::Threads)
endif()
if(VH_CORE_SRC)
  # generated feature code is loaded into it
  vh_exe(vh_core SRC ${VH_CORE_SRC} g_cg.cc LINK jpp_core_codegen -Wl,--whole-archive jpp_core jpp_util -Wl,--no-whole-archive Threads::Threads ${CMAKE_DL_LIBS})
  set_target_properties(vh_core PROPERTIES ENABLE_EXPORTS ON)
endif()
if(VH_TRAIN_SRC)
  vh_exe(vh_train SRC ${VH_TRAIN_SRC} ${VH_CORE_SRC} LINK jpp_core_train Threads::Threads)
endif()
if(VH_JUMAN_SRC)
  vh_exe(vh_jumandic SRC ${VH_JUMAN_SRC} ${VH_CORE_SRC} LINK jpp_jumandic jpp_core_train Threads::Threads
    INC ${CMAKE_BINARY_DIR}/src/jumandic/gen)
  target_compile_definitions(vh_jumandic PRIVATE VH_JUMANDIC)
endif()
file(GLOB VH_EXEC_SRC RELATIVE ${VH_DIR} CONFIGURE_DEPENDS ${VH_DIR}/x_*.cc)
if(VH_EXEC_SRC)
  vh_exe(vh_exec SRC ${VH_EXEC_SRC} LINK jpp_core_train Threads::Threads)
  vh_exe(vh_exec_rt SRC ${VH_EXEC_SRC} LINK jpp_core_train Threads::Threads)
  target_compile_definitions(vh_exec_rt PRIVATE VH_REAL_THREADS)
endif()
