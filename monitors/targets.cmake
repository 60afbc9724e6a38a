function(vp_monitor NAME)
  add_executable(${NAME} ${ARGN})
  target_include_directories(${NAME} PRIVATE ${VP_MONITORS_DIR})
  target_link_libraries(${NAME} PRIVATE dyablo_core config Kokkos::kokkos monitoring BITPIT::BITPIT mpiUtils)
  if(VP_TSAN)
    target_sources(${NAME} PRIVATE ${VP_MONITORS_DIR}/tsan_gomp_shim.c)
  endif()
endfunction()
file(GLOB VP_MON_SRCS ${VP_MONITORS_DIR}/mon_*.cpp)
foreach(f ${VP_MON_SRCS})
  get_filename_component(n ${f} NAME_WE)
  vp_monitor(${n} ${f})
endforeach()
vp_monitor(dyablo_mon ${VP_MONITORS_DIR}/dyablo_mon.cpp)
get_property(VP_ALL DIRECTORY PROPERTY BUILDSYSTEM_TARGETS)
add_custom_target(all_monitors)
foreach(t ${VP_ALL})
  if(t MATCHES "^mon_" OR t STREQUAL "dyablo_mon")
    add_dependencies(all_monitors ${t})
  endif()
endforeach()
