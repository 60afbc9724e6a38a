# Included right after project() of /repo's core/CMakeLists.txt (CMAKE_PROJECT_dyablo_INCLUDE):
# adds the monitor executables at the end of that directory, once every dyablo target exists.
set(VP_MONITORS_DIR ${CMAKE_CURRENT_LIST_DIR})
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL include ${VP_MONITORS_DIR}/targets.cmake)
