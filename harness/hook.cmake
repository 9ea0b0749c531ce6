# Included right after project() of /repo: the sandbox's own adaptions first, then the verification
# harness is added to the same build, so that it links what the current working tree builds.
include(/opt/vp/support/hook.cmake)
set(VP_HARNESS "${CMAKE_CURRENT_LIST_DIR}/harness.cmake")
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL include "${VP_HARNESS}")
