# Included by /repo's own top-level project() call (CMAKE_PROJECT_dots-cpp_INCLUDE): serves the empty submodules
# from apt like /opt/vp/cmake/inject.cmake does, supplies a stand-in PicoSHA2 (so that Digest.cpp is compiled), and
# adds the harness of /verif at the end of the top-level directory.
include_guard(GLOBAL)
set(VERIF_HARNESS_DIR "${CMAKE_CURRENT_LIST_DIR}")

macro(add_subdirectory _vp_dir)
    if("${_vp_dir}" STREQUAL "external/date")
        find_package(date REQUIRED)
        set_target_properties(date::date date::date-tz PROPERTIES IMPORTED_GLOBAL TRUE)
    elseif("${_vp_dir}" STREQUAL "external/fmt")
        find_package(fmt REQUIRED)
        set_target_properties(fmt::fmt fmt::fmt-header-only PROPERTIES IMPORTED_GLOBAL TRUE)
        foreach(_vp_fmt IN ITEMS fmt::fmt fmt::fmt-header-only)
            target_include_directories(${_vp_fmt} INTERFACE ${VERIF_HARNESS_DIR}/include)
        endforeach()
    elseif("${_vp_dir}" STREQUAL "external/googletest")
        _add_subdirectory(/usr/src/googletest ${CMAKE_BINARY_DIR}/googletest EXCLUDE_FROM_ALL)
    else()
        _add_subdirectory(${ARGV})
    endif()
    if("${_vp_dir}" STREQUAL "lib")
        target_precompile_headers(dots PRIVATE "${VERIF_HARNESS_DIR}/pch.h")
        # Boost.Beast dominates the build time: these two files are compiled without optimisation and with ASan only.
        set_source_files_properties(
            "${CMAKE_SOURCE_DIR}/lib/src/io/channels/WebSocketChannel.cpp" "${CMAKE_SOURCE_DIR}/lib/src/io/channels/WebSocketListener.cpp"
            TARGET_DIRECTORY dots PROPERTIES COMPILE_OPTIONS "-O0;-fno-sanitize=undefined;-g0" SKIP_PRECOMPILE_HEADERS ON)
    endif()
    if("${_vp_dir}" STREQUAL "bin/dotsd")
        _add_subdirectory("${VERIF_HARNESS_DIR}" "${CMAKE_BINARY_DIR}/harness")
    endif()
endmacro()
