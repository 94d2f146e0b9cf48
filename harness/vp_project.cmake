# Included right after project(HlasmServer) of /repo: adds the verification drivers to the build of /repo's sources.
function(vp_add_drivers)
	set(H ${VP_HARNESS_DIR})
	file(GLOB lib_src ${H}/lib/*.cpp)
	file(GLOB srv_src ${H}/srv/*.cpp)
	if(lib_src)
		add_executable(vp_lib EXCLUDE_FROM_ALL ${lib_src})
		target_include_directories(vp_lib PRIVATE ${H})
		target_link_libraries(vp_lib parser_library nlohmann_json::nlohmann_json Threads::Threads hlasm_utils)
	endif()
	# nlohmann/json 3.11 needs pgm_conf to be complete where a forward declaration was enough for 3.3
	set_property(SOURCE ${CMAKE_SOURCE_DIR}/language_server/src/lsp/feature_workspace_folders.cpp TARGET_DIRECTORY language_server_base
		PROPERTY COMPILE_FLAGS "-include ${CMAKE_SOURCE_DIR}/parser_library/src/config/pgm_conf.h")
	if(srv_src)
		add_executable(vp_srv EXCLUDE_FROM_ALL ${srv_src})
		target_include_directories(vp_srv PRIVATE ${H} ${CMAKE_SOURCE_DIR}/language_server/src)
		target_link_libraries(vp_srv language_server_base parser_library nlohmann_json::nlohmann_json Threads::Threads hlasm_utils boost-asio)
	endif()
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL vp_add_drivers)
