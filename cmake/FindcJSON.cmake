# cJSON from libcjson-dev, under the target name the project links (cJSON::cJSON).
find_package(cJSON CONFIG REQUIRED)
if(NOT TARGET cJSON::cJSON)
  add_library(cJSON::cJSON INTERFACE IMPORTED)
  set_target_properties(cJSON::cJSON PROPERTIES INTERFACE_LINK_LIBRARIES cjson)
endif()
set(cJSON_FOUND TRUE)
