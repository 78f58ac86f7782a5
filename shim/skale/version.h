#pragma once
struct skale_buildinfo { const char *project_name, *project_name_with_version, *project_version, *git_branch, *git_commit_hash, *system_name, *system_processor, *compiler_id, *compiler_version, *build_type; };
#ifdef __cplusplus
extern "C"
#endif
const struct skale_buildinfo* skale_get_buildinfo();
