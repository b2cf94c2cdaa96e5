#include <string>
extern int const vt_version_major; extern int const vt_version_minor; extern int const vt_version_patch;
extern std::string const vt_git_sha1; extern std::string const vt_git_exact_tag; extern std::string const vt_git_refspec;
extern std::string const vt_git_description; extern std::string const vt_git_clean_status;
int const vt_version_major = 1; int const vt_version_minor = 0; int const vt_version_patch = 0;
std::string const vt_git_sha1 = "0"; std::string const vt_git_exact_tag = "v"; std::string const vt_git_refspec = "r";
std::string const vt_git_description = "d"; std::string const vt_git_clean_status = "CLEAN";
