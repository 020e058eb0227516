// Simulated-fault file system on a real scratch directory.
#pragma once
#include "net.h"
#include <string>
#include <vector>
namespace sim {
struct FileFd : Vfd { std::string path; int flags = 0; };
enum FsFaultKind { FF_ENOSPC = 0, FF_EIO_READ, FF_EIO_WRITE, FF_EMFILE, FF_EACCES, FF_SHORT_WRITE, FF_RENAME, FF_ENOENT_DIR, FF_UNLINK, FF_EIO_STAT, FF_KINDS };
struct FsFault {
    FsFaultKind kind;
    int node = 0;
    uint32_t ppm = 1000000;
    std::string match;            // substring of the path, empty: all
    int64_t from = 0, until = INT64_MAX;
    int64_t left = INT64_MAX;     // how many may still fire
    bool silent = false;
};
extern std::vector<FsFault> fs_faults;
void fs_clear_faults(int node);
extern int64_t fs_free_bytes[64];
extern bool fs_shuffle_readdir;
extern uint32_t fs_slow_ppm; extern int64_t fs_slow_max_ns;    // file operations that take long
// harness-side access
bool h_write_file(const std::string &path, const std::string &data);   // sets simulated mtime
bool h_read_file(const std::string &path, std::string &data);
void h_mkdirs(const std::string &path);
bool h_exists(const std::string &path);
std::vector<std::string> h_list_tree(const std::string &dir);          // all files, relative
std::vector<std::string> h_list_dirs(const std::string &dir);          // all directories, relative
void h_unlink(const std::string &path);
void h_touch_mtime(const std::string &path, int64_t ns_from_now = 0);
void h_copy_tree(const std::string &from, const std::string &to);
void h_remove_tree(const std::string &path);                           // only below the scratch root
extern int64_t g_fs_denied;
extern std::string g_fs_denied_path;
ssize_t vfd_read(Vfd *v, void *d, size_t n);
ssize_t vfd_write(Vfd *v, const void *d, size_t n);
}
