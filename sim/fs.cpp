#include "core.h"
#include "fs.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <pwd.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

#define REAL(name, type) static auto real = (type)dlsym(RTLD_NEXT, name)
namespace sim {
std::vector<FsFault> fs_faults;
int64_t fs_free_bytes[64];
bool fs_shuffle_readdir;
uint32_t fs_slow_ppm; int64_t fs_slow_max_ns;
int64_t g_fs_denied;
std::string g_fs_denied_path;
static std::unordered_map<uint64_t, int64_t> mtimes;   // inode -> simulated wall clock, ns

static std::string resolve(const char *p) {
    // the system under test sees the scratch directory of the run as /sim
    if (!p) return "";
    if (!sut()) return p;
    if (p[0] == '/') return !strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4]) ? g_root + (p + 4) : p;
    return nodes[self->node].cwd + "/" + p;
}
static bool normal_below_root(const std::string &path) {
    // lexical: no ".." may lead out of the scratch root
    if (path.compare(0, g_root.size(), g_root)) return false;
    int depth = 0; size_t i = g_root.size();
    while (i < path.size()) {
        size_t j = path.find('/', i); if (j == std::string::npos) j = path.size();
        std::string c = path.substr(i, j - i);
        if (c == "..") { if (--depth < 0) return false; } else if (!c.empty() && c != ".") depth++;
        i = j + 1;
    }
    return true;
}
static bool denied(const std::string &path) {
    if (normal_below_root(path) || path == "/dev/null") return false;
    g_fs_denied++; g_fs_denied_path = path; note("denied write access to %s", path.c_str());
    return true;
}
enum { OP_OPEN, OP_CREATE, OP_READ, OP_WRITE, OP_TRUNC, OP_ALLOC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_STAT, OP_OPENDIR, OP_OTHER };
static const char *opn[] = {"open", "create", "read", "write", "trunc", "alloc", "rename", "unlink", "mkdir", "rmdir", "stat", "opendir", "other"};
static const char *fkn[] = {"fs_ENOSPC", "fs_EIO_read", "fs_EIO_write", "fs_EMFILE", "fs_EACCES", "fs_short_write", "fs_rename_EIO", "fs_dir_ENOENT", "fs_unlink_EIO", "fs_stat_EIO"};
struct OpRes { int err = 0; bool torn_kill = false; bool kill_after = false; bool shortw = false; };

// Called before every file operation of a node: preemption, kill and fault point.
static OpRes fs_op(int op, const std::string &path, bool extends = false) {
    OpRes r;
    point(60 + op);
    hash_mix(op);
    Node &n = nodes[self->node];
    n.fsops++;
    g_counts["fs_ops"]++;
    if (fs_slow_ppm && chance(ST_F, fs_slow_ppm)) stall((1 + choose(ST_F, 64)) * fs_slow_max_ns / 64, "slow_disk");
    if (n.kill_fsops >= 0 && !self->nopreempt) {
        if (n.kill_fsops-- == 0) {
            uint32_t how = op == OP_WRITE ? choose(ST_F, 3) : choose(ST_F, 2);
            if (how == 0) { fault("kill_before_" + std::string(opn[op])); node_kill(n.id, (std::string("killed before ") + opn[op] + " " + path).c_str()); }
            if (how == 1) { r.kill_after = true; fault("kill_after_" + std::string(opn[op])); }
            if (how == 2) { r.torn_kill = true; fault("kill_in_write"); }
        }
    }
    for (FsFault &f : fs_faults) {
        if (f.node != n.id || f.left <= 0 || now_ns < f.from || now_ns >= f.until) continue;
        if (!f.match.empty() && path.find(f.match) == std::string::npos) continue;
        int e = 0; bool sh = false;
        switch (f.kind) {
        case FF_ENOSPC: if (op == OP_ALLOC || op == OP_MKDIR || (op == OP_CREATE) || (op == OP_WRITE && extends)) e = ENOSPC; break;
        case FF_EIO_READ: if (op == OP_READ) e = EIO; break;
        case FF_EIO_WRITE: if (op == OP_WRITE || op == OP_ALLOC || op == OP_TRUNC) e = EIO; break;
        case FF_EMFILE: if (op == OP_OPEN || op == OP_CREATE || op == OP_OPENDIR) e = EMFILE; break;
        case FF_EACCES: if (op == OP_OPEN || op == OP_CREATE || op == OP_OPENDIR || op == OP_MKDIR) e = EACCES; break;
        case FF_SHORT_WRITE: if (op == OP_WRITE) sh = true; break;
        case FF_RENAME: if (op == OP_RENAME) e = EIO; break;
        case FF_ENOENT_DIR: if (op == OP_OPENDIR) e = ENOENT; break;
        case FF_UNLINK: if (op == OP_UNLINK) e = EIO; break;
        case FF_EIO_STAT: if (op == OP_STAT) e = EIO; break;
        default: break;
        }
        if ((e || sh) && chance(ST_F, f.ppm)) {
            f.left--;
            if (!f.silent) fault(fkn[f.kind]);
            note("  %s on %s %s", fkn[f.kind], opn[op], path.c_str());
            if (sh) r.shortw = true; else { r.err = e; return r; }
        }
    }
    return r;
}
static void after_op(const OpRes &r, const char *what) { if (r.kill_after || r.torn_kill) node_kill(self->node, (std::string("killed after ") + what).c_str()); }
void fs_clear_faults(int node) { fs_faults.erase(std::remove_if(fs_faults.begin(), fs_faults.end(), [node](FsFault &f) { return f.node == node; }), fs_faults.end()); }

static void set_mtime_fd(int fd) { struct stat st; if (syscall(SYS_fstat, fd, &st) == 0) mtimes[st.st_ino] = wall_ns(self ? self->node : -1); }
static void fix_stat(struct stat *st) {
    auto it = mtimes.find(st->st_ino);
    int64_t t = it == mtimes.end() ? wall_base_ns : it->second;
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = t / 1000000000LL; st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = t % 1000000000LL;
}
static FileFd *file(int fd) { Vfd *v = vfd(fd); return v && v->kind == FD_FILE ? (FileFd *)v : nullptr; }
static int reg(int fd, const std::string &path, int flags) {
    FileFd *f = new FileFd(); f->path = path; f->flags = flags; f->fd = fd;
    vfd_new(f, FD_FILE, self->node);
    g_counts["fs_opens"]++;
    return fd;
}
static int do_open(const char *p, int flags, int mode) {
    std::string path = resolve(p);
    if (!sut()) return syscall(SYS_openat, AT_FDCWD, path.c_str(), flags, mode);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    if (path == "/dev/urandom" || path == "/dev/random") { int fd = syscall(SYS_openat, AT_FDCWD, "/dev/zero", O_RDONLY, 0); return fd; }
    if (wr && denied(path)) { errno = EACCES; return -1; }
    bool in = normal_below_root(path);
    OpRes r;
    if (in) {
        struct stat st;
        bool exists = syscall(SYS_stat, path.c_str(), &st) == 0;
        r = fs_op((flags & O_DIRECTORY) ? OP_OPENDIR : (flags & O_CREAT) && !exists ? OP_CREATE : OP_OPEN, path);
        if (r.err) { errno = r.err; return -1; }
        exists = syscall(SYS_stat, path.c_str(), &st) == 0;
        int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), flags | O_CLOEXEC, mode);
        int e = errno;
        if (fd >= 0) { reg(fd, path, flags); if (((flags & O_CREAT) && !exists) || (flags & O_TRUNC)) set_mtime_fd(fd); }
        after_op(r, "open");
        errno = e;
        return fd;
    }
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), flags | O_CLOEXEC, mode);
    if (fd >= 0) reg(fd, path, flags);
    return fd;
}
#define MODE(f) int mode = 0; if ((f) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); mode = va_arg(ap, int); va_end(ap); }
extern "C" int open(const char *p, int f, ...) { MODE(f) return do_open(p, f, mode); }
extern "C" int open64(const char *p, int f, ...) { MODE(f) return do_open(p, f, mode); }
static int do_openat(int d, const char *p, int f, int mode) {
    if (sut() && d != AT_FDCWD && p[0] != '/') { FileFd *b = file(d); if (!b) { errno = EBADF; return -1; } return do_open((b->path + "/" + p).c_str(), f, mode); }
    if (!sut()) return syscall(SYS_openat, d, p, f, mode);
    return do_open(p, f, mode);
}
extern "C" int openat(int d, const char *p, int f, ...) { MODE(f) return do_openat(d, p, f, mode); }
extern "C" int openat64(int d, const char *p, int f, ...) { MODE(f) return do_openat(d, p, f, mode); }
extern "C" int __openat64_2(int d, const char *p, int f) { return do_openat(d, p, f, 0); }
extern "C" int __open_2(const char *p, int f) { return do_open(p, f, 0); }
extern "C" int __open64_2(const char *p, int f) { return do_open(p, f, 0); }
extern "C" int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *p, const char *m) {
    static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    std::string path = resolve(p);
    if (!sut()) return real(path.c_str(), m);
    bool wr = strpbrk(m, "wa+") != nullptr;
    if (wr && denied(path)) { errno = EACCES; return nullptr; }
    OpRes r;
    bool in = normal_below_root(path);
    if (in) {
        struct stat st;
        bool exists = syscall(SYS_stat, path.c_str(), &st) == 0;
        r = fs_op(wr && !exists ? OP_CREATE : OP_OPEN, path);
        if (r.err) { errno = r.err; return nullptr; }
    }
    FILE *f = real(path.c_str(), m);
    int e = errno;
    if (f) { reg(fileno(f), path, wr ? O_RDWR : O_RDONLY); if (wr && in) set_mtime_fd(fileno(f)); }
    if (in) after_op(r, "fopen");
    errno = e;
    return f;
}
extern "C" FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
extern "C" int fclose(FILE *f) {
    REAL("fclose", int (*)(FILE *));
    if (sut()) {
        int fd = fileno(f);
        point(59);
        if (file(fd)) vfd_forget(fd);
    }
    return real(f);
}

extern "C" int close(int fd) {
    if (!insim() || !vfd(fd)) return syscall(SYS_close, fd);
    if (sut()) point(58);
    return vfd_close(fd);
}
static ssize_t file_write(FileFd *f, const struct iovec *iov, int cnt) {
    std::string b; for (int i = 0; i < cnt; i++) b.append((const char *)iov[i].iov_base, iov[i].iov_len);
    size_t n = b.size();
    if (normal_below_root(f->path)) {
        struct stat st; syscall(SYS_fstat, f->fd, &st);
        int64_t pos = syscall(SYS_lseek, f->fd, 0, SEEK_CUR);
        bool ext = pos + (int64_t)n > st.st_size || (int64_t)st.st_blocks * 512 < st.st_size;
        OpRes r = fs_op(OP_WRITE, f->path, ext);
        if (r.err) { errno = r.err; return -1; }
        if (r.torn_kill && n > 1) {
            // a write that a kill cuts short ends on a page of the page cache
            int64_t first = 4096 - pos % 4096, pages = (int64_t)n > first ? ((int64_t)n - first + 4095) / 4096 : 0;
            int64_t c = choose(ST_F, pages + 1);
            size_t k = c ? first + (c - 1) * 4096 : 0;
            if (k) fault("kill_torn_write");
            syscall(SYS_write, f->fd, b.data(), k);
            node_kill(self->node, fmt("killed in write of %zu bytes after %zu to %s", n, k, f->path.c_str()).c_str());
        }
        if (r.shortw && n > 1) n = 1 + choose(ST_F, n - 1);
        ssize_t w = syscall(SYS_write, f->fd, b.data(), n);
        set_mtime_fd(f->fd);
        g_counts["fs_bytes_written"] += w > 0 ? w : 0;
        after_op(r, "write");
        return w;
    }
    return syscall(SYS_write, f->fd, b.data(), n);
}
extern "C" ssize_t write(int fd, const void *d, size_t n) {
    Vfd *v = insim() ? vfd(fd) : nullptr;
    if (!v) return syscall(SYS_write, fd, d, n);
    if (v->kind == FD_FILE) { struct iovec i = {(void *)d, n}; return file_write((FileFd *)v, &i, 1); }
    point(57);
    return vfd_write(v, d, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    Vfd *v = insim() ? vfd(fd) : nullptr;
    if (!v) return syscall(SYS_writev, fd, iov, cnt);
    if (v->kind == FD_FILE) return file_write((FileFd *)v, iov, cnt);
    std::string b; for (int i = 0; i < cnt; i++) b.append((const char *)iov[i].iov_base, iov[i].iov_len);
    point(57);
    return vfd_write(v, b.data(), b.size());
}
extern "C" ssize_t read(int fd, void *d, size_t n) {
    Vfd *v = insim() ? vfd(fd) : nullptr;
    if (!v) return syscall(SYS_read, fd, d, n);
    if (v->kind == FD_FILE) {
        FileFd *f = (FileFd *)v;
        if (sut() && normal_below_root(f->path)) { OpRes r = fs_op(OP_READ, f->path); if (r.err) { errno = r.err; return -1; } ssize_t k = syscall(SYS_read, fd, d, n); after_op(r, "read"); return k; }
        return syscall(SYS_read, fd, d, n);
    }
    point(56);
    return vfd_read(v, d, n);
}
extern "C" ssize_t pread(int fd, void *d, size_t n, off_t o) { if (sut() && file(fd)) { OpRes r = fs_op(OP_READ, file(fd)->path); if (r.err) { errno = r.err; return -1; } } return syscall(SYS_pread64, fd, d, n, o); }
extern "C" ssize_t pread64(int fd, void *d, size_t n, off_t o) { return pread(fd, d, n, o); }
extern "C" ssize_t pwrite(int fd, const void *d, size_t n, off_t o) {
    if (sut() && file(fd)) {
        FileFd *f = file(fd);
        int64_t old = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        syscall(SYS_lseek, fd, o, SEEK_SET);
        struct iovec i = {(void *)d, n};
        ssize_t r = file_write(f, &i, 1); int e = errno;
        syscall(SYS_lseek, fd, old, SEEK_SET); errno = e;
        return r;
    }
    return syscall(SYS_pwrite64, fd, d, n, o);
}
extern "C" ssize_t pwrite64(int fd, const void *d, size_t n, off_t o) { return pwrite(fd, d, n, o); }
extern "C" off_t lseek(int fd, off_t o, int w) { if (sut()) point(55); return syscall(SYS_lseek, fd, o, w); }
extern "C" off_t lseek64(int fd, off_t o, int w) { if (sut()) point(55); return syscall(SYS_lseek, fd, o, w); }
static int do_ftruncate(int fd, off_t l) {
    FileFd *f = sut() ? file(fd) : nullptr;
    if (!f) return syscall(SYS_ftruncate, fd, l);
    OpRes r = fs_op(OP_TRUNC, f->path);
    if (r.err) { errno = r.err; return -1; }
    int x = syscall(SYS_ftruncate, fd, l); set_mtime_fd(fd);
    after_op(r, "ftruncate");
    return x;
}
extern "C" int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
extern "C" int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
static int do_falloc(int fd, off_t o, off_t l) {   // returns an error number, like posix_fallocate
    FileFd *f = sut() ? file(fd) : nullptr;
    if (f) { OpRes r = fs_op(OP_ALLOC, f->path); if (r.err) return r.err; int x = syscall(SYS_fallocate, fd, 0, o, l) < 0 ? errno : 0; set_mtime_fd(fd); after_op(r, "fallocate"); return x; }
    return syscall(SYS_fallocate, fd, 0, o, l) < 0 ? errno : 0;
}
extern "C" int posix_fallocate(int fd, off_t o, off_t l) { return do_falloc(fd, o, l); }
extern "C" int posix_fallocate64(int fd, off_t o, off_t l) { return do_falloc(fd, o, l); }
extern "C" int fallocate(int fd, int, off_t o, off_t l) { int e = do_falloc(fd, o, l); if (e) { errno = e; return -1; } return 0; }
extern "C" int fsync(int) { if (sut()) point(54); return 0; }
extern "C" int fdatasync(int) { if (sut()) point(54); return 0; }

// ------------------------------------------------------------ names in directories
extern "C" int stat(const char *p, struct stat *st) {
    std::string path = resolve(p);
    if (sut()) { if (normal_below_root(path)) { OpRes r = fs_op(OP_STAT, path); if (r.err) { errno = r.err; return -1; } int x = syscall(SYS_stat, path.c_str(), st); if (!x) fix_stat(st); after_op(r, "stat"); return x; } }
    return syscall(SYS_stat, path.c_str(), st);
}
extern "C" int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
extern "C" int lstat(const char *p, struct stat *st) { std::string path = resolve(p); if (sut()) point(53); int x = syscall(SYS_lstat, path.c_str(), st); if (!x && sut()) fix_stat(st); return x; }
extern "C" int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
extern "C" int fstat(int fd, struct stat *st) { int x = syscall(SYS_fstat, fd, st); if (!x && sut()) fix_stat(st); return x; }
extern "C" int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
extern "C" int statx(int d, const char *p, int flags, unsigned mask, struct statx *sx) {
    if (!sut()) return syscall(SYS_statx, d, p, flags, mask, sx);
    std::string path;
    if (p[0] && p[0] != '/' && d != AT_FDCWD) { FileFd *b = file(d); path = b ? b->path + "/" + p : p; } else path = p[0] ? resolve(p) : "";
    OpRes r;
    bool in = normal_below_root(path);
    if (in) { r = fs_op(OP_STAT, path); if (r.err) { errno = r.err; return -1; } }
    int x = path.empty() ? syscall(SYS_statx, d, p, flags, mask, sx) : syscall(SYS_statx, AT_FDCWD, path.c_str(), flags, mask, sx);
    if (!x) { auto it = mtimes.find(sx->stx_ino); int64_t t = it == mtimes.end() ? wall_base_ns : it->second; sx->stx_mtime.tv_sec = t / 1000000000LL; sx->stx_mtime.tv_nsec = t % 1000000000LL; }
    int e = errno;
    if (in) after_op(r, "statx");
    errno = e;
    return x;
}
extern "C" int fstatat(int d, const char *p, struct stat *st, int fl) {
    std::string path = p;
    if (sut()) { if (p[0] != '/' && d != AT_FDCWD) { FileFd *b = file(d); if (b) path = b->path + "/" + p; } else path = resolve(p); point(53); }
    int x = path[0] == '/' ? syscall(SYS_newfstatat, AT_FDCWD, path.c_str(), st, fl) : syscall(SYS_newfstatat, d, p, st, fl);
    if (!x && sut()) fix_stat(st);
    return x;
}
extern "C" int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
extern "C" int statvfs(const char *p, struct statvfs *b) {
    std::string path = resolve(p);
    if (!sut()) { REAL("statvfs", int (*)(const char *, struct statvfs *)); return real(path.c_str(), b); }
    if (normal_below_root(path)) { OpRes r = fs_op(OP_STAT, path); if (r.err) { errno = r.err; return -1; } }
    memset(b, 0, sizeof *b);
    int64_t fr = fs_free_bytes[self->node] / 4096;
    b->f_bsize = b->f_frsize = 4096; b->f_blocks = 1 << 24; b->f_bfree = b->f_bavail = fr; b->f_files = b->f_ffree = b->f_favail = 1 << 20; b->f_namemax = 255;
    return 0;
}
extern "C" int statvfs64(const char *p, struct statvfs64 *b) { return statvfs(p, (struct statvfs *)b); }
extern "C" int mkdir(const char *p, mode_t m) {
    std::string path = resolve(p);
    if (!sut()) return syscall(SYS_mkdir, path.c_str(), m);
    if (denied(path)) { errno = EACCES; return -1; }
    OpRes r = fs_op(OP_MKDIR, path);
    if (r.err) { errno = r.err; return -1; }
    int x = syscall(SYS_mkdir, path.c_str(), m); int e = errno; after_op(r, "mkdir"); errno = e; return x;
}
static int do_unlink(const std::string &path, bool dir) {
    if (!sut()) return dir ? syscall(SYS_rmdir, path.c_str()) : syscall(SYS_unlink, path.c_str());
    if (denied(path)) { errno = EACCES; return -1; }
    OpRes r = fs_op(dir ? OP_RMDIR : OP_UNLINK, path);
    if (r.err) { errno = r.err; return -1; }
    int x = dir ? syscall(SYS_rmdir, path.c_str()) : syscall(SYS_unlink, path.c_str());
    int e = errno; if (!x) note("%s %s", dir ? "rmdir" : "unlink", path.c_str()); after_op(r, "unlink"); errno = e; return x;
}
extern "C" int unlink(const char *p) { return do_unlink(resolve(p), false); }
extern "C" int rmdir(const char *p) { return do_unlink(resolve(p), true); }
extern "C" int unlinkat(int d, const char *p, int fl) {
    if (!sut()) return syscall(SYS_unlinkat, d, p, fl);
    std::string path = resolve(p);
    if (p[0] != '/' && d != AT_FDCWD) { FileFd *b = file(d); if (!b) { errno = EBADF; return -1; } path = b->path + "/" + p; }
    return do_unlink(path, fl & AT_REMOVEDIR);
}
extern "C" int remove(const char *p) { std::string path = resolve(p); struct stat st; if (syscall(SYS_lstat, path.c_str(), &st) < 0) return -1; return do_unlink(path, S_ISDIR(st.st_mode)); }
extern "C" int rename(const char *a, const char *b) {
    std::string x = resolve(a), y = resolve(b);
    if (!sut()) return syscall(SYS_rename, x.c_str(), y.c_str());
    if (denied(x) || denied(y)) { errno = EACCES; return -1; }
    OpRes r = fs_op(OP_RENAME, y);
    if (r.err) { errno = r.err; return -1; }
    int z = syscall(SYS_rename, x.c_str(), y.c_str()); int e = errno; after_op(r, "rename"); errno = e; return z;
}
extern "C" int link(const char *a, const char *b) {
    std::string x = resolve(a), y = resolve(b);
    if (!sut()) return syscall(SYS_link, x.c_str(), y.c_str());
    if (denied(x) || denied(y)) { errno = EACCES; return -1; }
    OpRes r = fs_op(OP_CREATE, y);
    if (r.err) { errno = r.err; return -1; }
    int z = syscall(SYS_link, x.c_str(), y.c_str()); int e = errno; after_op(r, "link"); errno = e; return z;
}
extern "C" int linkat(int, const char *a, int, const char *b, int) { return link(a, b); }
extern "C" int renameat(int, const char *a, int, const char *b) { return rename(a, b); }
extern "C" int mkdirat(int, const char *p, mode_t m) { return mkdir(p, m); }
extern "C" int symlink(const char *, const char *) { errno = EPERM; return -1; }
extern "C" int chown(const char *p, uid_t, gid_t) { std::string path = resolve(p); struct stat st; if (sut()) { point(52); return syscall(SYS_stat, path.c_str(), &st); } return 0; }
extern "C" int chmod(const char *, mode_t) { return 0; }
extern "C" int fchmod(int, mode_t) { return 0; }
extern "C" int access(const char *p, int m) { std::string path = resolve(p); return syscall(SYS_access, path.c_str(), m); }
extern "C" int truncate(const char *p, off_t l) { std::string path = resolve(p); if (sut() && denied(path)) { errno = EACCES; return -1; } return syscall(SYS_truncate, path.c_str(), l); }
extern "C" int chdir(const char *p) {
    if (!sut()) return syscall(SYS_chdir, p);
    std::string path = resolve(p); struct stat st;
    if (syscall(SYS_stat, path.c_str(), &st) < 0) return -1;
    if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
    nodes[self->node].cwd = path; return 0;
}
extern "C" char *getcwd(char *b, size_t n) {
    if (!sut()) { long r = syscall(SYS_getcwd, b, n); return r < 0 ? nullptr : b; }
    std::string c = nodes[self->node].cwd;
    if (!c.compare(0, g_root.size(), g_root)) c = "/sim" + c.substr(g_root.size());
    if (!b) return strdup(c.c_str());
    if (c.size() + 1 > n) { errno = ERANGE; return nullptr; }
    strcpy(b, c.c_str()); return b;
}

// ------------------------------------------------------------ directory streams
struct Dir { int fd; std::vector<struct dirent> ents; size_t pos = 0; };
static DIR *mkdirstream(const std::string &path, int fd) {
    static auto ropen = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    static auto rread = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
    static auto rclose = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    DIR *d = ropen(path.c_str());
    if (!d) { int e = errno; if (fd >= 0) vfd_close(fd); errno = e; return nullptr; }
    Dir *r = new Dir(); r->fd = fd;
    while (struct dirent *e = rread(d)) r->ents.push_back(*e);
    rclose(d);
    std::sort(r->ents.begin(), r->ents.end(), [](const dirent &a, const dirent &b) { return strcmp(a.d_name, b.d_name) < 0; });
    if (fs_shuffle_readdir) for (size_t i = r->ents.size(); i > 1; i--) std::swap(r->ents[i - 1], r->ents[i - 1 - choose(ST_F, i)]);
    for (auto &e : r->ents) e.d_ino = 1;
    return (DIR *)r;
}
extern "C" DIR *opendir(const char *p) {
    std::string path = resolve(p);
    if (!sut()) { REAL("opendir", DIR * (*)(const char *)); return real(path.c_str()); }
    int fd = do_open(path.c_str(), O_RDONLY | O_DIRECTORY, 0);
    if (fd < 0) return nullptr;
    return mkdirstream(path, fd);
}
extern "C" DIR *fdopendir(int fd) {
    if (!sut()) { REAL("fdopendir", DIR * (*)(int)); return real(fd); }
    FileFd *f = file(fd);
    if (!f) { errno = EBADF; return nullptr; }
    return mkdirstream(f->path, fd);
}
extern "C" struct dirent *readdir(DIR *d) {
    if (!sut()) { REAL("readdir", struct dirent * (*)(DIR *)); return real(d); }
    point(51);
    Dir *x = (Dir *)d;
    return x->pos < x->ents.size() ? &x->ents[x->pos++] : nullptr;
}
extern "C" struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
extern "C" int closedir(DIR *d) {
    if (!sut()) { REAL("closedir", int (*)(DIR *)); return real(d); }
    Dir *x = (Dir *)d;
    if (x->fd >= 0) vfd_close(x->fd);
    delete x;
    point(51);
    return 0;
}
extern "C" int dirfd(DIR *d) { if (!sut()) { REAL("dirfd", int (*)(DIR *)); return real(d); } return ((Dir *)d)->fd; }

void fs_node_killed(int node) { for (int i = 0; i < 65536; i++) { Vfd *v = vfd(i); if (v && v->node == node && v->kind == FD_FILE) vfd_close(i); } }

// ------------------------------------------------------------ process environment
extern "C" int getrlimit(int r, struct rlimit *l) { if (sut()) { l->rlim_cur = 1024; l->rlim_max = 65536; return 0; } return syscall(SYS_getrlimit, r, l); }
extern "C" int setrlimit(int r, const struct rlimit *l) { if (sut()) return 0; return syscall(SYS_setrlimit, r, l); }
extern "C" pid_t getpid(void) { if (sut()) return nodes[self->node].pid; return syscall(SYS_getpid); }
extern "C" int kill(pid_t p, int s) {
    if (!sut()) return syscall(SYS_kill, p, s);
    for (Node &n : nodes) if (n.alive && n.pid == p) { if (s) node_kill(n.id, "killed by signal"); return 0; }
    errno = ESRCH; return -1;
}
extern "C" uid_t getuid(void) { if (sut()) return 0; return syscall(SYS_getuid); }
extern "C" uid_t geteuid(void) { if (sut()) return 0; return syscall(SYS_geteuid); }
extern "C" int seteuid(uid_t) { return 0; }
extern "C" int setuid(uid_t) { if (sut()) return 0; errno = EPERM; return -1; }
static unsigned g_rand = 12345;
extern "C" int rand(void) { g_rand = g_rand * 1103515245u + 12345u; return (g_rand >> 1) & 0x7fffffff; }
extern "C" void srand(unsigned) {}
extern "C" ssize_t getrandom(void *b, size_t n, unsigned) { memset(b, 7, n); return n; }
extern "C" long sysconf(int n) {
    static auto real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (sut() && n == _SC_NPROCESSORS_ONLN) return 4;
    return real(n);
}
int g_fork_mode = -1;     // what fork() answers: -1 not supported, 0 child, >0 parent
extern "C" pid_t fork(void) {
    if (!sut()) return syscall(SYS_clone, 17 /* SIGCHLD */, 0, 0, 0, 0);
    point(50);
    if (g_fork_mode < 0) { errno = EAGAIN; return -1; }
    return g_fork_mode;
}
extern "C" int dup2(int a, int b) { if (sut()) return b; return syscall(SYS_dup2, a, b); }

// ------------------------------------------------------------ harness side
static int64_t h_mtime() { return wall_ns(0); }
bool h_write_file(const std::string &path, const std::string &data) {
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
    if (fd < 0) return false;
    size_t off = 0; while (off < data.size()) { ssize_t w = syscall(SYS_write, fd, data.data() + off, data.size() - off); if (w <= 0) break; off += w; }
    struct stat st; syscall(SYS_fstat, fd, &st); mtimes[st.st_ino] = h_mtime();
    syscall(SYS_close, fd);
    return off == data.size();
}
void h_touch_mtime(const std::string &path, int64_t d) { struct stat st; if (!syscall(SYS_stat, path.c_str(), &st)) mtimes[st.st_ino] = h_mtime() + d; }
bool h_read_file(const std::string &path, std::string &data) {
    data.clear();
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return false;
    char b[65536]; ssize_t r;
    while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) data.append(b, r);
    syscall(SYS_close, fd);
    return true;
}
void h_mkdirs(const std::string &p) {
    for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') syscall(SYS_mkdir, p.substr(0, i).c_str(), 0777);
}
bool h_exists(const std::string &p) { struct stat st; return syscall(SYS_stat, p.c_str(), &st) == 0; }
static void walk(const std::string &base, const std::string &rel, std::vector<std::string> &files, std::vector<std::string> &dirs) {
    static auto ropen = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    static auto rread = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
    static auto rclose = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    DIR *d = ropen((base + "/" + rel).c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (struct dirent *e = rread(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    rclose(d);
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (syscall(SYS_lstat, (base + "/" + r).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { dirs.push_back(r); walk(base, r, files, dirs); } else files.push_back(r);
    }
}
std::vector<std::string> h_list_tree(const std::string &d) { std::vector<std::string> f, x; walk(d, "", f, x); return f; }
std::vector<std::string> h_list_dirs(const std::string &d) { std::vector<std::string> f, x; walk(d, "", f, x); return x; }
void h_unlink(const std::string &p) { if (normal_below_root(p)) syscall(SYS_unlink, p.c_str()); }
void h_copy_tree(const std::string &from, const std::string &to) {
    std::vector<std::string> f, d; walk(from, "", f, d);
    h_mkdirs(to);
    for (auto &x : d) h_mkdirs(to + "/" + x);
    for (auto &x : f) { std::string b; if (h_read_file(from + "/" + x, b)) h_write_file(to + "/" + x, b); }
}
void h_remove_tree(const std::string &p) {
    if (!normal_below_root(p)) return;
    std::vector<std::string> f, d; walk(p, "", f, d);
    for (auto &x : f) syscall(SYS_unlink, (p + "/" + x).c_str());
    for (size_t i = d.size(); i-- > 0;) syscall(SYS_rmdir, (p + "/" + d[i]).c_str());
    syscall(SYS_rmdir, p.c_str());
}
}
