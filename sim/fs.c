/* In-memory disk under PS_ROOT with a volatile and a durable image. */
#include "core.h"
#include <dirent.h>
#include <sys/file.h>
#include <sys/statvfs.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <utime.h>

#define BS 4096
#define SECT 512
#define FDBASE 100000
#define NFD 2048
#define MAXJ 65536

struct inode;
struct blk { uint8_t *cur, *dur; uint8_t dirty; };
struct dent { char name[120]; struct inode *ino; struct dent *next; };
struct inode {
    uint32_t no; int dir; int nlink; uint64_t size, dsize; uint32_t cap; struct blk *b;
    struct dent *kids; struct inode *parent; int meta_dirty; uint64_t mtime; uint32_t mode; int lostsync;
};
enum { J_LINK, J_UNLINK, J_RENAME };
struct jop { int type; struct inode *d1, *d2, *ino, *old; char n1[120], n2[120]; };
struct fsarena {
    uint64_t brk; uint8_t *freeblk; uint32_t next_ino; uint64_t used_blocks, cap_blocks;
    struct inode *root; uint32_t nj; struct jop j[MAXJ];
};
static struct fsarena *A;

static void *balloc(size_t n) {
    n = (n + 15) & ~15ULL;
    if (A->brk + n > PS_BASE + PS_SIZE) ps_fail(EX_SIMERR, "simulated disk arena full");
    void *p = (void *)A->brk; A->brk += n; return p;
}
static uint8_t *blk_alloc(void) {
    uint8_t *p = A->freeblk;
    if (p) { memcpy(&A->freeblk, p, 8); }
    else { A->brk = (A->brk + BS - 1) & ~(uint64_t)(BS - 1); p = balloc(BS); }
    memset(p, 0, BS); A->used_blocks++; return p;
}
static void blk_free(uint8_t *p) { if (p) { memcpy(p, &A->freeblk, 8); A->freeblk = p; A->used_blocks--; } }
static struct inode *inode_new(int dir) {
    struct inode *i = balloc(sizeof *i); memset(i, 0, sizeof *i);
    i->no = ++A->next_ino; i->dir = dir; i->mode = dir ? 0755 : 0644; i->meta_dirty = 1; return i;
}
static struct blk *blk_at(struct inode *i, uint64_t n) {
    if (n >= i->cap) {
        uint32_t nc = i->cap ? i->cap * 2 : 8; while (nc <= n) nc *= 2;
        struct blk *nb = balloc(nc * sizeof *nb); memset(nb, 0, nc * sizeof *nb);
        if (i->b) memcpy(nb, i->b, i->cap * sizeof *nb);
        i->b = nb; i->cap = nc;
    }
    return &i->b[n];
}
static void blk_dirty(struct blk *b) {       /* before modifying: keep the durable image */
    if (!b->dirty) { b->dirty = 1; b->dur = b->cur; b->cur = blk_alloc(); if (b->dur) memcpy(b->cur, b->dur, BS); }
    else if (!b->cur) b->cur = blk_alloc();
}
static void ino_write(struct inode *i, uint64_t off, const uint8_t *p, size_t n) {
    if (off + n > i->size) { i->size = off + n; i->meta_dirty = 1; }
    while (n) {
        struct blk *b = blk_at(i, off / BS); size_t o = off % BS, m = BS - o < n ? BS - o : n;
        blk_dirty(b); memcpy(b->cur + o, p, m); p += m; off += m; n -= m;
    }
    i->mtime = C->now_ns;
}
static size_t ino_read(struct inode *i, uint64_t off, uint8_t *p, size_t n) {
    if (off >= i->size) return 0;
    if (n > i->size - off) n = i->size - off;
    size_t t = 0;
    while (t < n) {
        uint64_t bn = (off + t) / BS; size_t o = (off + t) % BS, m = BS - o < n - t ? BS - o : n - t;
        if (bn < i->cap && i->b[bn].cur) memcpy(p + t, i->b[bn].cur + o, m); else memset(p + t, 0, m);
        t += m;
    }
    return n;
}
static void ino_trunc(struct inode *i, uint64_t size) {
    if (size < i->size) {
        uint64_t first = (size + BS - 1) / BS;
        for (uint64_t n = first; n < i->cap; n++) { struct blk *b = &i->b[n]; if (!b->cur && !b->dirty) continue;
            if (!b->dirty) { b->dirty = 1; b->dur = b->cur; b->cur = 0; } else { blk_free(b->cur); b->cur = 0; } }
        if (size % BS && size / BS < i->cap && i->b[size / BS].cur) { struct blk *b = &i->b[size / BS]; blk_dirty(b); memset(b->cur + size % BS, 0, BS - size % BS); }
    }
    i->size = size; i->meta_dirty = 1; i->mtime = C->now_ns;
}
static void ino_sync(struct inode *i) {
    for (uint32_t n = 0; n < i->cap; n++) { struct blk *b = &i->b[n]; if (b->dirty) { blk_free(b->dur); b->dur = 0; b->dirty = 0; } }
    i->dsize = i->size;
}
static void ino_free(struct inode *i) { for (uint32_t n = 0; n < i->cap; n++) { blk_free(i->b[n].cur); blk_free(i->b[n].dur); } i->cap = 0; i->b = 0; }
static void journal_commit(void) {
    for (uint32_t k = 0; k < A->nj; k++) { struct jop *j = &A->j[k]; if (j->ino) j->ino->meta_dirty = 0; if (j->old && j->old->nlink == 0 && j->old->cap && 0) ino_free(j->old); }
    A->nj = 0;
}
static struct jop *jadd(int type) { if (A->nj >= MAXJ) journal_commit(); struct jop *j = &A->j[A->nj++]; memset(j, 0, sizeof *j); j->type = type; return j; }

static struct dent *dfind(struct inode *d, const char *n) { for (struct dent *e = d->kids; e; e = e->next) if (!strcmp(e->name, n)) return e; return 0; }
static void dadd(struct inode *d, const char *n, struct inode *i) {
    struct dent *e = balloc(sizeof *e); memset(e, 0, sizeof *e); snprintf(e->name, sizeof e->name, "%s", n); e->ino = i;
    struct dent **pp = &d->kids; while (*pp) pp = &(*pp)->next; *pp = e;
    i->nlink++; if (i->dir) i->parent = d;
}
static struct inode *ddel(struct inode *d, const char *n) {
    for (struct dent **pp = &d->kids; *pp; pp = &(*pp)->next) if (!strcmp((*pp)->name, n)) { struct inode *i = (*pp)->ino; *pp = (*pp)->next; i->nlink--; return i; }
    return 0;
}
void fs_init(void) {
    A = (struct fsarena *)(((uint64_t)PS_BASE + sizeof(struct ps_ctl) + BS) & ~(uint64_t)(BS - 1));
    A->brk = (uint64_t)A + sizeof *A; A->cap_blocks = 1u << 20;
    A->root = inode_new(1); A->root->nlink = 1; A->root->parent = A->root;
}
void fs_attach(void) { A = (struct fsarena *)(((uint64_t)PS_BASE + sizeof(struct ps_ctl) + BS) & ~(uint64_t)(BS - 1)); }
int fs_is(const char *p) { return p && !strncmp(p, PS_ROOT, sizeof PS_ROOT - 1) && (p[sizeof PS_ROOT - 1] == '/' || !p[sizeof PS_ROOT - 1]); }

/* resolves to inode; *dir and last name for creation */
static struct inode *walk(const char *path, struct inode **dir, char *last) {
    const char *p = path + sizeof PS_ROOT - 1;
    struct inode *i = A->root; if (dir) *dir = 0;
    if (last) last[0] = 0;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char *e = strchrnul(p, '/'); char n[120]; size_t l = (size_t)(e - p);
        if (l >= sizeof n) { errno = ENAMETOOLONG; if (dir) *dir = 0; return 0; }
        memcpy(n, p, l); n[l] = 0; p = e;
        if (!strcmp(n, ".")) continue;
        if (!strcmp(n, "..")) { i = i->parent; continue; }
        if (!i) { errno = ENOENT; if (dir) *dir = 0; return 0; }
        if (!i->dir) { errno = ENOTDIR; if (dir) *dir = 0; return 0; }
        if (dir) *dir = i;
        if (last) strcpy(last, n);
        struct dent *de = dfind(i, n); i = de ? de->ino : 0;
    }
    if (!i) errno = ENOENT;
    return i;
}

/* ---- file descriptors (die with the process) ---- */
struct fd { struct inode *i; uint64_t off; int flags; int used; int islog; char path[160]; };
static struct fd F[NFD];
static struct fd *fdp(int fd) { int n = fd - FDBASE; return n >= 0 && n < NFD && F[n].used ? &F[n] : 0; }
static int fd_new(struct inode *i, int flags, const char *path) {
    for (int n = 0; n < NFD; n++) if (!F[n].used) { F[n].used = 1; F[n].i = i; F[n].off = 0; F[n].flags = flags; snprintf(F[n].path, sizeof F[n].path, "%s", path);
        const char *b = strrchr(path, '/'); b = b ? b + 1 : path; F[n].islog = !strncmp(b, "LOG", 3) && strcmp(b, "LOCK"); return n + FDBASE; }
    errno = EMFILE; return -1;
}
static int full(uint64_t bytes) { return A->used_blocks + bytes / BS + 1 > A->cap_blocks; }
#define FAULT_ERR(f) do { if ((f).kind == FK_EIO) { errno = EIO; return -1; } if ((f).kind == FK_ENOSPC) { errno = ENOSPC; return -1; } \
    if ((f).kind == FK_EMFILE) { errno = EMFILE; return -1; } } while (0)

static int sim_open(const char *path, int flags, int mode) {
    (void)mode;
    struct inode *d; char last[120]; struct inode *i = walk(path, &d, last);
    const char *b = strrchr(path, '/'); b = b ? b + 1 : path; int islog = !strncmp(b, "LOG", 3) && strcmp(b, "LOCK");
    struct iof f = {0, 0, 0};
    if (!islog) { f = ps_io((!i && (flags & O_CREAT)) ? OP_CREATE : OP_OPEN, path, (uint64_t)flags); FAULT_ERR(f);
        i = walk(path, &d, last); }
    if (i && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!i) {
        if (!(flags & O_CREAT) || !d || !last[0]) { errno = ENOENT; return -1; }
        i = inode_new(0); dadd(d, last, i); i->mtime = C->now_ns;
        struct jop *j = jadd(J_LINK); j->d1 = d; j->ino = i; strcpy(j->n1, last);
    } else if (i->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if ((flags & O_TRUNC) && !i->dir && i->size) ino_trunc(i, 0);
    int fd = fd_new(i, flags, path);
    ps_io_after(f);
    return fd;
}
static ssize_t do_read(struct fd *x, void *buf, size_t n, uint64_t off) {
    if (x->i->dir) { errno = EISDIR; return -1; }
    struct iof f = {0, 0, 0};
    if (!x->islog) {
        f = ps_io(OP_READ, x->path, off * 31 + n); FAULT_ERR(f);
        C->reads++; C->now_ns += 2000;
        if (f.kind == FK_EINTR) { errno = EINTR; return -1; }
        if (f.kind == FK_SHORT && n > 1) n = 1 + f.h % (n - 1);
    }
    size_t r = ino_read(x->i, off, buf, n);
    if (f.kind == FK_BITFLIP && r) ((uint8_t *)buf)[f.h % r] ^= (uint8_t)(1 << (f.h >> 32) % 8);
    return (ssize_t)r;
}
static ssize_t do_write(struct fd *x, const void *buf, size_t n, uint64_t off) {
    struct iof f = {0, 0, 0};
    if (ps_iotrace()) { if (x->islog) ps_say("%.*s", (int)(n < 500 ? n : 500), (const char *)buf); else ps_say("   write %zu at %lu\n", n, (unsigned long)off); }
    if (!x->islog) {
        uint64_t h = 1469598103934665603ULL; for (size_t k = 0; k < n; k++) h = (h ^ ((const uint8_t *)buf)[k]) * 1099511628211ULL;
        f = ps_io(OP_WRITE, x->path, h ^ off); FAULT_ERR(f);
        C->writes++; C->bytes_written += n; C->now_ns += 3000;
        if (f.kind == FK_EINTR) { errno = EINTR; return -1; }
        if (f.kind == FK_SHORT && n > 1) n = 1 + f.h % (n - 1);
        if (full(n)) { errno = ENOSPC; return -1; }
        if (f.kind == FK_CRASH_TORN) { ino_write(x->i, off, buf, n ? f.h % n : 0); ps_crash_now(); }
        if (f.kind == FK_LOSTWRITE) return (ssize_t)n;
    }
    ino_write(x->i, off, buf, n);
    ps_io_after(f);
    return (ssize_t)n;
}
static int sim_open_va(const char *path, int flags, va_list ap) { int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; return sim_open(path, flags, mode); }

/* pseudo files of the host that would make a run depend on the machine */
static int hostile(const char *p) { return !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5); }
static char urandom_path[] = "/dev/urandom";

#define OPENBODY(name) \
    REAL(int, name, const char *, int, ...); va_list ap; va_start(ap, flags); \
    if (ON()) { if (fs_is(path)) { int r = sim_open_va(path, flags, ap); va_end(ap); return r; } \
        if (hostile(path)) { va_end(ap); errno = ENOENT; return -1; } \
        if (!strcmp(path, urandom_path) || !strcmp(path, "/dev/random")) { va_end(ap); return fd_new(0, O_RDONLY, "/dev/urandom"); } } \
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return r_##name(path, flags, mode)
EXPORT int open(const char *path, int flags, ...) { OPENBODY(open); }
EXPORT int open64(const char *path, int flags, ...) { OPENBODY(open64); }
EXPORT int openat(int dfd, const char *path, int flags, ...) {
    REAL(int, openat, int, const char *, int, ...); va_list ap; va_start(ap, flags);
    if (ON() && fs_is(path)) { int r = sim_open_va(path, flags, ap); va_end(ap); return r; }
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return r_openat(dfd, path, flags, mode);
}
int net_close(int fd);
EXPORT int close(int fd) {
    REAL(int, close, int);
    struct fd *x = ON() ? fdp(fd) : 0;
    if (x) { x->used = 0; return 0; }
    if (ON() && net_isfd(fd)) return net_close(fd);
    return r_close(fd);
}
ssize_t net_read(int fd, void *b, size_t n); ssize_t net_write(int fd, const void *b, size_t n);
static ssize_t special_read(struct fd *x, void *b, size_t n) { (void)x; uint8_t *p = b; for (size_t k = 0; k < n; k++) p[k] = (uint8_t)ps_entropy(); return (ssize_t)n; }
EXPORT ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    struct fd *x = ON() ? fdp(fd) : 0;
    if (!x) { if (ON() && net_isfd(fd)) return net_read(fd, b, n); return r_read(fd, b, n); }
    if (!x->i) return special_read(x, b, n);
    ssize_t r = do_read(x, b, n, x->off); if (r > 0) x->off += (uint64_t)r; return r;
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t off) {
    REAL(ssize_t, pread, int, void *, size_t, off_t);
    struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_pread(fd, b, n, off);
    return do_read(x, b, n, (uint64_t)off);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t off) { return pread(fd, b, n, off); }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    struct fd *x = ON() ? fdp(fd) : 0;
    if (!x) { if (ON() && net_isfd(fd)) return net_write(fd, b, n); return r_write(fd, b, n); }
    if ((x->flags & O_APPEND)) x->off = x->i->size;
    ssize_t r = do_write(x, b, n, x->off); if (r > 0) x->off += (uint64_t)r; return r;
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t off) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_pwrite(fd, b, n, off);
    return do_write(x, b, n, (uint64_t)off);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) { return pwrite(fd, b, n, off); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!ON() || (!fdp(fd) && !net_isfd(fd))) return r_writev(fd, v, c);
    ssize_t t = 0; for (int k = 0; k < c; k++) { if (!v[k].iov_len) continue; ssize_t r = write(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[k].iov_len) break; }
    return t;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, readv, int, const struct iovec *, int);
    if (!ON() || (!fdp(fd) && !net_isfd(fd))) return r_readv(fd, v, c);
    ssize_t t = 0; for (int k = 0; k < c; k++) { if (!v[k].iov_len) continue; ssize_t r = read(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[k].iov_len) break; }
    return t;
}
EXPORT off_t lseek(int fd, off_t off, int wh) {
    REAL(off_t, lseek, int, off_t, int);
    struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_lseek(fd, off, wh);
    int64_t nb = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)x->off + off : (int64_t)x->i->size + off;
    if (nb < 0) { errno = EINVAL; return -1; }
    x->off = (uint64_t)nb; return nb;
}
EXPORT off_t lseek64(int fd, off_t off, int wh) { return lseek(fd, off, wh); }
static int do_fsync(struct fd *x) {
    struct iof f = ps_io(OP_FSYNC, x->path, x->i->size);
    C->fsyncs++;
    uint64_t lat = (C->io_lat_us ? f.h % (2ULL * C->io_lat_us) : 10) * 1000ULL + 20000;
    ps_block((uintptr_t)&self->k, C->now_ns + lat);
    FAULT_ERR(f);
    if (f.kind == FK_EINTR) { errno = EINTR; return -1; }
    if (f.kind == FK_FSYNCDROP) { x->i->lostsync++; errno = EIO; return -1; } /* the data stays volatile */
    if (x->i->dir) journal_commit();
    else { ino_sync(x->i); if (x->i->meta_dirty) journal_commit(); x->i->meta_dirty = 0; }
    ps_io_after(f);
    return 0;
}
EXPORT int fsync(int fd) { REAL(int, fsync, int); struct fd *x = ON() ? fdp(fd) : 0; return x ? do_fsync(x) : r_fsync(fd); }
EXPORT int fdatasync(int fd) { REAL(int, fdatasync, int); struct fd *x = ON() ? fdp(fd) : 0; return x ? do_fsync(x) : r_fdatasync(fd); }
EXPORT int sync_file_range(int fd, off64_t o, off64_t n, unsigned fl) { REAL(int, sync_file_range, int, off64_t, off64_t, unsigned); return ON() && fdp(fd) ? 0 : r_sync_file_range(fd, o, n, fl); }
EXPORT int posix_fadvise(int fd, off_t o, off_t n, int a) { REAL(int, posix_fadvise, int, off_t, off_t, int); return ON() && fdp(fd) ? 0 : r_posix_fadvise(fd, o, n, a); }
EXPORT ssize_t readahead(int fd, off64_t o, size_t n) { REAL(ssize_t, readahead, int, off64_t, size_t); return ON() && fdp(fd) ? 0 : r_readahead(fd, o, n); }
EXPORT int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, int, off_t);
    struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_ftruncate(fd, n);
    struct iof f = ps_io(OP_TRUNC, x->path, (uint64_t)n); FAULT_ERR(f); ino_trunc(x->i, (uint64_t)n); ps_io_after(f); return 0;
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int truncate(const char *p, off_t n) {
    REAL(int, truncate, const char *, off_t);
    if (!ON() || !fs_is(p)) return r_truncate(p, n);
    struct inode *i = walk(p, 0, 0); if (!i) return -1;
    struct iof f = ps_io(OP_TRUNC, p, (uint64_t)n); FAULT_ERR(f); ino_trunc(i, (uint64_t)n); ps_io_after(f); return 0;
}
EXPORT int fallocate(int fd, int mode, off_t o, off_t n) {
    REAL(int, fallocate, int, int, off_t, off_t);
    struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_fallocate(fd, mode, o, n);
    struct iof f = ps_io(OP_FALLOC, x->path, (uint64_t)n); FAULT_ERR(f);
    if (full((uint64_t)n)) { errno = ENOSPC; return -1; }
    if (!(mode & 1) && (uint64_t)(o + n) > x->i->size) ino_trunc(x->i, (uint64_t)(o + n));
    return 0;
}
EXPORT int posix_fallocate(int fd, off_t o, off_t n) { REAL(int, posix_fallocate, int, off_t, off_t); if (!ON() || !fdp(fd)) return r_posix_fallocate(fd, o, n); return fallocate(fd, 0, o, n) ? errno : 0; }
static void fillstat(struct inode *i, struct stat *st) {
    memset(st, 0, sizeof *st); st->st_mode = (i->dir ? S_IFDIR : S_IFREG) | i->mode; st->st_ino = i->no; st->st_dev = 77; st->st_nlink = (nlink_t)(i->nlink ? i->nlink : 1);
    st->st_size = (off_t)i->size; st->st_blksize = BS; st->st_blocks = (blkcnt_t)((i->size + 511) / 512);
    st->st_mtim.tv_sec = (time_t)((C->wall_base_ns + i->mtime) / 1000000000ULL);
}
static int dostat(const char *p, struct stat *st) {
    struct iof f = ps_io(OP_STAT, p, 0); FAULT_ERR(f);
    struct inode *i = walk(p, 0, 0); if (!i) return -1; fillstat(i, st); return 0;
}
static char special_dummy;
#define STATF(name) EXPORT int name(const char *p, struct stat *st) { REAL(int, name, const char *, struct stat *); if (ON() && fs_is(p)) return dostat(p, st); return r_##name(p, st); }
STATF(stat) STATF(lstat)
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st) {
    REAL(int, fstat, int, struct stat *); struct fd *x = ON() ? fdp(fd) : 0; if (!x) return r_fstat(fd, st);
    if (!x->i) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; special_dummy++; return 0; }
    fillstat(x->i, st); return 0;
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { REAL(int, fstatat, int, const char *, struct stat *, int); if (ON() && fs_is(p)) return dostat(p, st); return r_fstatat(d, p, st, fl); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned m, struct statx *sx) {
    REAL(int, statx, int, const char *, int, unsigned, struct statx *);
    __asm__("" : "+r"(p));
    if (ON() && p && (fs_is(p) || (!*p && fdp(d)))) {
        struct stat st; int r = *p ? dostat(p, &st) : fstat(d, &st); if (r) return -1;
        memset(sx, 0, sizeof *sx); sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (unsigned short)st.st_mode; sx->stx_ino = st.st_ino; sx->stx_nlink = (unsigned)st.st_nlink;
        sx->stx_size = (unsigned long long)st.st_size; sx->stx_blksize = BS; sx->stx_blocks = (unsigned long long)st.st_blocks; sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_dev_minor = 77;
        return 0;
    }
    return r_statx(d, p, fl, m, sx);
}
EXPORT int access(const char *p, int m) {
    REAL(int, access, const char *, int); if (!ON() || !fs_is(p)) return r_access(p, m);
    struct iof f = ps_io(OP_STAT, p, 1); FAULT_ERR(f);
    return walk(p, 0, 0) ? 0 : -1;
}
EXPORT int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!ON() || !fs_is(a)) return r_rename(a, b);
    const char *bn = strrchr(a, '/'); int islog = bn && !strncmp(bn + 1, "LOG", 3);
    struct iof f = {0, 0, 0};
    if (!islog) { f = ps_io(OP_RENAME, b, 0); FAULT_ERR(f); }
    struct inode *d1, *d2; char n1[120], n2[120]; struct inode *i = walk(a, &d1, n1); if (!i) return -1;
    struct inode *o = walk(b, &d2, n2); if (!d2) { errno = ENOENT; return -1; }
    if (o == i) return 0;
    if (o) ddel(d2, n2);
    ddel(d1, n1); dadd(d2, n2, i);
    struct jop *j = jadd(J_RENAME); j->d1 = d1; j->d2 = d2; j->ino = i; j->old = o; strcpy(j->n1, n1); strcpy(j->n2, n2);
    i->meta_dirty = 1;
    ps_io_after(f);
    return 0;
}
EXPORT int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *); if (!ON() || !fs_is(a)) return r_link(a, b);
    struct iof f = ps_io(OP_LINK, b, 0); FAULT_ERR(f);
    struct inode *d2; char n2[120]; struct inode *i = walk(a, 0, 0); if (!i) return -1;
    if (walk(b, &d2, n2)) { errno = EEXIST; return -1; }
    if (!d2) { errno = ENOENT; return -1; }
    dadd(d2, n2, i); struct jop *j = jadd(J_LINK); j->d1 = d2; j->ino = i; strcpy(j->n1, n2); ps_io_after(f); return 0;
}
static int do_unlink(const char *p, int dir) {
    struct iof f = ps_io(OP_UNLINK, p, 0); FAULT_ERR(f);
    struct inode *d; char n[120]; struct inode *i = walk(p, &d, n); if (!i) return -1;
    if (dir && !i->dir) { errno = ENOTDIR; return -1; }
    if (!dir && i->dir) { errno = EISDIR; return -1; }
    if (dir && i->kids) { errno = ENOTEMPTY; return -1; }
    ddel(d, n); struct jop *j = jadd(J_UNLINK); j->d1 = d; j->ino = i; strcpy(j->n1, n); ps_io_after(f); return 0;
}
EXPORT int unlink(const char *p) { REAL(int, unlink, const char *); return ON() && fs_is(p) ? do_unlink(p, 0) : r_unlink(p); }
EXPORT int rmdir(const char *p) { REAL(int, rmdir, const char *); return ON() && fs_is(p) ? do_unlink(p, 1) : r_rmdir(p); }
EXPORT int remove(const char *p) { REAL(int, remove, const char *); if (ON() && fs_is(p)) { struct inode *i = walk(p, 0, 0); if (!i) return -1; return do_unlink(p, i->dir); } return r_remove(p); }
EXPORT int unlinkat(int d, const char *p, int fl) { REAL(int, unlinkat, int, const char *, int); return ON() && fs_is(p) ? do_unlink(p, fl & AT_REMOVEDIR) : r_unlinkat(d, p, fl); }
EXPORT int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t); if (!ON() || !fs_is(p)) return r_mkdir(p, m);
    struct iof f = ps_io(OP_MKDIR, p, 0); FAULT_ERR(f);
    struct inode *d; char n[120]; if (walk(p, &d, n)) { errno = EEXIST; return -1; }
    if (!d) { errno = ENOENT; return -1; }
    struct inode *i = inode_new(1); dadd(d, n, i); struct jop *j = jadd(J_LINK); j->d1 = d; j->ino = i; strcpy(j->n1, n); ps_io_after(f); return 0;
}
EXPORT int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); return ON() && fs_is(p) ? 0 : r_chmod(p, m); }
EXPORT int utime(const char *p, const struct utimbuf *t) { REAL(int, utime, const char *, const struct utimbuf *); return ON() && fs_is(p) ? 0 : r_utime(p, t); }
EXPORT char *realpath(const char *p, char *out) { REAL(char *, realpath, const char *, char *); if (ON() && fs_is(p)) { if (!walk(p, 0, 0)) return 0; if (!out) out = malloc(4096); strcpy(out, p); return out; } return r_realpath(p, out); }
EXPORT char *__realpath_chk(const char *p, char *out, size_t n) { (void)n; return realpath(p, out); }
EXPORT int statvfs(const char *p, struct statvfs *s) {
    REAL(int, statvfs, const char *, struct statvfs *); if (!ON() || !fs_is(p)) return r_statvfs(p, s);
    memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = BS; s->f_blocks = A->cap_blocks; s->f_bfree = s->f_bavail = A->cap_blocks > A->used_blocks ? A->cap_blocks - A->used_blocks : 0; return 0;
}
EXPORT int fstatfs(int fd, struct statfs *s) { REAL(int, fstatfs, int, struct statfs *); if (!ON() || !fdp(fd)) return r_fstatfs(fd, s); memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = BS; return 0; }
int net_ioctl(int fd, unsigned long rq, void *a);
EXPORT int ioctl(int fd, unsigned long rq, ...) {
    REAL(int, ioctl, int, unsigned long, ...); va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
    if (ON() && fdp(fd)) { errno = ENOTTY; return -1; }
    if (ON() && net_isfd(fd)) return net_ioctl(fd, rq, a);
    return r_ioctl(fd, rq, a);
}
int net_fcntl(int fd, int cmd, long arg);
static int do_fcntl(int fd, int cmd, void *a, int (*r)(int, int, ...)) {
    struct fd *x = ON() ? fdp(fd) : 0;
    if (!x) { if (ON() && net_isfd(fd)) return net_fcntl(fd, cmd, (long)a); return r(fd, cmd, a); }
    switch (cmd) {
    case F_SETLK: case F_SETLKW: case F_GETFD: case F_SETFD: case F_SETFL: return 0;
    case F_GETFL: return x->flags;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = fd_new(x->i, x->flags, x->path); return n; }
    case 1036: case 1035: case 1038: case 1037: return 0;  /* read/write life time hints */
    default: errno = EINVAL; return -1;
    }
}
EXPORT int fcntl(int fd, int cmd, ...) { REAL(int, fcntl, int, int, ...); va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a, r_fcntl); }
EXPORT int fcntl64(int fd, int cmd, ...) { REAL(int, fcntl64, int, int, ...); va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a, r_fcntl64); }
EXPORT int flock(int fd, int op) { REAL(int, flock, int, int); return ON() && fdp(fd) ? 0 : r_flock(fd, op); }

/* ---- directories ---- */
struct sdir { uint64_t magic; int n, pos; struct { char name[120]; uint32_t ino; int dir; } e[]; };
#define SDMAGIC 0x51d1e5d1e5ULL
static struct dirent de_buf;
EXPORT DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *); if (!ON() || !fs_is(p)) return r_opendir(p);
    struct iof f = ps_io(OP_OPENDIR, p, 0); if (f.kind == FK_EIO) { errno = EIO; return 0; } if (f.kind == FK_EMFILE) { errno = EMFILE; return 0; }
    struct inode *i = walk(p, 0, 0); if (!i) return 0; if (!i->dir) { errno = ENOTDIR; return 0; }
    int n = 2; for (struct dent *e = i->kids; e; e = e->next) n++;
    struct sdir *s = malloc(sizeof *s + (size_t)n * sizeof s->e[0]); s->magic = SDMAGIC; s->n = n; s->pos = 0;
    strcpy(s->e[0].name, "."); s->e[0].ino = i->no; s->e[0].dir = 1; strcpy(s->e[1].name, ".."); s->e[1].ino = i->parent->no; s->e[1].dir = 1;
    int k = 2; for (struct dent *e = i->kids; e; e = e->next, k++) { strcpy(s->e[k].name, e->name); s->e[k].ino = e->ino->no; s->e[k].dir = e->ino->dir; }
    return (DIR *)s;
}
static int is_sdir(DIR *d) { return ON() && ((struct sdir *)d)->magic == SDMAGIC; }
EXPORT struct dirent *readdir(DIR *d) {
    REAL(struct dirent *, readdir, DIR *); if (!is_sdir(d)) return r_readdir(d);
    struct sdir *s = (struct sdir *)d; if (s->pos >= s->n) return 0;
    memset(&de_buf, 0, sizeof de_buf); strcpy(de_buf.d_name, s->e[s->pos].name); de_buf.d_ino = s->e[s->pos].ino; de_buf.d_type = s->e[s->pos].dir ? DT_DIR : DT_REG; de_buf.d_reclen = sizeof de_buf; s->pos++;
    return &de_buf;
}
EXPORT struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
EXPORT int closedir(DIR *d) { REAL(int, closedir, DIR *); if (!is_sdir(d)) return r_closedir(d); free(d); return 0; }

/* ---- stdio streams over simulated files ---- */
struct ck { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do r = read(((struct ck *)c)->fd, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { return write(((struct ck *)c)->fd, b, n); }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = lseek(((struct ck *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = close(((struct ck *)c)->fd); free(c); return r; }
EXPORT FILE *fdopen(int fd, const char *mode) {
    REAL(FILE *, fdopen, int, const char *); if (!ON() || !fdp(fd)) return r_fdopen(fd, mode);
    struct ck *c = malloc(sizeof *c); c->fd = fd;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(c, mode, io);
}
static FILE *sim_fopen(const char *p, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = sim_open(p, fl, 0644); if (fd < 0) return 0;
    return fdopen(fd, mode);
}
#define FOPENBODY(name) REAL(FILE *, name, const char *, const char *); \
    if (ON()) { if (fs_is(p)) return sim_fopen(p, m); if (hostile(p)) { \
        if (strstr(p, "random/uuid")) { static char u[64]; uint64_t a = ps_entropy(), b = ps_entropy(); snprintf(u, sizeof u, "%08x-%04x-4%03x-a%03x-%012lx\n", (unsigned)a, (unsigned)(a >> 32) & 0xffff, (unsigned)(a >> 48) & 0xfff, (unsigned)b & 0xfff, (unsigned long)(b >> 16)); return fmemopen(u, strlen(u), "r"); } \
        errno = ENOENT; return 0; } } \
    return r_##name(p, m)
EXPORT FILE *fopen(const char *p, const char *m) { FOPENBODY(fopen); }
EXPORT FILE *fopen64(const char *p, const char *m) { FOPENBODY(fopen64); }

static int dump_walk(struct inode *d, char *buf, size_t cap, int p, const char *pre);
/* ---- crash semantics, applied by the driver between incarnations ---- */
static void sync_all_walk(struct inode *d, int depth) { for (struct dent *e = d->kids; e; e = e->next) { if (e->ino->dir) { if (depth < 8) sync_all_walk(e->ino, depth + 1); } else ino_sync(e->ino); } }
static void power_walk(struct inode *d, uint64_t seed, int mode, int depth) {
    for (struct dent *e = d->kids; e; e = e->next) {
        struct inode *i = e->ino;
        if (i->dir) { if (depth < 8) power_walk(i, seed, mode, depth + 1); continue; }
        int any = 0; for (uint32_t n = 0; n < i->cap; n++) any |= i->b[n].dirty;
        if (!any && i->size == i->dsize) continue;
        uint64_t h = ps_hash3(seed, i->no, 1);
        uint64_t nsize = i->dsize;
        /* size after the loss: nothing new, everything, or somewhere between (possibly inside a block) */
        int pick = mode == 1 ? 0 : (int)(h % 4);
        if (i->size > i->dsize) { if (pick == 1) nsize = i->size; else if (pick >= 2) nsize = i->dsize + (h >> 8) % (i->size - i->dsize + 1); }
        else nsize = pick & 1 ? i->size : i->dsize;
        for (uint32_t n = 0; n < i->cap; n++) {
            struct blk *b = &i->b[n]; if (!b->dirty) continue;
            uint64_t hb = ps_hash3(seed, i->no, 100 + n); int keep = mode == 1 ? 0 : (int)(hb % 8);
            int in_append = (uint64_t)n * BS >= i->dsize;    /* data=ordered: below the new size, appended data is on disk */
            if (in_append && keep >= 2) keep = 7;            /* mostly kept; sometimes a hole or torn */
            if (keep >= 4) { blk_free(b->dur); C->blocks_kept++; }
            else if (keep == 0 && b->cur) {                  /* torn at a sector boundary */
                uint64_t s = (hb >> 16) % (BS / SECT);
                for (uint64_t k = s; k < BS / SECT; k++) { if (b->dur) memcpy(b->cur + k * SECT, b->dur + k * SECT, SECT); else memset(b->cur + k * SECT, 0, SECT); }
                blk_free(b->dur); C->blocks_torn++;
            } else { blk_free(b->cur); b->cur = b->dur; C->blocks_lost++; }
            b->dur = 0; b->dirty = 0;
        }
        i->size = nsize; i->dsize = nsize;
        for (uint64_t n = (nsize + BS - 1) / BS; n < i->cap; n++) { blk_free(i->b[n].cur); i->b[n].cur = 0; }
        if (nsize % BS && nsize / BS < i->cap && i->b[nsize / BS].cur) memset(i->b[nsize / BS].cur + nsize % BS, 0, BS - nsize % BS);
    }
}
EXPORT void ps_fs_crash(int power, uint64_t seed, int mode) {
    if (ps_iotrace()) { char b[4000]; b[0] = 0; dump_walk(A->root, b, sizeof b, 0, ""); ps_say("==== end of life %u: power %d mode %d, %u names not synced\n", C->incarnation, power, mode, A->nj); for (char *l = strtok(b, "\n"); l; l = strtok(0, "\n")) if (!strstr(l, "/LOG")) ps_say("  %s\n", l); }
    if (!power) return;       /* process kill: the kernel keeps every completed write */
    uint32_t keep = A->nj ? (uint32_t)(ps_hash3(seed, 0x77, A->nj) % (A->nj + 1)) : 0;
    if (mode == 1) keep = 0;
    if (mode == 2) keep = A->nj;
    while (A->nj > keep) {
        struct jop *j = &A->j[--A->nj]; C->names_undone++;
        switch (j->type) {
        case J_LINK: ddel(j->d1, j->n1); break;
        case J_UNLINK: dadd(j->d1, j->n1, j->ino); break;
        case J_RENAME: ddel(j->d2, j->n2); if (j->old) dadd(j->d2, j->n2, j->old); dadd(j->d1, j->n1, j->ino); break;
        }
    }
    A->nj = 0;
    if (mode == 2) { sync_all_walk(A->root, 0); return; }
    power_walk(A->root, seed, mode, 0);
}
static uint64_t hash_walk(struct inode *d, int durable, uint64_t h) {
    for (struct dent *e = d->kids; e; e = e->next) {
        if (!strncmp(e->name, "LOG", 3) && strcmp(e->name, "LOCK")) continue;
        for (char *c = e->name; *c; c++) h = (h ^ (uint8_t)*c) * 1099511628211ULL;
        if (e->ino->dir) { h = hash_walk(e->ino, durable, h); continue; }
        h = ps_hash3(h, e->ino->size, e->ino->dsize);
        for (uint64_t n = 0; n * BS < e->ino->size && n < e->ino->cap; n++) { struct blk *b = &e->ino->b[n]; uint8_t *p = durable && b->dirty ? b->dur : b->cur; if (!p) continue; for (int k = 0; k < BS; k += 8) { uint64_t v; memcpy(&v, p + k, 8); h = (h ^ v) * 1099511628211ULL; } }
    }
    return h;
}
EXPORT uint64_t ps_fs_hash(int durable) { return hash_walk(A->root, durable, 7); }
static int dump_walk(struct inode *d, char *buf, size_t cap, int p, const char *pre) {
    for (struct dent *e = d->kids; e && (size_t)p + 300 < cap; e = e->next) {
        p += snprintf(buf + p, cap - (size_t)p, "%s/%s %lu/%lu\n", pre, e->name, (unsigned long)e->ino->size, (unsigned long)e->ino->dsize);
        if (e->ino->dir) { char q[300]; snprintf(q, sizeof q, "%s/%s", pre, e->name); p = dump_walk(e->ino, buf, cap, p, q); }
    }
    return p;
}
EXPORT int ps_fs_dump(char *buf, size_t cap) { return dump_walk(A->root, buf, cap, 0, ""); }
