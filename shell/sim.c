/* The world a bash script is replayed in.
 *
 * -DSHIM: a library preloaded into bash.  Files listed in $SIM_DIR/files (and
 * everything else below /var/run/sudo_pair, which is then absent) exist only
 * there; the uid is $SIM_UID; every program that is started is one of the
 * stand-ins in $SIM_DIR/bin, whatever path it was asked for by.
 * Otherwise: such a stand-in.  It only records how it was called in
 * $SIM_DIR/trace, and answers as $SIM_DIR/resp says. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#ifdef SHIM
#include <dlfcn.h>
static int find(const char *path, unsigned *f) {
    /* 1: listed, 0: absent, -1: not ours */
    char name[512], line[1024], want[1024]; FILE *h; unsigned i; int ours = !strncmp(path, "/var/run/sudo_pair", 18);
    snprintf(name, sizeof name, "%s/files", getenv("SIM_DIR"));
    if (strlen(path) > 400 || !(h = fopen(name, "r"))) return ours ? 0 : -1;
    for (i = 0; path[i]; i++) sprintf(want + 2 * i, "%02x", (unsigned char)path[i]);
    want[2 * i] = 0;
    while (fgets(line, sizeof line, h)) {
        char p[1024];
        if (sscanf(line, "%1000s %u %u %u %u %u %u", p, f, f + 1, f + 2, f + 3, f + 4, f + 5) == 7 && !strcmp(p, want)) { fclose(h); return f[0] ? 1 : 0; }
    }
    fclose(h);
    return ours ? 0 : -1;
}
static int acc(const char *path, int mode) {
    unsigned f[6]; int r = find(path, f);
    if (r == 0) { errno = ENOENT; return 0; }
    if (r < 0) return -1;
    if ((mode & W_OK) && !f[5]) { errno = EACCES; return 0; }
    return 1;
}
#define REAL(n) ((__typeof__(&n))dlsym(RTLD_NEXT, #n))
int faccessat(int d, const char *p, int m, int fl) { int r = acc(p, m); return r < 0 ? REAL(faccessat)(d, p, m, fl) : r - 1; }
int access(const char *p, int m) { int r = acc(p, m); return r < 0 ? REAL(access)(p, m) : r - 1; }
int eaccess(const char *p, int m) { int r = acc(p, m); return r < 0 ? REAL(eaccess)(p, m) : r - 1; }
static int st(const char *p, struct stat *s) {
    unsigned f[6]; int r = find(p, f);
    if (r < 0) return -2;
    if (r == 0) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s);
    s->st_mode = f[3] | (f[4] ? S_IFSOCK : S_IFREG); s->st_uid = f[1]; s->st_gid = f[2]; s->st_nlink = 1;
    return 0;
}
int stat(const char *p, struct stat *s) { int r = st(p, s); return r == -2 ? REAL(stat)(p, s) : r; }
int lstat(const char *p, struct stat *s) { int r = st(p, s); return r == -2 ? REAL(lstat)(p, s) : r; }
static uid_t me(void) { const char *e = getenv("SIM_UID"); return e ? strtoul(e, 0, 10) : 0; }
uid_t getuid(void) { return me(); }
uid_t geteuid(void) { return me(); }
gid_t getgid(void) { return 0; }
gid_t getegid(void) { return 0; }
int execve(const char *p, char *const a[], char *const e[]) {
    char n[512]; const char *b = strrchr(p, '/');
    snprintf(n, sizeof n, "%s/bin/%s", getenv("SIM_DIR"), b ? b + 1 : p);
    return REAL(execve)(n, a, e);
}
#else
int main(int n, char **a) {
    char name[512]; static char key[20000], line[100000]; int i, nth = 0, k = 0; FILE *h; size_t l = 0; int fd;
    for (i = 0; i < n && l < 9000; i++) {
        const char *s = a[i];
        if (i == 0 && strrchr(s, '/')) s = strrchr(s, '/') + 1;
        if (i) l += sprintf(key + l, ".");
        for (; *s && l < 9000; s++) l += sprintf(key + l, "%02x", (unsigned char)*s);
    }
    snprintf(name, sizeof name, "%s/trace", getenv("SIM_DIR"));
    if ((h = fopen(name, "r"))) { while (fgets(line, sizeof line, h)) if (!strncmp(line, key, l) && line[l] == '\n') nth++; fclose(h); }
    fd = open(name, O_WRONLY | O_CREAT | O_APPEND, 0600);
    key[l] = '\n';
    if (write(fd, key, l + 1) < 0) return 99;
    key[l] = 0;
    snprintf(name, sizeof name, "%s/resp", getenv("SIM_DIR"));
    if ((h = fopen(name, "r"))) {
        while (fgets(line, sizeof line, h)) {
            char *p = strchr(line, ' '), *q;
            if (!p || (size_t)(p - line) != l || strncmp(line, key, l) || k++ != nth) continue;
            int status = strtol(p, &q, 10);
            for (q++; q[0] && q[0] != '\n'; q += 2) { unsigned c; sscanf(q, "%2x", &c); putchar(c); }
            fflush(stdout);
            return status;
        }
    }
    return 77;
}
#endif
