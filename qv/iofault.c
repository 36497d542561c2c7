// Preloaded into the compiler: records what it does with files below QV_ROOT, and fails what QV_FAULTS says.
// QV_FAULTS has lines "op|which|errno|path", where which is a number n (the nth such call), "n+" (from the nth on)
// or "short" (reads or writes of at most errno bytes; the path may be *) or "slow" (takes errno milliseconds longer).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX_FD 4096
#define MAX_RULES 32

static char *fd_path[MAX_FD];
static const char *root;
static size_t root_len;
static int log_fd = -1;
static int dt_unknown;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;

struct rule {
	char op[16], path[PATH_MAX];
	int nth, from, is_short, is_slow, error;
	int calls;
};
static struct rule rules[MAX_RULES];
static int rule_count;

static void normalize(const char *in, char *out)
{
	char parts[PATH_MAX];
	char *stack[512];
	int depth = 0;
	if (in[0] != '/') {
		char cwd[PATH_MAX];
		if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0)
			cwd[0] = 0;
		snprintf(parts, sizeof parts, "%s/%s", cwd, in);
	} else {
		snprintf(parts, sizeof parts, "%s", in);
	}
	char *save, *p = strtok_r(parts, "/", &save);
	for (; p; p = strtok_r(NULL, "/", &save)) {
		if (!strcmp(p, "."))
			continue;
		if (!strcmp(p, "..")) {
			if (depth)
				depth--;
			continue;
		}
		if (depth < 512)
			stack[depth++] = p;
	}
	size_t n = 0;
	out[0] = 0;
	for (int i = 0; i < depth; i++)
		n += snprintf(out + n, PATH_MAX - n, "/%s", stack[i]);
}

static int below_root(const char *path)
{
	return root && !strncmp(path, root, root_len) && (path[root_len] == '/' || !path[root_len]);
}

__attribute__((constructor)) static void init(void)
{
	root = getenv("QV_ROOT");
	root_len = root ? strlen(root) : 0;
	dt_unknown = getenv("QV_DT_UNKNOWN") != NULL;
	const char *log = getenv("QV_LOG");
	if (log) {
		int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
		log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
		syscall(SYS_close, fd);
	}
	const char *faults = getenv("QV_FAULTS");
	if (faults) {
		char *copy = strdup(faults), *save, *l = strtok_r(copy, "\n", &save);
		for (; l && rule_count < MAX_RULES; l = strtok_r(NULL, "\n", &save)) {
			struct rule *r = &rules[rule_count];
			char which[16];
			if (sscanf(l, "%15[^|]|%15[^|]|%d|%4095[^\n]", r->op, which, &r->error, r->path) != 4)
				continue;
			r->is_short = !strcmp(which, "short");
			r->is_slow = !strcmp(which, "slow");
			r->nth = atoi(which);
			r->from = strchr(which, '+') != NULL;
			rule_count++;
		}
		free(copy);
	}
}

static void note(const char *op, const char *path, const char *what)
{
	char line[PATH_MAX + 64];
	if (log_fd < 0)
		return;
	int n = snprintf(line, sizeof line, "%s\t%s\t%s\n", op, what, path);
	syscall(SYS_write, log_fd, line, n);
}

// The error to give, or 0
static int fault(const char *op, const char *path)
{
	int error = 0, delay = 0;
	pthread_mutex_lock(&lock);
	for (int i = 0; i < rule_count && !error; i++) {
		struct rule *r = &rules[i];
		if (r->is_short || strcmp(r->op, op) || strcmp(r->path, path))
			continue;
		if (r->is_slow) {
			delay = r->error;
			continue;
		}
		r->calls++;
		if (r->from ? r->calls >= r->nth : r->calls == r->nth)
			error = r->error;
	}
	note(op, path, error ? "failed" : delay ? "slow" : "ok");
	pthread_mutex_unlock(&lock);
	if (delay)
		usleep(delay * 1000);
	return error;
}

static size_t shorten(const char *op, const char *path, size_t n)
{
	for (int i = 0; i < rule_count; i++) {
		struct rule *r = &rules[i];
		if (r->is_short && !strcmp(r->op, op) && (!strcmp(r->path, "*") || !strcmp(r->path, path)) && n > (size_t)r->error) {
			note(op, path, "short");
			n = r->error;
		}
	}
	return n;
}

static void set_path(int fd, const char *path)
{
	if (fd < 0 || fd >= MAX_FD)
		return;
	pthread_mutex_lock(&lock);
	free(fd_path[fd]);
	fd_path[fd] = path ? strdup(path) : NULL;
	pthread_mutex_unlock(&lock);
}

static int get_path(int fd, char *out)
{
	int found = 0;
	if (fd < 0 || fd >= MAX_FD)
		return 0;
	pthread_mutex_lock(&lock);
	if (fd_path[fd]) {
		strcpy(out, fd_path[fd]);
		found = 1;
	}
	pthread_mutex_unlock(&lock);
	return found;
}

static void at_path(int dir, const char *path, char *out)
{
	char full[2 * PATH_MAX], base[PATH_MAX];
	if (path[0] != '/' && dir != AT_FDCWD && get_path(dir, base)) {
		snprintf(full, sizeof full, "%s/%s", base, path);
		full[PATH_MAX - 1] = 0;
		normalize(full, out);
	} else {
		normalize(path, out);
	}
}

static int do_open(int dir, const char *path, int flags, mode_t mode)
{
	char at[PATH_MAX];
	at_path(dir, path, at);
	int watched = below_root(at);
	if (watched) {
		const char *op = flags & O_DIRECTORY ? "opendir" : (flags & O_ACCMODE) == O_RDONLY ? "open" : "create";
		int error = fault(op, at);
		if (error) {
			errno = error;
			return -1;
		}
	}
	int fd = syscall(SYS_openat, dir, path, flags, mode);
	set_path(fd, watched && fd >= 0 ? at : NULL);
	return fd;
}

#define MODE(flags, last) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, last); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE(flags, flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags, flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags, flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags, flags) return do_open(dir, path, flags | O_LARGEFILE, mode); }

int close(int fd)
{
	set_path(fd, NULL);
	return syscall(SYS_close, fd);
}

static int before_io(const char *op, int fd, char *path)
{
	if (!get_path(fd, path))
		return 0;
	int error = fault(op, path);
	if (error) {
		errno = error;
		return -1;
	}
	return 1;
}

ssize_t read(int fd, void *buffer, size_t n)
{
	char path[PATH_MAX];
	int watched = before_io("read", fd, path);
	if (watched < 0)
		return -1;
	if (watched)
		n = shorten("read", path, n);
	return syscall(SYS_read, fd, buffer, n);
}

ssize_t write(int fd, const void *buffer, size_t n)
{
	char path[PATH_MAX];
	int watched = before_io("write", fd, path);
	if (watched < 0)
		return -1;
	if (watched)
		n = shorten("write", path, n);
	return syscall(SYS_write, fd, buffer, n);
}

ssize_t writev(int fd, const struct iovec *v, int count)
{
	char path[PATH_MAX];
	int watched = before_io("write", fd, path);
	if (watched < 0)
		return -1;
	if (watched && count > 0)
		return syscall(SYS_write, fd, v[0].iov_base, shorten("write", path, v[0].iov_len));
	return syscall(SYS_writev, fd, v, count);
}

ssize_t readv(int fd, const struct iovec *v, int count)
{
	char path[PATH_MAX];
	int watched = before_io("read", fd, path);
	if (watched < 0)
		return -1;
	return syscall(SYS_readv, fd, v, count);
}

DIR *opendir(const char *path)
{
	static DIR *(*real)(const char *);
	char at[PATH_MAX];
	if (!real)
		real = dlsym(RTLD_NEXT, "opendir");
	normalize(path, at);
	int watched = below_root(at);
	if (watched) {
		int error = fault("opendir", at);
		if (error) {
			errno = error;
			return NULL;
		}
	}
	DIR *d = real(path);
	if (d)
		set_path(dirfd(d), watched ? at : NULL);
	return d;
}

int closedir(DIR *d)
{
	static int (*real)(DIR *);
	if (!real)
		real = dlsym(RTLD_NEXT, "closedir");
	set_path(dirfd(d), NULL);
	return real(d);
}

struct dirent64 *readdir64(DIR *d)
{
	static struct dirent64 *(*real)(DIR *);
	char path[PATH_MAX];
	if (!real)
		real = dlsym(RTLD_NEXT, "readdir64");
	if (before_io("readdir", dirfd(d), path) < 0)
		return NULL;
	struct dirent64 *e = real(d);
	if (e && dt_unknown)
		e->d_type = DT_UNKNOWN;
	return e;
}

struct dirent *readdir(DIR *d)
{
	static struct dirent *(*real)(DIR *);
	char path[PATH_MAX];
	if (!real)
		real = dlsym(RTLD_NEXT, "readdir");
	if (before_io("readdir", dirfd(d), path) < 0)
		return NULL;
	struct dirent *e = real(d);
	if (e && dt_unknown)
		e->d_type = DT_UNKNOWN;
	return e;
}

int statx(int dir, const char *given, int flags, unsigned mask, struct statx *out)
{
	char at[PATH_MAX];
	const char *volatile path = given; // may be null, whatever its declaration says
	if (path && path[0]) {
		at_path(dir, path, at);
		if (below_root(at)) {
			int error = fault("stat", at);
			if (error) {
				errno = error;
				return -1;
			}
		}
	}
	return syscall(SYS_statx, dir, path, flags, mask, out);
}

int rename(const char *from, const char *to)
{
	char at[PATH_MAX];
	normalize(to, at);
	if (below_root(at)) {
		int error = fault("create", at);
		if (error) {
			errno = error;
			return -1;
		}
	}
	return syscall(SYS_rename, from, to);
}
