/*	Stands between a program and the C library: files opened by fopen fail where the environment says.
 *
 *	FAULT="<kind>:<file name>:<n>"
 *		read	reading fails with EIO behind octet n
 *		write	writing fails with ENOSPC behind octet n
 *		close	closing fails with EIO
 *		open	opening fails with EMFILE
 *		short	no failure, reading returns at most n octets at a time (for every file)
 *	FAULT_LOG=<file>	one line for every file opened, and one when the fault takes place
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct cookie { int fd; long at; int kind; long n; } cookie;

static void note(const char *const what, const char *const path)
{
	const char *const log = getenv("FAULT_LOG");
	if (log == NULL)
	{
		return;
	}

	char line[8192];
	const int size = snprintf(line, sizeof line, "%s %s\n", what, path);
	const int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (fd != -1 && write(fd, line, size < (int)sizeof line ? size : (int)sizeof line) != -1)
	{
		close(fd);
	}
}

static ssize_t ck_read(void *const arg, char *const buffer, size_t size)
{
	cookie *const c = arg;
	if (c->kind == 'r')
	{
		if (c->at >= c->n)
		{
			note("fault", "read");
			errno = EIO;
			return -1;
		}

		if ((long)size > c->n - c->at)
		{
			size = c->n - c->at;
		}
	}
	else if (c->kind == 's' && (long)size > c->n)
	{
		size = c->n;
	}

	const ssize_t ret = read(c->fd, buffer, size);
	if (ret > 0)
	{
		c->at += ret;
	}

	return ret;
}

static ssize_t ck_write(void *const arg, const char *const buffer, size_t size)
{
	cookie *const c = arg;
	if (c->kind == 'w' && (long)size > c->n - c->at)
	{
		const long rest = c->n > c->at ? c->n - c->at : 0;
		const ssize_t ret = rest ? write(c->fd, buffer, rest) : 0;
		c->at += ret > 0 ? ret : 0;
		note("fault", "write");
		errno = ENOSPC;
		return 0;
	}

	size_t done = 0;
	while (done < size)
	{
		const ssize_t ret = write(c->fd, buffer + done, size - done);
		if (ret <= 0)
		{
			return 0;
		}

		done += ret;
	}

	c->at += size;
	return size;
}

static int ck_seek(void *const arg, off64_t *const offset, const int whence)
{
	cookie *const c = arg;
	const off64_t ret = lseek64(c->fd, *offset, whence);
	if (ret == -1)
	{
		return -1;
	}

	*offset = ret;
	c->at = ret;
	return 0;
}

static int ck_close(void *const arg)
{
	cookie *const c = arg;
	const int kind = c->kind;
	close(c->fd);
	free(c);

	if (kind == 'c')
	{
		note("fault", "close");
		errno = EIO;
		return -1;
	}

	return 0;
}

FILE *fopen(const char *const path, const char *const mode)
{
	static FILE *(*real)(const char *, const char *) = NULL;
	if (real == NULL)
	{
		real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
	}

	note(mode[0] == 'w' ? "out" : "in", path);
	const char *const fault = getenv("FAULT");
	if (fault == NULL)
	{
		return real(path, mode);
	}

	char name[4096];
	char kind[16];
	long n;
	if (sscanf(fault, "%15[^:]:%4095[^:]:%ld", kind, name, &n) != 3)
	{
		abort();
	}

	const size_t size = strlen(path);
	const size_t tail = strlen(name);
	const int same = size >= tail && strcmp(path + size - tail, name) == 0 && (size == tail || path[size - tail - 1] == '/');
	if (kind[0] != 's' && !same)
	{
		return real(path, mode);
	}

	if (kind[0] == 'o')
	{
		note("fault", "open");
		errno = EMFILE;
		return NULL;
	}

	const int plus = strchr(mode, '+') != NULL;
	const int flags = mode[0] == 'r' ? plus ? O_RDWR : O_RDONLY : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
	const int fd = open(path, flags, 0666);
	if (fd == -1)
	{
		return NULL;
	}

	cookie *const c = malloc(sizeof(cookie));
	*c = (cookie){ fd, 0, kind[0], n };
	return fopencookie(c, mode, (cookie_io_functions_t){ ck_read, ck_write, ck_seek, ck_close });
}

FILE *fopen64(const char *const path, const char *const mode)
{
	return fopen(path, mode);
}
