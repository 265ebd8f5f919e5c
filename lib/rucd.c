/*
 * rucd - fork server that runs the real compiler's main() once per request.
 *
 * The compiler's own translation units are linked in unchanged (src/main.c is
 * compiled with -Dmain=ruc_main).  Every request is executed in a freshly
 * forked child with its own stdio, CPU/wall limit and file-size limit, inside
 * the working directory given on the command line, so no request sees state
 * another left behind.
 *
 * Request  (little endian u32 fields, strings are length-prefixed):
 *   nfiles { name, content }  nargs { arg }  noutputs { name }  limit_ms
 * Reply:
 *   wait-status  log(stdout+stderr)  noutputs { present, content }
 * After each request every file named in it is removed again.
 *
 * A request that starts with nfiles = 0xFFFFFFFF is a batch: count, then that
 * many requests.  One forked child runs them one after another (so a batch may
 * see what an earlier request of it left in memory: callers run whatever looks
 * wrong again, alone).  Replies: { 1, reply } per finished request, then 0 and
 * the child's wait-status.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int ruc_main(int argc, const char *argv[]);

static FILE *fin, *fout;

static void die(const char *m) { fprintf(stderr, "rucd: %s: %s\n", m, strerror(errno)); _exit(70); }

static uint32_t rd32(void)
{
	uint32_t v;
	if (fread(&v, 4, 1, fin) != 1) _exit(0);
	return v;
}
static char *rdstr(uint32_t *len)
{
	uint32_t n = rd32();
	char *p = malloc(n + 1);
	if (n && fread(p, 1, n, fin) != n) _exit(0);
	p[n] = 0;
	if (len) *len = n;
	return p;
}
static void wr32(uint32_t v) { if (fwrite(&v, 4, 1, fout) != 1) die("write"); }
static void wrstr(const char *p, uint32_t n) { wr32(n); if (n && fwrite(p, 1, n, fout) != n) die("write"); }

static void send_fd(int fd, size_t cap)
{
	struct stat st;
	fstat(fd, &st);
	size_t n = (size_t)st.st_size < cap ? (size_t)st.st_size : cap;
	char *p = malloc(n + 1);
	ssize_t r = n ? pread(fd, p, n, 0) : 0;
	wrstr(p, r < 0 ? 0 : (uint32_t)r);
	free(p);
}

static void mkparents(char *path)
{
	for (char *p = path + 1; *p; p++)
		if (*p == '/') { *p = 0; mkdir(path, 0777); *p = '/'; }
}


struct req { uint32_t nf, na, no, ms; char **fnames, **fdata, **args, **outs; uint32_t *flen; };

static void read_req(struct req *q, uint32_t nf)
{
	q->nf = nf;
	q->fnames = calloc(nf + 1, sizeof(char *));
	q->fdata = calloc(nf + 1, sizeof(char *));
	q->flen = calloc(nf + 1, sizeof(uint32_t));
	for (uint32_t i = 0; i < nf; i++) { q->fnames[i] = rdstr(NULL); q->fdata[i] = rdstr(&q->flen[i]); }
	q->na = rd32();
	q->args = calloc(q->na + 2, sizeof(char *));
	q->args[0] = strdup("ruc");
	for (uint32_t i = 0; i < q->na; i++) q->args[i + 1] = rdstr(NULL);
	q->no = rd32();
	q->outs = calloc(q->no + 1, sizeof(char *));
	for (uint32_t i = 0; i < q->no; i++) q->outs[i] = rdstr(NULL);
	q->ms = rd32();
}

static void free_req(struct req *q)
{
	for (uint32_t i = 0; i < q->nf; i++) { free(q->fnames[i]); free(q->fdata[i]); }
	for (uint32_t i = 0; i <= q->na; i++) free(q->args[i]);
	for (uint32_t i = 0; i < q->no; i++) free(q->outs[i]);
	free(q->fnames); free(q->fdata); free(q->flen); free(q->args); free(q->outs);
}

static void write_files(struct req *q)
{
	for (uint32_t i = 0; i < q->nf; i++)
	{
		int fd = open(q->fnames[i], O_WRONLY | O_CREAT | O_TRUNC, 0666);
		if (fd < 0) { mkparents(q->fnames[i]); fd = open(q->fnames[i], O_WRONLY | O_CREAT | O_TRUNC, 0666); }
		if (fd < 0) die(q->fnames[i]);
		if (write(fd, q->fdata[i], q->flen[i]) != (ssize_t)q->flen[i]) die("write source");
		close(fd);
	}
	for (uint32_t i = 0; i < q->no; i++) unlink(q->outs[i]);
}

static void reply(struct req *q, int status, int log)
{
	wr32((uint32_t)status);
	send_fd(log, 1 << 20);
	wr32(q->no);
	for (uint32_t i = 0; i < q->no; i++)
	{
		int fd = open(q->outs[i], O_RDONLY);
		wr32(fd >= 0);
		if (fd >= 0) { send_fd(fd, 64u << 20); close(fd); unlink(q->outs[i]); }
		else wrstr("", 0);
	}
	fflush(fout);
	for (uint32_t i = 0; i < q->nf; i++) unlink(q->fnames[i]);
}

static void child_setup(int log, long fsize)
{
	dup2(log, 1);
	dup2(log, 2);
	struct rlimit rl = { (rlim_t)fsize, (rlim_t)fsize };
	setrlimit(RLIMIT_FSIZE, &rl);
	struct rlimit cl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &cl);
	signal(SIGALRM, SIG_DFL);
}

static void limit(uint32_t ms)
{
	struct itimerval it = { { 0, 0 }, { ms / 1000, (ms % 1000) * 1000 } };
	setitimer(ITIMER_REAL, &it, NULL);
}

int main(int argc, char **argv)
{
	if (argc < 2 || chdir(argv[1])) die("chdir");
	const long fsize = argc > 2 ? atol(argv[2]) : (64L << 20);
	fin = fdopen(dup(0), "rb");
	fout = fdopen(dup(1), "wb");
	setvbuf(fin, NULL, _IOFBF, 1 << 16);
	int devnull = open("/dev/null", O_RDWR);
	dup2(devnull, 0);

	for (;;)
	{
		uint32_t nf = rd32();
		const int batch = nf == 0xFFFFFFFFu;
		const uint32_t count = batch ? rd32() : 1;
		struct req *q = calloc(count, sizeof *q);
		for (uint32_t i = 0; i < count; i++) read_req(&q[i], batch ? rd32() : nf);
		int log = memfd_create("log", 0);
		if (!batch) write_files(&q[0]);
		fflush(fout);
		pid_t pid = fork();
		if (pid < 0) die("fork");
		if (pid == 0)
		{
			child_setup(log, fsize);
			if (!batch)
			{
				limit(q[0].ms);
				exit(ruc_main((int)q[0].na + 1, (const char **)q[0].args));
			}
			for (uint32_t i = 0; i < count; i++)
			{
				write_files(&q[i]);
				limit(q[i].ms);
				const int rc = ruc_main((int)q[i].na + 1, (const char **)q[i].args);
				limit(0);
				fflush(stdout);
				fflush(stderr);
				wr32(1);
				reply(&q[i], (rc & 255) << 8, log);
				if (ftruncate(log, 0)) die("truncate");
				lseek(log, 0, SEEK_SET);
			}
			_exit(0);
		}
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
		if (batch)
		{
			wr32(0);
			wr32((uint32_t)status);
			fflush(fout);
			for (uint32_t i = 0; i < count; i++) for (uint32_t j = 0; j < q[i].nf; j++) unlink(q[i].fnames[j]);
		}
		else reply(&q[0], status, log);
		close(log);
		for (uint32_t i = 0; i < count; i++) free_req(&q[i]);
		free(q);
	}
}
