/* Common part of the library harnesses: stateless enumeration of every operation
 * sequence up to a length bound.  A harness defines
 *   int op_count(void);               number of operations in the alphabet
 *   void op_name(int op, char *out);  readable name
 *   void run(const int *ops, int n);  executes the sequence from a fresh object, compares with the model
 * and calls FAIL(...) on a difference.
 * Usage: harness enum MINLEN MAXLEN SHARD NSHARDS | harness replay OP,OP,...            */
#pragma once
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/time.h>

int op_count(void);
void op_name(int op, char *out);
void run(const int *ops, int n);

#define MAXOPS 64
static int cur_ops[MAXOPS], cur_n;
static long n_seq, n_steps, n_fail;
static jmp_buf fail_jmp;
static const char *cur_note = "";

static void print_seq(FILE *f)
{
	char name[256];
	for (int i = 0; i < cur_n; i++)
	{
		name[0] = 0;
		op_name(cur_ops[i], name);
		fprintf(f, "%s%s", i ? "; " : "", name);
	}
}

static void print_fail(const char *what)
{
	printf("FAIL\t%s\t", what);
	for (int i = 0; i < cur_n; i++)
	{
		printf("%s%d", i ? "," : "", cur_ops[i]);
	}
	printf("\t");
	print_seq(stdout);
	printf("\n");
	fflush(stdout);
}

static void on_death(void)
{
	print_fail("memory error or undefined behaviour (sanitizer report)");
	printf("COUNT\t%ld\t%ld\n", n_seq, n_steps);
	fflush(stdout);
}

static void on_alarm(int sig)
{
	(void)sig;
	print_fail("the operation does not terminate");
	fflush(stdout);
	_exit(3);
}

static void on_abort(int sig)
{
	(void)sig;
	on_death();
	_exit(99);
}

__attribute__((noreturn, format(printf, 1, 2))) static void FAIL(const char *fmt, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	for (char *p = buf; *p; p++)
	{
		if (*p == '\n' || *p == '\t')
		{
			*p = ' ';
		}
	}
	print_fail(buf);
	if (++n_fail >= 20)
	{
		printf("COUNT\t%ld\t%ld\n", n_seq, n_steps);
		fflush(stdout);
		_exit(0);
	}
	longjmp(fail_jmp, 1);
}

#define CHECK(cond, ...) do { if (!(cond)) FAIL(__VA_ARGS__); } while (0)

void __ubsan_on_report(void)
{
	static int once;
	if (!once++)
	{
		on_death();
	}
}

void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void arm(int sec)
{
	struct itimerval tv = { { 0, 0 }, { sec, 0 } };
	setitimer(ITIMER_REAL, &tv, NULL);
}

static void one(void)
{
	if ((n_seq & 1023) == 0)
	{
		arm(60);
	}
	n_seq++;
	n_steps += cur_n;
	if (setjmp(fail_jmp) == 0)
	{
		run(cur_ops, cur_n);
	}
}

/* lets a harness prune sequences (op not enabled after the prefix); default: keep all */
static bool (*enabled)(const int *ops, int n, int op) = NULL;

static void enumerate(int depth, int target, int shard, int nshards, long *tick)
{
	if (depth == target)
	{
		cur_n = target;
		one();
		return;
	}
	for (int op = 0; op < op_count(); op++)
	{
		if (enabled && !enabled(cur_ops, depth, op))
		{
			continue;
		}
		if (depth == 1 || (target == 1 && depth == 0))
		{
			if ((*tick)++ % nshards != shard)
			{
				continue;
			}
		}
		cur_ops[depth] = op;
		enumerate(depth + 1, target, shard, nshards, tick);
	}
}

static void harness_init(void);

int main(int argc, char **argv)
{
	signal(SIGALRM, on_alarm);
	signal(SIGABRT, on_abort);
	if (__sanitizer_set_death_callback)
	{
		__sanitizer_set_death_callback(on_death);
	}
	harness_init();
	if (argc >= 3 && !strcmp(argv[1], "replay"))
	{
		char *s = argv[2];
		while (*s)
		{
			cur_ops[cur_n++] = (int)strtol(s, &s, 10);
			if (*s == ',')
			{
				s++;
			}
		}
		one();
	}
	else if (argc >= 6 && !strcmp(argv[1], "enum"))
	{
		const int lo = atoi(argv[2]), hi = atoi(argv[3]), shard = atoi(argv[4]), nshards = atoi(argv[5]);
		for (int len = lo; len <= hi; len++)
		{
			long tick = 0;
			if (len == 0)
			{
				if (shard == 0)
				{
					cur_n = 0;
					one();
				}
				continue;
			}
			enumerate(0, len, shard, nshards, &tick);
		}
	}
	printf("COUNT\t%ld\t%ld\n", n_seq, n_steps);
	return 0;
}
