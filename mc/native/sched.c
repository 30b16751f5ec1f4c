/* Cooperative scheduler of two threads: at any time exactly one of them (turn) runs between two scheduling points.
   Points: sched_point() called from Python for every line (or instruction) of the library, and every basic block
   of the library's compiled code that runs without the interpreter lock.  Only the first `limit` passages of each
   site are points.  Thread t hands over to the other before its points number at[t][0], at[t][1]. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include <time.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/syscall.h>

#define TABLE (1 << 14)
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static volatile int turn, done[2], forced;
static volatile long progress;
static long tids[2];
static long count[2], native[2], at[2][2], limit = 1;
static struct { uintptr_t site; long n; } table[2][TABLE];
static __thread int me = -1;
static __thread int busy = 0;
static int (*gilcheck)(void);

void sched_reset(long l, long a0, long a1, long b0, long b1)
    {
    memset(table, 0, sizeof(table));
    tids[0] = tids[1] = 0;
    turn = 0; done[0] = done[1] = forced = 0;
    count[0] = count[1] = native[0] = native[1] = 0;
    limit = l; at[0][0] = a0; at[0][1] = a1; at[1][0] = b0; at[1][1] = b1;
    if (!gilcheck)
        gilcheck = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
    }

/* Is thread t of this process asleep (waiting for something)? */
static int asleep(int t)
    {
    char path[64], buf[512], *p;
    if (!tids[t])
        return 0;
    snprintf(path, sizeof(path), "/proc/self/task/%ld/stat", tids[t]);
    FILE *f = fopen(path, "r");
    if (!f)
        return 0;
    size_t n = fread(buf, 1, sizeof(buf) - 1, f);
    fclose(f);
    buf[n] = 0;
    p = strrchr(buf, ')');
    return p && p[2] == 'S';
    }

/* Waits for its turn; if the other thread makes no progress for long, or sleeps (it waits for something this one
   holds), goes on. */
static void wait_turn(void)
    {
    long seen = progress, idle = 0, slept = 0;
    while (turn != me)
        {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 4000000;
        if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
        pthread_cond_timedwait(&cv, &mu, &ts);
        if (turn == me)
            break;
        slept = progress == seen && asleep(1 - me) ? slept + 1 : 0;
        if (progress != seen) { seen = progress; idle = 0; }
        else if (++idle > 250 || slept > 4) { forced++; turn = me; }
        }
    }

void sched_begin(int tid)
    {
    pthread_mutex_lock(&mu);
    me = tid;
    tids[me] = syscall(SYS_gettid);
    wait_turn();
    pthread_mutex_unlock(&mu);
    }

static void visit(uintptr_t site, int compiled)
    {
    int hand = 0;
    progress++;
    if (turn == me)
        {
        uintptr_t h = (site * 0x9E3779B97F4A7C15ull) >> 50;
        while (table[me][h].site && table[me][h].site != site)
            h = (h + 1) % TABLE;
        table[me][h].site = site;
        if (++table[me][h].n > limit)
            return;
        long n = count[me]++;
        native[me] += compiled;
        hand = (n == at[me][0] || n == at[me][1]) && !done[1 - me];
        if (!hand)
            return;
        }
    pthread_mutex_lock(&mu);
    if (hand && !done[1 - me])
        {
        turn = 1 - me;
        pthread_cond_broadcast(&cv);
        }
    wait_turn();
    pthread_mutex_unlock(&mu);
    }

void sched_point(uintptr_t site)
    {
    if (me >= 0)
        visit(site, 0);
    }

/* called by the instrumented extension (-fsanitize-coverage=trace-pc) at every basic block */
void __sanitizer_cov_trace_pc(void)
    {
    if (me < 0 || busy || !gilcheck)
        return;
    busy = 1;
    if (!gilcheck())
        visit((uintptr_t)__builtin_return_address(0), 1);
    busy = 0;
    }

void sched_end(void)
    {
    int t = me;
    pthread_mutex_lock(&mu);
    me = -1;
    done[t] = 1;
    if (!done[1 - t])
        turn = 1 - t;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
    }

long sched_count(int t) { return count[t]; }
long sched_native(int t) { return native[t]; }
long sched_forced(void) { return forced; }
