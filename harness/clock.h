// A clock that stands still but for sleeping, whatever calls are used to look
// at it or to sleep.  Link with --wrap (CLOCK in checks/timeline.py).
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static struct timeval now, sleepfor;
static int slept;

static void sleeping(long long s, long long us)
{
    slept++;
    now.tv_sec+=s, sleepfor.tv_sec+=s;
    now.tv_usec+=us, sleepfor.tv_usec+=us;
    if (now.tv_usec>=1000000)
        now.tv_usec-=1000000, now.tv_sec++;
    if (sleepfor.tv_usec>=1000000)
        sleepfor.tv_usec-=1000000, sleepfor.tv_sec++;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    *tv=now;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    t->tv_sec=now.tv_sec;
    t->tv_nsec=now.tv_usec*1000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    if (t)
        *t=now.tv_sec;
    return now.tv_sec;
}
int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (n)
        return __real_select(n, r, w, e, tv);
    sleeping(tv->tv_sec, tv->tv_usec);
    return 0;
}
int __real_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s);
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s)
{
    if (n)
        return __real_pselect(n, r, w, e, t, s);
    sleeping(t->tv_sec, t->tv_nsec/1000);
    return 0;
}
int __real_poll(struct pollfd *p, nfds_t n, int ms);
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    if (n)
        return __real_poll(p, n, ms);
    sleeping(ms/1000, ms%1000*1000);
    return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *left)
{
    sleeping(t->tv_sec, t->tv_nsec/1000);
    return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *left)
{
    long long us=(flags&TIMER_ABSTIME)? (t->tv_sec-now.tv_sec)*1000000LL+t->tv_nsec/1000-now.tv_usec : t->tv_sec*1000000LL+t->tv_nsec/1000;
    if (us>0)
        sleeping(us/1000000, us%1000000);
    return 0;
}
int __wrap_usleep(useconds_t us)
{
    sleeping(us/1000000, us%1000000);
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    sleeping(s, 0);
    return 0;
}
