// A scheduler that runs the threads of a program one at a time, switching
// only at calls of libc, in an order chosen by the one who tests it; with a
// clock that goes only when nothing else can.
#ifndef SCHED_H
#define SCHED_H
typedef long long usec;

void sched_init(void);                  // makes the caller thread 0
void sched_choices(const char *spec);   // "list 0 1 0", "rand seed permille", "prio seed changes"
void sched_name(const char *name);      // of the running thread
void sched_feed(int fd, usec at, int n);// n bytes (-1: the end) can be read from fd at this time
void sched_keys(const char *spec);      // "time:hex ..."; the last of them is followed by the end
void sched_spurious(int permille);
void sched_yield_here(int point);
int sched_waiting(void);                // threads waiting to be told something
void sched_end(void);                   // no more switches
void sched_log(const char *fmt, ...);
extern void (*sched_leave)(void);     // called before the clock goes
extern void (*sched_sending)(void);   // called before something is sent
extern usec sched_now, sched_start;
extern char *sched_buf;                 // the log, in shared memory
extern int sched_limit;                 // of steps
#endif
