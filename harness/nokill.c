// no process is to be killed by accident: the real termrec only tells
#include <stdio.h>
#include <sys/types.h>
int __wrap_kill(pid_t p, int s)
{
    fprintf(stderr, "kill %d %d\n", (int)p, s);
    return 0;
}
