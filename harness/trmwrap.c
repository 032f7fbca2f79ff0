// Linked with termplay: lets threads run out (VF_NOTHREAD: which one can't
// be created).
#include <pthread.h>
#include <stdlib.h>
#include <errno.h>

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg)
{
    static int n;
    const char *e=getenv("VF_NOTHREAD");

    if (e && __sync_add_and_fetch(&n, 1)==atoi(e))
        return EAGAIN;
    return __real_pthread_create(t, a, f, arg);
}
