// Asks the library what it makes of names.  A command per line, after
// the directory to run it in, fields separated by "|", "~" for null; each in a process of its own.
//
//   W|format|name|default    ttyrec_w_find_format
//   R|format|name|default    ttyrec_r_find_format
//   w|format  r|format       the extension
//   O|mode|name|url|own      a stream, written to; own: we open the file
//   I|url                    a stream, read
//   C|format|url             a recording of two frames
//   P|format|url             played
#define _GNU_SOURCE
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "ttyrec.h"

static void hex(const char *b, int n)
{
    while (n-->0)
        printf("%02x", (unsigned char)*b++);
}
static void show(const char *b, int n, void *arg)
{
    hex(b, n);
}
static char *nul(char *s)
{
    return s && strcmp(s, "~")? s : 0;
}

static void command(char *l)
{
    char *a[6]={0};
    int n=0;
    char *d=strsep(&l, "|");
    if (chdir(d))
        _exit(9);
    while (n<6 && (a[n]=strsep(&l, "|")))
        n++;
    const char *e=0, *r=0;
    char buf[65536];
    int f;
    switch (*a[0])
    {
    case 'W': r=ttyrec_w_find_format(nul(a[1]), nul(a[2]), nul(a[3])); printf("%s", r? r : "~"); break;
    case 'R': r=ttyrec_r_find_format(nul(a[1]), nul(a[2]), nul(a[3])); printf("%s", r? r : "~"); break;
    case 'w': r=ttyrec_w_get_format_ext(a[1]); printf("%s", r? r : ""); break;
    case 'r': r=ttyrec_r_get_format_ext(a[1]); printf("%s", r? r : ""); break;
    case 'O':
        f=-1;
        if (*a[4]=='1')
            f=open(a[2], O_WRONLY|O_CREAT|(*a[1]=='a'? O_APPEND : O_TRUNC), 0666);
        f=open_stream(f, a[3], *a[1]=='a'? SM_APPEND : SM_WRITE, &e);
        printf("%d", f!=-1 && write(f, "hello\nworld\n", 12)==12 && !close(f));
        break;
    case 'I':
        f=open_stream(-1, a[1], SM_READ, &e);
        while (f!=-1 && (n=read(f, buf, sizeof(buf)))>0)
            hex(buf, n);
        break;
    case 'C':
        {
            struct timeval t={5, 0};
            recorder c=ttyrec_w_open(-1, nul(a[1]), a[2], &t);
            if (c)
            {
                ttyrec_w_write(c, &t, "hello\n", 6);
                t.tv_sec++;
                ttyrec_w_write(c, &t, "world\n", 6);
                ttyrec_w_close(c);
            }
            printf("%d", !!c);
        }
        break;
    case 'P':
        n=ttyrec_r_play(-1, nul(a[1]), a[2], 0, 0, show, 0);
        printf(" %d", n);
        break;
    }
}

int main(void)
{
    static char line[8192];
    while (fgets(line, sizeof(line), stdin))
    {
        line[strcspn(line, "\n")]=0;
        fflush(stdout);
        pid_t pid=fork();
        if (!pid)
        {
            alarm(20);
            command(line);
            exit(0);
        }
        int st;
        static int hung;
        if (hung>2)
            kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM)
            hung++;
        printf("|%d\n", WIFSIGNALED(st)? -WTERMSIG(st) : WEXITSTATUS(st));
    }
    return 0;
}
