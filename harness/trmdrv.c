// Runs programs on a terminal, as a shell with job control would, and tells
// what they do to its settings.  Each line of standard input is a run:
//   settings|stdin|stdout|no thread|action,action...|program|arguments...
// settings: a number, bits of which change the settings the run starts with
// stdin, stdout: t (the terminal), p (a pipe), n (nothing)
// actions: key:HEX  typed            sig:N  a signal to the program
//          grp:N  one to all its job sleep:US  wait
//          eof  the pipe of stdin ends    gone  no one reads stdout anymore
//          fg, bg  go on             raw, stopped, ended  wait for that
// For each of raw, stopped, ended:  "WHAT got own raw", got whether it came
// about in time, own whether the settings are those at the start, raw whether
// keys come at once and without an echo; and then "= status signal message".
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <termios.h>
#include <time.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

static int master, slave, ofd=-1, efd=-1, ifd=-1, errlen;
static pid_t prog;
static struct termios start;
static int state;               // of the program: 0 runs, 1 stopped, 2 ended
static int status;
static double patience=20;
static int late;

static void fail(const char *w) { perror(w); _exit(3); }

static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec+t.tv_nsec/1e9;
}

static void drain(int *fd, int *count)
{
    char buf[4096];
    int r;

    while (*fd!=-1 && (r=read(*fd, buf, sizeof buf))>0)
        if (count)
            *count+=r;
}

static void look(void)
{
    int st;

    drain(&master, 0);
    drain(&ofd, 0);
    drain(&efd, &errlen);
    if (state<2 && waitpid(prog, &st, WNOHANG|WUNTRACED|WCONTINUED)==prog)
    {
        if (WIFSTOPPED(st))
            state=1;
        else if (WIFCONTINUED(st))
            state=0;
        else
        {
            state=2;
            status=st;
        }
    }
}

static int same(const struct termios *a, const struct termios *b)
{
    // pending input is the driver's own
    return a->c_iflag==b->c_iflag && a->c_oflag==b->c_oflag && a->c_cflag==b->c_cflag
        && (a->c_lflag&~PENDIN)==(b->c_lflag&~PENDIN) && !memcmp(a->c_cc, b->c_cc, sizeof a->c_cc);
}

static void settings(int *own, int *raw)
{
    struct termios t;

    if (tcgetattr(slave, &t))
        fail("tcgetattr");
    *own=same(&t, &start);
    *raw=!(t.c_lflag&(ICANON|ECHO));
}

static void await(const char *what)
{
    double end=now()+(late? 0 : patience);
    int own, raw, got=0;

    do
    {
        look();
        settings(&own, &raw);
        if (!strcmp(what, "raw"))
            got=raw && !state;
        else if (!strcmp(what, "stopped"))
            got=state==1;
        else
            got=state==2;
        if (got || (state==2 && strcmp(what, "ended")))
            break;
        usleep(500);
    } while (now()<end);
    settings(&own, &raw);
    if (!got)
        late=1;
    printf("%s %d %d %d\n", what, got, own, raw);
}

// the foreground is for who takes it
static void foreground(pid_t p)
{
    if (tcsetpgrp(slave, p))
        fail("tcsetpgrp");
}

static void run(char *line)
{
    char *f[64];
    int n=0, pi[2], po[2], pe[2], ps[2];

    for (char *p=line; p && n<63; n++)
    {
        f[n]=p;
        if ((p=strchr(p, '|')))
            *p++=0;
    }
    f[n]=0;
    if (n<6)
        fail("line");
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setrlimit(RLIMIT_CORE, &(struct rlimit){0, 0});
    if (setsid()==-1)
        fail("setsid");
    if ((master=posix_openpt(O_RDWR|O_NOCTTY))==-1 || grantpt(master) || unlockpt(master))
        fail("pty");
    if ((slave=open(ptsname(master), O_RDWR))==-1)
        fail("pty");
    ioctl(slave, TIOCSCTTY, 0);
    struct winsize ws={.ws_row=24, .ws_col=80};
    ioctl(slave, TIOCSWINSZ, &ws);
    if (tcgetattr(slave, &start))
        fail("tcgetattr");
    int s=atoi(f[0]);
    if (s&1) start.c_lflag^=ECHO;
    if (s&2) start.c_lflag^=ICANON;
    if (s&4) start.c_iflag^=IXON;
    if (s&8) start.c_iflag^=ICRNL;
    if (s&16) start.c_oflag^=OPOST;
    if (s&32) start.c_cc[VMIN]=7, start.c_cc[VTIME]=3;
    if (s&64) start.c_iflag^=ISTRIP;
    if (s&128) start.c_cc[VERASE]=8;
    if (s&256) start.c_lflag^=IEXTEN;
    if (s&512) start.c_lflag^=ECHOE|TOSTOP;
    if (tcsetattr(slave, TCSANOW, &start) || tcgetattr(slave, &start))
        fail("tcsetattr");

    if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC) || pipe2(ps, O_CLOEXEC))
        fail("pipe");
    if (!(prog=fork()))
    {
        int nul=open("/dev/null", O_RDWR|O_CLOEXEC);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        char c;
        while (read(ps[0], &c, 1)!=1)    // until it has the foreground
            ;
        dup2(*f[1]=='t'? slave : *f[1]=='p'? pi[0] : nul, 0);
        dup2(*f[2]=='t'? slave : *f[2]=='p'? po[1] : nul, 1);
        dup2(pe[1], 2);
        close(master);
        close(slave);
        if (*f[3])
            setenv("VF_NOTHREAD", f[3], 1);
        execv(f[5], f+5);
        _exit(127);
    }
    signal(SIGTTOU, SIG_IGN);
    signal(SIGHUP, SIG_IGN);
    signal(SIGPIPE, SIG_IGN);
    setpgid(prog, prog);
    foreground(prog);
    if (write(ps[1], "", 1)!=1)
        fail("pipe");
    close(pi[0]); close(po[1]); close(pe[1]);
    ifd=pi[1]; ofd=po[0]; efd=pe[0];
    fcntl(ofd, F_SETFL, O_NONBLOCK);
    fcntl(efd, F_SETFL, O_NONBLOCK);
    fcntl(master, F_SETFL, O_NONBLOCK);

    char *sp, *a;
    for (a=strtok_r(f[4], ",", &sp); a; a=strtok_r(0, ",", &sp))
    {
        if (!strncmp(a, "key:", 4))
            for (a+=4; *a && a[1]; a+=2)
            {
                char h[3]={a[0], a[1], 0};
                char c=strtol(h, 0, 16);
                if (write(*f[1]=='p'? ifd : master, &c, 1)!=1)
                    ;
            }
        else if (!strncmp(a, "sig:", 4))
        {
            if (state<2)
                kill(prog, atoi(a+4));
        }
        else if (!strncmp(a, "grp:", 4))
        {
            if (state<2)
                kill(-prog, atoi(a+4));
        }
        else if (!strncmp(a, "sleep:", 6))
            for (double e=now()+atof(a+6)/1e6; state<2 && now()<e; usleep(now()+2e-3<e? 1000 : 0))
                look();
        else if (!strcmp(a, "eof"))
            close(ifd), ifd=-1;
        else if (!strcmp(a, "gone"))
            close(ofd), ofd=-1;
        else if (!strcmp(a, "fg") || !strcmp(a, "bg"))
        {
            foreground(*a=='f'? prog : getpid());
            state=0;
            kill(-prog, SIGCONT);
        }
        else
            await(a);
        if (state==1)
            foreground(getpid());       // as a shell would
    }
    look();
    if (state<2)
    {
        kill(-prog, SIGKILL);
        printf("= -1 0 %d\n", errlen>0);
    }
    else
        printf("= %d %d %d\n", WIFEXITED(status)? WEXITSTATUS(status) : -1, WIFSIGNALED(status)? WTERMSIG(status) : 0, errlen>0);
    fflush(stdout);
    _exit(late? 4 : 0);
}

int main(void)
{
    char line[8192];
    sigset_t none;

    // what is ignored would stay ignored
    for (int i=1; i<NSIG; i++)
        signal(i, SIG_DFL);
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, 0);

    while (fgets(line, sizeof line, stdin))
    {
        line[strcspn(line, "\n")]=0;
        fflush(stdout);
        pid_t p=fork();
        if (!p)
            run(line);
        int st;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st)==4)
            patience=2;         // no need to take as long to find more of it
        else if (st)
        {
            fprintf(stderr, "driver: %x\n", st);
            return 3;
        }
    }
    return 0;
}
