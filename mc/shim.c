/* stands in for gzip: runs the real program and hands its output on in pieces
   SPLIT_REAL: the real program, SPLIT_AT: comma separated positions or "all" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/ioctl.h>
#include <sys/wait.h>

static void drained(void)
{
    int n = 1;
    struct timespec t = {0, 50000};
    for (int i = 0; i < 400; i++) {
        if (ioctl(1, FIONREAD, &n) || n == 0) {
            /* let the reader come back for more */
            nanosleep(&t, 0);
            return;
        }
        nanosleep(&t, 0);
    }
}

int main(int argc, char **argv)
{
    int p[2];
    const char *real = getenv("SPLIT_REAL"), *at = getenv("SPLIT_AT");
    if (!real || !at || pipe(p))
        return 9;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 1);
        close(p[0]);
        close(p[1]);
        execv(real, argv);
        _exit(9);
    }
    close(p[1]);
    size_t n = 0, cap = 1 << 16;
    char *b = malloc(cap);
    ssize_t k;
    while ((k = read(p[0], b + n, cap - n)) > 0) {
        n += k;
        if (n == cap)
            b = realloc(b, cap *= 2);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    size_t pos = 0;
    int all = !strcmp(at, "all");
    while (pos < n) {
        size_t next = n;
        if (all)
            next = pos + 1;
        else if (*at) {
            next = strtoul(at, (char **) &at, 10);
            if (*at == ',')
                at++;
            if (next > n)
                next = n;
        }
        while (pos < next) {
            k = write(1, b + pos, next - pos);
            if (k <= 0)
                return 1;
            pos += k;
        }
        drained();
    }
    return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
}
