/* Copies standard input to standard output in pieces of random sizes, with pauses: relay SEED */
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

int main (int argc, char **argv)
{
    unsigned s = argc > 1 ? (unsigned) atoi (argv[1]) : 1;
    static char buf[65536];
    long pauses = 0;
    for (;;)
    {
        size_t want = rand_r (&s) % 4 ? 1 + rand_r (&s) % 97 : 1 + rand_r (&s) % sizeof (buf);
        ssize_t n = read (0, buf, want);
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            return n < 0;
        for (ssize_t k = 0; k < n;)
        {
            size_t m = 1 + rand_r (&s) % (size_t) (n - k);
            ssize_t w = write (1, buf + k, m);
            if (w < 0 && errno == EINTR)
                continue;
            if (w < 0)
                return 1;
            k += w;
        }
        if (rand_r (&s) % 16 == 0 && pauses++ < 40)
        {
            struct timespec t = { 0, 200000 + rand_r (&s) % 600000 };
            nanosleep (&t, 0);
        }
    }
}
