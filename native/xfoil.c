/* Simulated XFOIL: reads a command script on stdin, like XFOIL does, and writes panelled
 * coordinates.  The geometry is a simple deterministic function of what XFOIL is told (coordinates
 * file, hinge, deflection, panel count), so that the file shows from which run it came.
 *   SIMX_OVERWRITE=Y|N  what a blank answer to "Output file exists. Overwrite?" means
 *   SIMX_FAIL=nosave | exit1 | crash | partial | noload | lateexit | empty     failure of this run
 */
#include <ctype.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static double X[20000], Y[20000], PX[20000], PY[20000];
static int n, np_, loaded;
static char *in; static size_t inlen, pos;

static int slurp(int fd, char **out, size_t *len)
{
    size_t cap = 65536, l = 0; char *b = malloc(cap);
    for (;;) {
        if (l + 4096 > cap) b = realloc(b, cap *= 2);
        ssize_t r = read(fd, b + l, 4096);
        if (r < 0) { free(b); return -1; }
        if (!r) break;
        l += r;
    }
    b[l] = 0; *out = b; *len = l; return 0;
}
static int line(char *b, int cap) /* next input line, stripped; 0 at end of input */
{
    if (pos >= inlen) return 0;
    size_t e = pos; while (e < inlen && in[e] != '\n') e++;
    size_t s = pos, t = e; pos = e + 1;
    while (s < t && isspace((unsigned char)in[s])) s++;
    while (t > s && isspace((unsigned char)in[t - 1])) t--;
    int l = t - s < (size_t)cap - 1 ? (int)(t - s) : cap - 1;
    memcpy(b, in + s, l); b[l] = 0; return 1;
}
static void say(const char *s) { if (write(1, s, strlen(s)) < 0) {} }
static void eof(void) { say("end of file\n"); exit(2); }
#define NEXT(b) do { if (!line(b, sizeof b)) eof(); } while (0)
static int is(const char *b, const char *c) { return strncasecmp(b, c, 4) == 0 && (!b[strlen(c)] || isspace((unsigned char)b[strlen(c)])); }

int main(void)
{
    const char *fail = getenv("SIMX_FAIL"), *ow = getenv("SIMX_OVERWRITE"); if (!fail) fail = "";
    char b[512]; double xh = .8, yt = .5, df = 0; int N = 160; char t_[64] = "1.0"; double dist = 1.0; (void)t_;
    say("XFOIL (simulated)\n");
    if (!strcmp(fail, "crash")) { raise(SIGSEGV); }
    if (!strcmp(fail, "exit1")) return 1;
    if (slurp(0, &in, &inlen)) return 2;
    for (;;) {
        NEXT(b);
        if (!*b) continue;
        if (is(b, "QUIT")) { if (!strcmp(fail, "lateexit")) return 3; return 0; }
        if (is(b, "PLOP")) { do NEXT(b); while (*b); }
        else if (is(b, "LOAD")) {
            NEXT(b);
            int fd = strcmp(fail, "noload") ? open(b, O_RDONLY) : -1; char *d; size_t l;
            if (fd < 0 || slurp(fd, &d, &l)) { say("File OPEN error.  Airfoil not loaded.\n"); loaded = 0; continue; }
            close(fd);
            n = 0; char *p = d;
            while (n < 20000) { char *e; double x = strtod(p, &e); if (e == p) break; p = e; double y = strtod(p, &e); if (e == p) break; p = e; X[n] = x; Y[n] = y; n++; }
            free(d);
            if (n < 3) { say("File READ error.  Airfoil not loaded.\n"); loaded = 0; continue; }
            loaded = 1; memcpy(PX, X, sizeof X); memcpy(PY, Y, sizeof Y); np_ = n;
            say("Enter airfoil name\n"); NEXT(b);
        } else if (is(b, "GDES")) {
            for (;;) {
                NEXT(b); if (!*b) break;
                if (is(b, "NAME")) NEXT(b);
                else if (is(b, "FLAP")) {
                    NEXT(b); xh = atof(b); NEXT(b); double yh = atof(b);
                    if (yh == 999) { NEXT(b); yt = atof(b); } else yt = yh + 7;
                    NEXT(b); df = atof(b);
                    double a = df * 3.14159265358979 / 180, yc = (yt - .5) * .1;
                    for (int i = 0; i < n; i++) if (X[i] > xh) { double dx = X[i] - xh, dy = Y[i] - yc; X[i] = xh + dx * cos(a) + dy * sin(a); Y[i] = yc - dx * sin(a) + dy * cos(a); }
                } else if (is(b, "EXEC")) { memcpy(PX, X, sizeof X); memcpy(PY, Y, sizeof Y); np_ = n; }
            }
        } else if (is(b, "PPAR")) {
            for (;;) {
                NEXT(b); if (!*b) break;
                if (!strcasecmp(b, "N")) { NEXT(b); N = atoi(b); }
                else if (!strcasecmp(b, "T")) { NEXT(b); dist = atof(b); }
                else NEXT(b);
            }
        } else if (is(b, "PSAV") || is(b, "SAVE")) {
            char name[512]; NEXT(name);
            if (!*name) { say("not saved\n"); continue; }
            if (!loaded || !strcmp(fail, "nosave")) { say("No airfoil.  Not saved.\n"); continue; }
            if (access(name, F_OK) == 0) { char q[64]; say("Output file exists.  Overwrite?\n"); NEXT(q); int yes = *q ? toupper((unsigned char)*q) == 'Y' : !(ow && *ow == 'N'); if (!yes) { say("Current airfoil not saved.\n"); continue; } }
            int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) return 2;
            if (!strcmp(fail, "empty")) { close(fd); continue; }
            if (N < 2) N = 2;
            if (N > 360) N = 360; /* panel counts are adjusted */
            if (N % 3 == 1) N++;
            char out[4096]; size_t o = 0;
            for (int i = 0; i < N; i++) {
                double s = pow((double)i / (N - 1), .8 + .4 * dist) * (np_ - 1); int k = (int)s; if (k > np_ - 2) k = np_ - 2; double w = s - k;
                o += sprintf(out + o, " %14.6f %14.6f\n", PX[k] + w * (PX[k + 1] - PX[k]), PY[k] + w * (PY[k + 1] - PY[k]));
                if (o > 600 || i == N - 1 || (!strcmp(fail, "partial") && i == N / 2)) {
                    size_t d = 0; while (d < o) { ssize_t r = write(fd, out + d, o - d); if (r < 0) { say("write error\n"); exit(2); } d += r; }
                    o = 0;
                    if (!strcmp(fail, "partial") && i >= N / 2) { raise(SIGSEGV); }
                }
            }
            close(fd);
        } else say("command not recognised\n");
    }
}
