/* LD_PRELOAD shim: notes which environment variables a process asks for, one per line, in the file ASKED names. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>

extern char **environ;

static char *find(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

static void note(const char *name) {
    const char *path = find("ASKED");
    if (!path || !strcmp(name, "ASKED")) return;
    int fd = open(path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd < 0) return;
    char line[300];
    size_t n = strlen(name);
    if (n < sizeof line) {
        memcpy(line, name, n);
        line[n] = '\n';
        if (write(fd, line, n + 1) < 0) {}
    }
    close(fd);
}

char *getenv(const char *name) {
    note(name);
    return find(name);
}

char *secure_getenv(const char *name) {
    note(name);
    return find(name);
}
