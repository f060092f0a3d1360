/*
 * libFuzzer target for C20: runs the programs' main() in this process.
 *
 * The sources are compiled with exit renamed to fz_exit and each main renamed,
 * so the target relies on nothing but the command line.  An input is a byte of
 * flags and three sections, separated by 0x1E: config file, table, stream.
 * What it finds is confirmed with the real programs before it counts.
 */
#include <fcntl.h>
#include <getopt.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int detox_main(int, char **);
int check_table_main(int, char **);
int generate_builtin_table_main(int, char **);

extern void yyrestart(FILE *) __attribute__((weak));
extern int config_file_lineno __attribute__((weak));

static jmp_buf out;
static int base_fd;

void fz_exit(int status)
{
    longjmp(out, status + 1000);
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    const char *dir = getenv("FZ_DIR");
    if (dir == NULL || chdir(dir) != 0) {
        _exit(3);
    }
    unsetenv("HOME");
    unsetenv("XDG_CONFIG_HOME");
    unsetenv("DETOX_SEQUENCE");
    base_fd = dup(0);
    close(base_fd);
    base_fd += 40;
    return 0;
}

static void put(const char *name, const uint8_t *data, size_t size)
{
    int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, data, size) != (ssize_t) size) {
        _exit(3);
    }
    close(fd);
}

static const char *const kinds[] = { "safe", "iso8859_1", "utf_8", "utf_8" };

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    const uint8_t *part[3];
    size_t length[3] = { 0, 0, 0 };
    char text[200];
    char *argv[8];
    int argc = 0;
    int i;

    if (size < 1) {
        return 0;
    }

    uint8_t flags = data[0];
    data++, size--;
    for (i = 0; i < 3; i++) {
        const uint8_t *end = i < 2 && size ? memchr(data, 0x1E, size) : NULL;
        part[i] = data;
        length[i] = end ? (size_t) (end - data) : size;
        data += length[i] + (end ? 1 : 0);
        size -= length[i] + (end ? 1 : 0);
    }

    put("T", part[1], length[1]);
    put("in", part[2], length[2]);
    if (length[0] == 0) {
        snprintf(text, sizeof text, "sequence a { %s { filename \"T\"; }; };\n", kinds[(flags >> 3) & 3]);
        put("rc", (const uint8_t *) text, strlen(text));
    } else {
        put("rc", part[0], length[0]);
    }

    optind = 0;
    opterr = 0;
    if (yyrestart) {
        FILE *f = fopen("/dev/null", "r");
        yyrestart(f);
    }
    if (&config_file_lineno) {
        config_file_lineno = 1;
    }
    if (!freopen("in", "r", stdin)) {
        _exit(3);
    }

    if (setjmp(out) == 0) {
        switch (flags & 7) {
            case 6:
                argv[argc++] = "check-table";
                argv[argc++] = flags & 8 ? "-d" : "-v";
                argv[argc++] = flags & 16 ? "-b" : "-v";
                argv[argc++] = flags & 32 ? "-l" : "-v";
                argv[argc++] = "T";
                argv[argc] = NULL;
                check_table_main(argc, argv);
                break;

            case 7:
                argv[argc++] = "generate-builtin-table";
                argv[argc++] = "T";
                argv[argc] = NULL;
                generate_builtin_table_main(argc, argv);
                break;

            case 5:
                argv[argc++] = "detox";
                argv[argc++] = "-Lv";
                argv[argc++] = "-f";
                argv[argc++] = "rc";
                argv[argc] = NULL;
                detox_main(argc, argv);
                break;

            default:
                argv[argc++] = "inline-detox";
                argv[argc++] = "-f";
                argv[argc++] = "rc";
                argv[argc] = NULL;
                detox_main(argc, argv);
                break;
        }
    }

    fflush(stdout);
    for (i = base_fd; i < base_fd + 200; i++) {
        close(i);
    }
    return 0;
}
