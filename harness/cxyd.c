/* A compile server around the driver of the tree under test: initialises it
 * once (which compiles the builtins), then forks for every request.
 * Request: "<directory>\t<file>\t<seconds>\n"; the child runs in the directory
 * with its output in <directory>/out. Reply: "<wait status>\n". */
#include "core/log.h"
#include "core/utils.h"
#include "driver/driver.h"
#include "driver/options.h"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char **argv)
{
    CompilerDriver driver = {0};
    Log log = newLog(NULL, NULL);
    MemPool pool = newMemPool();
    StrPool strings = newStrPool(&pool);
    if (!parseCommandLineOptions(
            &argc, argv, &strings, &driver.options, &log))
        return 2;
    if (!initCompilerDriver(&driver, &pool, &strings, &log, argc, argv))
        return 3;
    char line[8192];
    dup2(1, 9);
    printf("ready\n");
    fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char *dir = strtok(line, "\t"), *file = strtok(NULL, "\t"),
             *secs = strtok(NULL, "\n");
        if (!dir || !file || !secs)
            return 4;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(dir))
                _exit(100);
            setpgid(0, 0);
            int n = open("out", O_WRONLY | O_CREAT | O_TRUNC, 0644), z = open("/dev/null", O_RDONLY);
            dup2(n, 1);
            dup2(n, 2);
            dup2(z, 0);
            close(9);
            struct rlimit c = {atoi(secs), atoi(secs) + 1}, f = {64 << 20, 64 << 20};
            setrlimit(RLIMIT_CPU, &c);
            setrlimit(RLIMIT_FSIZE, &f);
            alarm(atoi(secs) * 4);
            bool ok = compileFile(file, &driver);
            fflush(stdout);
            fflush(stderr);
            _exit(ok && !hasErrors(&log) ? 0 : 1);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        kill(-pid, SIGKILL);
        dprintf(9, "%d\n", st);
    }
    return 0;
}
