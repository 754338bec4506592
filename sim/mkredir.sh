#!/bin/sh
# list of "old new" pairs for objcopy --redefine-syms
for s in memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strcpy stpcpy strncpy strcat strncat strchr strrchr strstr strdup strndup \
 malloc calloc free realloc vsnprintf snprintf vsprintf sprintf __assert_fail __stack_chk_fail _exit exit abort open creat close write pwrite read pread ftruncate fstat stat lstat lseek \
 fsync fdatasync msync access unlink remove rename mkdir rmdir mmap munmap fopen fclose vfprintf fprintf printf vprintf puts putchar fputs fputc fwrite fread fflush \
 opendir readdir closedir clock_gettime gettimeofday time random rand srandom srand getpid usleep; do echo "$s sim_$s"; done
for s in open64 creat64 pwrite64 pread64 ftruncate64 fstat64 stat64 lstat64 lseek64 mmap64 fopen64 readdir64; do echo "$s sim_$s"; done
echo "_Znwm sim_new"; echo "_Znam sim_new_a"
echo "_ZdlPv sim_delete"; echo "_ZdaPv sim_delete_a"; echo "_ZdlPvm sim_delete_n"; echo "_ZdaPvm sim_delete_an"
