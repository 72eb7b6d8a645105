
set(HAVE_ASPRINTF "1" CACHE INTERNAL "")
set(HAVE_ASSERT_H "1" CACHE INTERNAL "")
set(HAVE_BASENAME "1" CACHE INTERNAL "")
set(HAVE_BREAK "" CACHE INTERNAL "")
set(HAVE_BZERO "1" CACHE INTERNAL "")
set(HAVE_CALLOC "1" CACHE INTERNAL "")
set(HAVE_CTYPE_H "1" CACHE INTERNAL "")
set(HAVE_DLFCN_H "1" CACHE INTERNAL "")
set(HAVE_ERRNO_H "1" CACHE INTERNAL "")
set(HAVE_GETOPT_LONG "1" CACHE INTERNAL "")
set(HAVE_INTTYPES_H "1" CACHE INTERNAL "")
set(HAVE_LIBGEN_H "1" CACHE INTERNAL "")
set(HAVE_LONG_DOUBLE "1" CACHE INTERNAL "")
set(HAVE_LONG_LONG "1" CACHE INTERNAL "")
set(HAVE_MEMORY_H "1" CACHE INTERNAL "")
set(HAVE_MEMSET "1" CACHE INTERNAL "")
set(HAVE_OPENLOG "1" CACHE INTERNAL "")
set(HAVE_SRANDOMDEV "" CACHE INTERNAL "")
set(HAVE_STDBOOL_H "1" CACHE INTERNAL "")
set(HAVE_STDINT_H "1" CACHE INTERNAL "")
set(HAVE_STDLIB_H "1" CACHE INTERNAL "")
set(HAVE_STRCHR "1" CACHE INTERNAL "")
set(HAVE_STRDUP "1" CACHE INTERNAL "")
set(HAVE_STRINGS_H "1" CACHE INTERNAL "")
set(HAVE_STRING_H "1" CACHE INTERNAL "")
set(HAVE_STRRCHR "1" CACHE INTERNAL "")
set(HAVE_SYSLOG_H "1" CACHE INTERNAL "")
set(HAVE_SYS_STAT_H "1" CACHE INTERNAL "")
set(HAVE_SYS_TYPES_H "1" CACHE INTERNAL "")
set(HAVE_SYS_WAIT_H "1" CACHE INTERNAL "")
set(HAVE_UNISTD_H "1" CACHE INTERNAL "")
set(HAVE_VASPRINTF "1" CACHE INTERNAL "")
set(HAVE_VA_COPY "1" CACHE INTERNAL "")
set(HAVE_VSYSLOG "1" CACHE INTERNAL "")
