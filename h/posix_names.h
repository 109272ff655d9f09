/* the library renames the POSIX calls; harness code that plays the outside world wants the real ones */
#undef close
#undef read
#undef write
#undef open
#undef connect
#undef bind
#undef accept
#undef listen
#undef socket
#undef send
#undef recv
#undef mkfifo
#undef fopen
#undef sleep
