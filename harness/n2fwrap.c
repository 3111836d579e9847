/* n2f.c compiled with -Dtmpnam=fk_tmpnam: the intermediate file is made in the current directory. */
#include <stdlib.h>
char *fk_tmpnam(char *s) { static char n[] = "interm.tmp"; (void)s; return getenv("FK_NOTMP") ? 0 : n; }
