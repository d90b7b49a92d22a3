from seed import *
seed('C02-a','C02',[('palm/src/str.c',"            if (STRlen(str) < plen) {\n                res = false;\n            } else {\n                res = (0 == strncmp(prefix, str, STRlen(prefix)));\n            }","            if (STRlen(str) <= plen) {\n                res = STReq(str, prefix);\n            } else {\n                res = (0 == strncmp(prefix, str, plen - (str[plen] == prefix[0])));\n            }")],
 'a string in which the character right after the candidate prefix equals the first character of the prefix and which differs in the last prefix character', 'STRprefix accepts strings that do not start with the prefix',
 PALM,{'demo.c':'''#include <palm/str.h>
int main(void){ if(!STRprefix("ab","abc"))return 2; return STRprefix("ab","axa") ? 1 : 0; }
'''})
seed('C02-b','C02',[('palm/src/str.c',"        while ((first[i] != '\\0') && (second[i] != '\\0')\n            && (tolower(first[i]) == tolower(second[i]))) {","        while ((first[i] != '\\0') && (second[i] != '\\0')\n            && ((first[i] | 0x20) == (second[i] | 0x20))) {")],
 'strings that differ only in non-letters whose codes differ by 32, like @ and `', 'STReqci treats different punctuation characters as equal',
 PALM,{'demo.c':'''#include <palm/str.h>
int main(void){ if(!STReqci("aBc","AbC"))return 2; return STReqci("a@b","a`B") ? 1 : 0; }
'''})
seed('C02-c','C02',[('palm/src/str.c',"    result = MEMmalloc((STRlen(str) + (occurrences * (STRlen(subst) - tlen)) + 1) * sizeof(char));","    result = MEMmalloc((STRlen(str) + (occurrences * slen) - tlen + 1) * sizeof(char));")],
 'substituting a token that does not occur in the string', 'STRsubstToken writes past its result buffer',
 PALM,{'demo.c':'''#include <palm/str.h>
int main(void){ char *r=STRsubstToken("some longer text without it","token","x"); return r==0||!STReq(r,"some longer text without it"); }
'''})
seed('C17-a','C17',[('palm/src/ctinfo.c',"    if (len >= message_buffer_size) {","    if (len > message_buffer_size) {")],
 'a message exactly as long as the buffer left by an earlier message', 'the last character of the message is cut off',
 PALM,{'demo.c':'''#include <palm/ctinfo.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
int main(void){ char m[200]; int fd=open("o.txt",O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,2);
 memset(m,'a',100); m[100]=0; CTI(CTI_WARN,false,"%s",m);
 memset(m,'b',102); m[102]=0; CTI(CTI_WARN,false,"%s",m); fflush(stderr);
 char b[1000]; int n=pread(fd,b,999,0); b[n<0?0:n]=0; return strstr(b,m)?0:1; }
'''})
seed('C17-b','C17',[('palm/src/ctinfo.c',"    if (errors > 0) {\n        AbortCompilation();","    if ((char)errors > 0) {\n        AbortCompilation();")],
 'an error count that is a multiple of 256 (or between 128 and 255 modulo 256)', 'CTIabortOnError returns although errors were reported',
 PALM,{'demo.c':'''#include <palm/ctinfo.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
int main(void){ freopen("/dev/null","w",stderr); for(int i=0;i<200;i++) CTI(CTI_ERROR,false,"e"); pid_t c=fork(); if(!c){CTIabortOnError();_exit(99);} int s; waitpid(c,&s,0); return WEXITSTATUS(s)==99; }
'''})
seed('C17-c','C17',[('palm/src/ctinfo.c',"                if (buffer[last_space] == ' ') {","                if (buffer[last_space] == ' ' || last_space > 0) {")],
 'a long word that does not fit a line after a line was already broken', 'characters of the message are overwritten by line breaks',
 PALM,{'demo.c':'''#include <palm/ctinfo.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
int main(void){ char m[700]; int fd=open("o.txt",O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,2);
 memset(m,'w',600); m[600]=0; m[3]=' '; CTI(CTI_NOTE,false,"%s",m); fflush(stderr);
 char b[2000]; int n=pread(fd,b,1999,0),w=0; for(int i=0;i<n;i++) w+=b[i]=='w'; return w==599?0:1; }
'''})
seed('C18-a','C18',[('palm/src/memory.c',"        ptr = realloc(address, size);\n\n        if (ptr == NULL) {","        ptr = realloc(address, size);\n\n        if (ptr == NULL && (int)size > 0) {")],
 'a failing realloc of 2 GiB or more', 'MEMrealloc hands out NULL for a non-zero request',
 '''#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
gcc -w -O1 -g -DNDEBUG -I palm/include "$here/demo.c" palm/src/*.c -Wl,--wrap=realloc -o "$t/demo"
cd "$t"; timeout 60 ./demo
''',{'demo.c':'''#include <palm/memory.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
void *__wrap_realloc(void *p, size_t n){ return NULL; }
int main(void){ freopen("/dev/null","w",stderr); pid_t c=fork(); if(!c){ void *p=MEMmalloc(4); p=MEMrealloc(p,0x80000000ul); _exit(99);} int s; waitpid(c,&s,0); return WEXITSTATUS(s)==99; }
'''})
seed('C18-b','C18',[('palm/src/memory.c',"    result = memcpy(result, mem, size);","    result = memcpy(result, mem, size & ~(size_t)(size > 4096));")],
 'copying a block of more than 4096 bytes and odd size', 'MEMcopy loses the last byte',
 PALM,{'demo.c':'''#include <palm/memory.h>
#include <string.h>
int main(void){ char *a=MEMmalloc(5001); memset(a,7,5001); char *b=MEMcopy(5001,a); return memcmp(a,b,5001)?1:0; }
'''})
