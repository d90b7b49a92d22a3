exec(open('/tmp/w/s02.py').read().split("seed('C02-a'")[0])
src=open('/tmp/w/s02.py').read()
i=src.index("seed('C17-a'"); j=src.index("seed('C17-b'")
exec(src[i:j])
seed('C17-c','C17',[('palm/src/ctinfo.c',"        if (buffer[index] == ' ') {","        if (buffer[index] == ' ' || buffer[index] == '-') {"),('palm/src/ctinfo.c',"                if (buffer[last_space] == ' ') {","                if (buffer[last_space] == ' ' || buffer[last_space] == '-') {")],
 'a message longer than a line whose last possible break is a hyphen', 'the hyphen is replaced by the line break and not printed',
 PALM,{'demo.c':'''#include <palm/ctinfo.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
int main(void){ char m[200]; int fd=open("o.txt",O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,2);
 memset(m,'w',150); m[150]=0; m[80]='-'; m[10]=' '; CTI(CTI_NOTE,false,"%s",m); fflush(stderr);
 char b[2000]; int n=pread(fd,b,1999,0); b[n<0?0:n]=0; return strchr(b,'-')?0:1; }
'''})
